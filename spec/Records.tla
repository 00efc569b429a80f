------------------------------ MODULE Records ------------------------------
(***************************************************************************)
(* What the specification says about one text, in the form the conformance *)
(* harness replays: one JSON line per text.                                *)
(***************************************************************************)
EXTENDS Norm, CSV

FormSeq == <<"nfd", "nfkd", "nfc", "nfkc">>
SafeSeq == <<"nfd", "nfc">>

Bit(b) == IF b THEN "1" ELSE "0"

(* boundary flags: may this text follow any other without interacting?  one per form of FormSeq, then
   one for the stream-safe count *)
BoundaryFlags(s) ==
    IF s = <<>> THEN "11111"
    ELSE Bit(IsBoundary("nfd", s[1])) \o Bit(IsBoundary("nfkd", s[1])) \o Bit(IsBoundary("nfc", s[1]))
         \o Bit(IsBoundary("nfkc", s[1])) \o Bit(Edges(s[1]).lead = 0)

Quicks(s) ==
    QuickCheck("nfd", FALSE, s) \o QuickCheck("nfkd", FALSE, s) \o QuickCheck("nfc", FALSE, s)
    \o QuickCheck("nfkc", FALSE, s) \o QuickCheck("nfd", TRUE, s) \o QuickCheck("nfc", TRUE, s)

(* text with the stream-safe step before / after each form; only when it makes a difference *)
SafeChains(s, ss, d, kd, c, kc) ==
    IF ss = s THEN <<>>
    ELSE <<NFD(ss), NFKD(ss), NFC(ss), NFKC(ss),
           StreamSafe(d), StreamSafe(kd), StreamSafe(c), StreamSafe(kc)>>
CjkChains(s, v) ==
    IF v = s THEN <<>> ELSE <<NFD(v), NFKD(v), NFC(v), NFKC(v)>>

Record(s) ==
    LET d  == NFD(s)
        kd == NFKD(s)
        c  == Composed(d).out
        kc == Composed(kd).out
        ss == StreamSafe(s)
        v  == CjkVariants(s)
        run == LongestRun(s)
        full == Bit(d = s) \o Bit(kd = s) \o Bit(c = s) \o Bit(kc = s)
                \o Bit(run <= MaxNS /\ d = s) \o Bit(run <= MaxNS /\ c = s)
    IN <<s, d, kd, c, kc, ss, v, Quicks(s), full, BoundaryFlags(s), run,
         SafeChains(s, ss, d, kd, c, kc), CjkChains(s, v)>>

(* Workers append to one file.  Only short lines are appended atomically, so long ones get their own file. *)
Mix(s) == FoldLeft(LAMBDA h, c : (h * 31 + c) % 60000000, Len(s), s)
WriteLine(s, line, file) ==
    CSVWrite("%1$s", <<line>>, IF Len(line) < 7000 THEN file ELSE file \o ".d/" \o ToString(Mix(s)))
EmitRecord(s, file) == WriteLine(s, ToJson(Record(s)), file)

----------------------------------------------------------------------------
(* The theorems of UAX #15 that the replayed records and the properties    *)
(* rest on, checked by TLC for every text explored.                        *)

(* C01: the closed form of canonical ordering is the fixpoint of D109 *)
OrderingIsFixpoint(s) ==
    \A k \in BOOLEAN : LET t == DecompText(k, s) IN SwapAll(t) = Ordered(t)
(* C03 *)
FormsAbsorb(s) ==
    \A f, g \in FormNames : Norm(g, Norm(f, s)) = Norm(FormAfter(f, g), s)
(* C05, C04 *)
QuickSound(s) ==
    \A f \in FormNames :
        LET q == QuickCheck(f, FALSE, s)
        IN /\ q = "Y" => IsNormalized(f, s)
           /\ q = "N" => ~IsNormalized(f, s)
           /\ q = "M" => f \in {"nfc", "nfkc"}
(* C05: the standard's own decisiveness claim: an answer of Maybe needs a Maybe character *)
MaybeNeedsCause(s) ==
    \A f \in FormNames : QuickCheck(f, FALSE, s) = "M" => \E i \in DOMAIN s : Qc(f, s[i]) = "M"
(* C06 *)
SafeProcess(s) ==
    LET t == StreamSafe(s)
    IN /\ IsStreamSafe(t)
       /\ IsStreamSafe(s) <=> (t = s)
       /\ Len(t) <= 2 * Len(s)
       /\ (CGJ \notin ToSet(s)) => SelectSeq(t, LAMBDA c : c # CGJ) = s
       /\ StreamSafe(t) = t
(* C07 *)
SafeQuickSound(s) ==
    \A f \in {"nfc", "nfd"} :
        LET q == QuickCheck(f, TRUE, s)
        IN /\ q = "Y" => IsSafeNormalized(f, s)
           /\ q = "N" => ~IsSafeNormalized(f, s)
           /\ ~IsStreamSafe(s) => q = "N"
           /\ IsStreamSafe(s) => q = QuickCheck(f, FALSE, s)
           (* the fallback the implementation documents decides exactly *)
           /\ (s = Norm(f, StreamSafe(s))) <=> IsSafeNormalized(f, s)
(* C08 *)
SafePreserved(s) ==
    /\ \A f \in {"nfc", "nfd", "nfkc", "nfkd"} : IsNormalized(f, StreamSafe(Norm(f, s)))
    /\ \A f \in FormNames : IsStreamSafe(Norm(f, StreamSafe(s)))
    /\ IsStreamSafe(s) => \A f \in FormNames : Norm(f, StreamSafe(s)) = Norm(f, s)
(* C16 *)
DropInserted(s) == SelectSeq(s, LAMBDA c : ~(c \in 65024..65039))
CjkStable(s) ==
    LET v == CjkVariants(s)
    IN /\ CjkVariants(v) = v
       /\ DropInserted(s) = s => \A f \in FormNames : DropInserted(Norm(f, v)) = Norm(f, s)
       /\ \A f \in FormNames : SelectSeq(Norm(f, v), LAMBDA c : c \in VariantKeys) = <<>>
(* C20: at every position of s that starts with a boundary character *)
Local(s) ==
    \A f \in FormNames : \A i \in 1..Len(s) :
        IsBoundary(f, s[i]) =>
            LET x == SubSeq(s, 1, i - 1)
                y == SubSeq(s, i, Len(s))
            IN /\ Norm(f, s) = Norm(f, x) \o Norm(f, y)
               /\ IsNormalized(f, s) <=> (IsNormalized(f, x) /\ IsNormalized(f, y))
SafeLocal(s) ==
    \A i \in 1..Len(s) :
        Edges(s[i]).lead = 0 =>
            LET x == SubSeq(s, 1, i - 1)
                y == SubSeq(s, i, Len(s))
            IN /\ StreamSafe(s) = StreamSafe(x) \o StreamSafe(y)
               /\ IsStreamSafe(s) <=> (IsStreamSafe(x) /\ IsStreamSafe(y))
(* C21 *)
Bounds(s) ==
    LET n == Len(s)
    IN /\ Len(NFD(s)) <= 4 * n /\ Len(NFKD(s)) <= 18 * n
       /\ Len(NFC(s)) <= Len(NFD(s)) /\ Len(NFKC(s)) <= Len(NFKD(s))
       /\ \A f \in FormNames : (Norm(f, s) = <<>>) <=> (s = <<>>)
       /\ \A f \in FormNames : \A i \in DOMAIN Norm(f, s) : IsScalar(Norm(f, s)[i])
=============================================================================

-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* UAX #15 as mathematics: the normalization forms, the quick checks, the  *)
(* Stream-Safe Text Format and Process and the CJK variant replacement as  *)
(* functions of whole texts.  No streaming, no buffers.                    *)
(***************************************************************************)
EXTENDS UCD

CONSTANT MaxNS          \* the Stream-Safe limit on consecutive non-starters (30)

CGJ == 847              \* U+034F COMBINING GRAPHEME JOINER

Flatten(op(_), s) == FoldLeft(LAMBDA acc, c : acc \o op(c), <<>>, s)

DecompText(compat, s) ==
    IF compat THEN Flatten(DecompCompat, s) ELSE Flatten(DecompCanon, s)

----------------------------------------------------------------------------
(* Canonical Ordering Algorithm (D108, D109).  The definition is the       *)
(* fixpoint of swapping reorderable pairs; StableSort is its closed form   *)
(* (checked equal by the design models) and is what the rest uses.         *)

Reorderable(a, b) == Ccc(a) > Ccc(b) /\ Ccc(b) > 0

RECURSIVE SwapAll(_)
SwapAll(s) ==
    LET bad == {i \in 1..(Len(s) - 1) : Reorderable(s[i], s[i + 1])}
    IN IF bad = {} THEN s
       ELSE LET i == Min(bad)
            IN SwapAll([s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]])

Classes(run) == SetToSortSeq({Ccc(run[i]) : i \in DOMAIN run}, LAMBDA a, b : a < b)
StableSort(run) ==
    IF Len(run) <= 1 THEN run
    ELSE FoldLeft(LAMBDA acc, k : acc \o SelectSeq(run, LAMBDA c : Ccc(c) = k), <<>>, Classes(run))

OrderStep(acc, c) ==       \* acc = [done, run]
    IF IsStarter(c)
    THEN [done |-> Append(acc.done \o StableSort(acc.run), c), run |-> <<>>]
    ELSE [done |-> acc.done, run |-> Append(acc.run, c)]
Ordered(s) ==
    LET r == FoldLeft(OrderStep, [done |-> <<>>, run |-> <<>>], s)
    IN r.done \o StableSort(r.run)

----------------------------------------------------------------------------
(* Canonical Composition Algorithm (D115-D117) on ordered, decomposed text *)

(* C is blocked from the starter at position l of `out` if some character  *)
(* between them is a starter or has a class not lower than C's (D115).     *)
Blocked(out, l, c) ==
    \E i \in (l + 1)..Len(out) : Ccc(out[i]) = 0 \/ Ccc(out[i]) >= Ccc(c)

ComposeStep(acc, c) ==     \* acc = [out, l]: text so far, position of the last starter (0: none)
    LET x == IF acc.l = 0 \/ Blocked(acc.out, acc.l, c) THEN NoChar ELSE Compose(acc.out[acc.l], c)
    IN IF x # NoChar
       THEN [out |-> [acc.out EXCEPT ![acc.l] = x], l |-> acc.l]
       ELSE [out |-> Append(acc.out, c), l |-> IF IsStarter(c) THEN Len(acc.out) + 1 ELSE acc.l]
Composed(s) == FoldLeft(ComposeStep, [out |-> <<>>, l |-> 0], s)

----------------------------------------------------------------------------
(* The four forms (D118-D121).                                             *)

NFD(s)  == Ordered(DecompText(FALSE, s))
NFKD(s) == Ordered(DecompText(TRUE, s))
NFC(s)  == Composed(NFD(s)).out
NFKC(s) == Composed(NFKD(s)).out

Norm(form, s) ==
    CASE form = "nfc"  -> NFC(s)
      [] form = "nfd"  -> NFD(s)
      [] form = "nfkc" -> NFKC(s)
      [] form = "nfkd" -> NFKD(s)

IsNormalized(form, s) == Norm(form, s) = s

CanonEquivalent(s, t)  == NFD(s) = NFD(t)       \* D70
CompatEquivalent(s, t) == NFKD(s) = NFKD(t)     \* D67

IsCompatForm(f)   == f \in {"nfkc", "nfkd"}
IsComposedForm(f) == f \in {"nfc", "nfkc"}
(* the form that applying f and then g amounts to *)
FormAfter(f, g) ==
    IF IsCompatForm(f) \/ IsCompatForm(g)
    THEN (IF IsComposedForm(g) THEN "nfkc" ELSE "nfkd") ELSE g

----------------------------------------------------------------------------
(* Stream-Safe Text Format (D3) and Process (D4).                          *)

RunStep(acc, c) ==         \* acc = [cur, max]
    LET n == IF IsStarter(c) THEN 0 ELSE acc.cur + 1
    IN [cur |-> n, max |-> IF n > acc.max THEN n ELSE acc.max]
LongestRun(s) == FoldLeft(RunStep, [cur |-> 0, max |-> 0], DecompText(TRUE, s)).max
IsStreamSafe(s) == LongestRun(s) <= MaxNS

NextCount(n, e) == IF e.lead = e.len THEN n + e.len ELSE e.trail
SafeStep(acc, c) ==        \* acc = [out, n]
    LET e == Edges(c)
    IN IF acc.n + e.lead > MaxNS
       THEN [out |-> acc.out \o <<CGJ, c>>, n |-> NextCount(0, e)]
       ELSE [out |-> Append(acc.out, c), n |-> NextCount(acc.n, e)]
StreamSafe(s) == FoldLeft(SafeStep, [out |-> <<>>, n |-> 0], s).out

IsSafeNormalized(form, s) == IsStreamSafe(s) /\ IsNormalized(form, s)

----------------------------------------------------------------------------
(* Quick checks (UAX #15 section 9).                                       *)

QcStep(form, safe, acc, c) ==     \* acc = [r, cc, n]
    IF acc.r = "N" THEN acc
    ELSE LET k == Ccc(c)
             q == Qc(form, c)
             e == Edges(c)
         IN IF acc.cc > k /\ k # 0 THEN [acc EXCEPT !.r = "N"]
            ELSE IF q = "N" THEN [acc EXCEPT !.r = "N"]
            ELSE IF safe /\ acc.n + e.lead > MaxNS THEN [acc EXCEPT !.r = "N"]
            ELSE [r |-> IF q = "M" THEN "M" ELSE acc.r, cc |-> k,
                  n |-> IF safe THEN NextCount(acc.n, e) ELSE 0]
QuickCheck(form, safe, s) ==
    FoldLeft(LAMBDA acc, c : QcStep(form, safe, acc, c), [r |-> "Y", cc |-> 0, n |-> 0], s).r

----------------------------------------------------------------------------
(* CJK compatibility ideographs to standardized variation sequences.       *)

CjkVariants(s) == Flatten(Variant, s)

----------------------------------------------------------------------------
(* Locality: c starts a new, independent segment in the given form.        *)

IsBoundary(form, c) == IsStarter(c) /\ Qc(form, c) = "Y"
=============================================================================

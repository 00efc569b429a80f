------------------------------ MODULE CharDump ------------------------------
(***************************************************************************)
(* Judges the crate's answers for the whole code space.  DUMP_FILE holds,  *)
(* per question and per block of 1024 code points, the rows of all         *)
(* characters whose answer is not the unremarkable one; the specification  *)
(* computes the same rows.                                                 *)
(***************************************************************************)
EXTENDS Norm

CONSTANT Kinds          \* the questions
Dump == JsonDeserialize(IOEnv.DUMP_FILE)

BlockSize == 1024
Blocks    == 1088
CharsOf(b) == SelectSeq([i \in 1..BlockSize |-> b * BlockSize + i - 1], IsScalar)

(* <<>>: nothing remarkable, otherwise the row behind the character *)
Text(c, t) == IF t = <<c>> THEN <<>> ELSE t
Num(n)     == IF n = 0 THEN <<>> ELSE <<n>>
QcRow(q)   == CASE q = "Y" -> <<>> [] q = "N" -> <<0>> [] q = "M" -> <<1>>
Flag(b)    == IF b THEN <<1>> ELSE <<>>

Unremarkable(c) == ~(c \in CompatAllKeys) /\ ~(c \in CccKeys) /\ ~IsSyllable(c)

Answer(kind, c) ==
    CASE kind = "ccc"  -> Num(Ccc(c))
      [] kind = "canon"  -> Text(c, DecompCanon(c))
      [] kind = "compat" -> Text(c, DecompCompat(c))
      [] kind = "cjk"  -> Text(c, Variant(c))
      [] kind = "var"  -> Text(c, CjkVariants(<<c>>))
      [] kind = "nfd"  -> IF Unremarkable(c) THEN <<>> ELSE Text(c, NFD(<<c>>))
      [] kind = "nfkd" -> IF Unremarkable(c) THEN <<>> ELSE Text(c, NFKD(<<c>>))
      [] kind = "nfc"  -> IF Unremarkable(c) THEN <<>> ELSE Text(c, NFC(<<c>>))
      [] kind = "nfkc" -> IF Unremarkable(c) THEN <<>> ELSE Text(c, NFKC(<<c>>))
      [] kind = "ss"   -> Text(c, StreamSafe(<<c>>))
      [] kind = "q0" -> QcRow(QuickCheck("nfd", FALSE, <<c>>))
      [] kind = "q1" -> QcRow(QuickCheck("nfkd", FALSE, <<c>>))
      [] kind = "q2" -> QcRow(QuickCheck("nfc", FALSE, <<c>>))
      [] kind = "q3" -> QcRow(QuickCheck("nfkc", FALSE, <<c>>))
      [] kind = "q4" -> QcRow(QuickCheck("nfd", TRUE, <<c>>))
      [] kind = "q5" -> QcRow(QuickCheck("nfc", TRUE, <<c>>))
      [] kind = "f0" -> Flag(~Unremarkable(c) /\ ~IsNormalized("nfd", <<c>>))
      [] kind = "f1" -> Flag(~Unremarkable(c) /\ ~IsNormalized("nfkd", <<c>>))
      [] kind = "f2" -> Flag(~Unremarkable(c) /\ ~IsNormalized("nfc", <<c>>))
      [] kind = "f3" -> Flag(~Unremarkable(c) /\ ~IsNormalized("nfkc", <<c>>))
      [] kind = "f4" -> Flag(~Unremarkable(c) /\ ~IsSafeNormalized("nfd", <<c>>))
      [] kind = "f5" -> Flag(~Unremarkable(c) /\ ~IsSafeNormalized("nfc", <<c>>))
      [] kind = "lead"  -> Num(Edges(c).lead)
      [] kind = "trail" -> Num(Edges(c).trail)
      [] kind = "leadq" -> Num(IF QcNFD(c) = "N" \/ (Ccc(c) # 0 /\ Ccc(c) < 230) THEN 0 ELSE Edges(c).lead)
      [] kind = "prec" -> LET t == <<97, c, 768>> IN
                          IF Unremarkable(c) /\ ~(c \in PairFirsts) /\ ~(c \in PairSeconds) THEN <<>>
                          ELSE LET v == NFC(t) IN IF v = t THEN <<>> ELSE v
      [] kind = "foll" -> LET t == <<789, c, 803, c>> IN
                          IF Unremarkable(c) /\ ~(c \in PairFirsts) /\ ~(c \in PairSeconds) THEN <<>>
                          ELSE LET v == NFKC(t) IN IF v = t THEN <<>> ELSE v

SpecRows(kind, b) ==
    LET cs == SelectSeq(CharsOf(b), LAMBDA c : Answer(kind, c) # <<>>)
    IN [i \in DOMAIN cs |-> <<cs[i]>> \o Answer(kind, cs[i])]

(* properties given as ranges: clip the ranges to the block and spell them out *)
RangeRows(ranges, b) ==
    LET lo == b * BlockSize
        hi == lo + BlockSize - 1
        rs == SelectSeq(ranges, LAMBDA r : r[2] >= lo /\ r[1] <= hi)
        In(c) == \E i \in DOMAIN rs : rs[i][1] <= c /\ c <= rs[i][2]
        cs == SelectSeq(CharsOf(b), In)
    IN [i \in DOMAIN cs |-> <<cs[i], 1>>]

Expected(kind, b) ==
    CASE kind = "mark"     -> RangeRows(Raw.marks, b)
      [] kind = "assigned" -> RangeRows(Raw.assigned, b)
      [] OTHER             -> SpecRows(kind, b)

(* chosen in two steps - a question and a plane of blocks, then the block - so that workers share them *)
VARIABLES blk, kd
Width == 32
Init == blk = -1 /\ kd = ""
Choose == kd = "" /\ kd' \in Kinds /\ \E g \in 1..(Blocks \div Width) : blk' = -1 - g
Judge  == blk < -1 /\ kd' = kd /\ blk' \in ((-2 - blk) * Width)..((-1 - blk) * Width - 1)
Next == Choose \/ Judge

Agrees == blk >= 0 => Dump[kd][blk + 1] = Expected(kd, blk)
VersionAgrees == Dump.version = Raw.version
=============================================================================

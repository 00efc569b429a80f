------------------------------- MODULE Giants -------------------------------
(***************************************************************************)
(* Texts far too long to be written out: a text is given as blocks         *)
(* <<piece, n>>, the piece repeated n times.  Every operation of Norm is   *)
(* defined on blocks directly; that it commutes with writing the text out  *)
(* (Expand) is checked by TLC for all small block texts, and the laws are  *)
(* independent of n (once a copy of a piece leaves the operation in the    *)
(* state the copy before left it in, so does every further copy).          *)
(***************************************************************************)
EXTENDS Records, Alphabets

Written(b) == FoldLeft(LAMBDA acc, k : acc \o b[1], <<>>, [k \in 1..b[2] |-> k])
Expand(x)  == FoldLeft(LAMBDA acc, b : acc \o Written(b), <<>>, x)

(* x without empty blocks, neighbours of one copy joined *)
AddBlock(x, w, n) ==
    IF n = 0 \/ w = <<>> THEN x
    ELSE IF n = 1 /\ x # <<>> /\ x[Len(x)][2] = 1 THEN [x EXCEPT ![Len(x)] = <<@[1] \o w, 1>>]
    ELSE Append(x, <<w, n>>)
JoinBlocks(x, y) == FoldLeft(LAMBDA acc, b : AddBlock(acc, b[1], b[2]), x, y)

MapBlocks(op(_), x) == FoldLeft(LAMBDA acc, b : AddBlock(acc, op(b[1]), b[2]), <<>>, x)

----------------------------------------------------------------------------
(* Decomposition and canonical ordering.                                   *)

HasStarter(w) == \E k \in DOMAIN w : IsStarter(w[k])
FirstStarter(w) == CHOOSE k \in DOMAIN w : IsStarter(w[k]) /\ \A j \in 1..(k - 1) : ~IsStarter(w[j])
FinalStarter(w) == CHOOSE k \in DOMAIN w : IsStarter(w[k]) /\ \A j \in (k + 1)..Len(w) : ~IsStarter(w[j])

(* the same text in blocks that consist of non-starters or begin with a starter *)
Rotated(b) ==
    IF ~HasStarter(b[1]) \/ IsStarter(b[1][1]) THEN <<b>>
    ELSE LET f == FirstStarter(b[1])
             u == SubSeq(b[1], 1, f - 1)
             v == SubSeq(b[1], f, Len(b[1]))
         IN <<<<u, 1>>>> \o (IF b[2] = 1 THEN <<>> ELSE <<<<v \o u, b[2] - 1>>>>) \o <<<<v, 1>>>>
RotatedText(x) == FoldLeft(LAMBDA acc, b : acc \o Rotated(b), <<>>, x)

BlockClasses(run) == SetToSortSeq(UNION {{Ccc(run[k][1][j]) : j \in DOMAIN run[k][1]} : k \in DOMAIN run}, LAMBDA a, b : a < b)
SortBlocks(run) ==
    FoldLeft(LAMBDA acc, cl : JoinBlocks(acc, [k \in DOMAIN run |-> <<SelectSeq(run[k][1], LAMBDA e : Ccc(e) = cl), run[k][2]>>]),
             <<>>, BlockClasses(run))

OrderBlock(acc, b) ==          \* acc = [done, run]; b as Rotated leaves it
    IF ~HasStarter(b[1]) THEN [acc EXCEPT !.run = Append(@, b)]
    ELSE LET f == FinalStarter(b[1])
             tail == SubSeq(b[1], f + 1, Len(b[1]))
             d1 == AddBlock(JoinBlocks(acc.done, SortBlocks(acc.run)), Ordered(b[1]), b[2] - 1)
         IN [done |-> AddBlock(d1, Ordered(SubSeq(b[1], 1, f)), 1), run |-> IF tail = <<>> THEN <<>> ELSE <<<<tail, 1>>>>]
OrderedBlocks(x) ==
    LET r == FoldLeft(OrderBlock, [done |-> <<>>, run |-> <<>>], RotatedText(x))
    IN JoinBlocks(r.done, SortBlocks(r.run))

DecompBlocks(compat, x) == MapBlocks(LAMBDA w : DecompText(compat, w), x)
FormD(compat, x) == OrderedBlocks(DecompBlocks(compat, x))

----------------------------------------------------------------------------
(* Composition.  done: finished blocks; st: the last starter; after: what  *)
(* follows it; cls: the classes in there.                                  *)

CompChar(acc, e) ==
    LET k == Ccc(e)
        x == IF acc.st = NoChar \/ \E j \in acc.cls : j = 0 \/ j >= k THEN NoChar ELSE Compose(acc.st, e)
    IN IF x # NoChar THEN [acc EXCEPT !.st = x]
       ELSE IF k = 0
       THEN [done |-> JoinBlocks(IF acc.st = NoChar THEN acc.done ELSE AddBlock(acc.done, <<acc.st>>, 1), acc.after),
             st |-> e, after |-> <<>>, cls |-> {}]
       ELSE [acc EXCEPT !.after = AddBlock(@, <<e>>, 1), !.cls = @ \cup {k}]
CompPiece(acc, w) == FoldLeft(CompChar, acc, w)

SameState(a, b) == a.st = b.st /\ a.after = b.after /\ a.cls = b.cls
(* n copies of w; a period of more than one copy is one copy of a longer piece *)
RECURSIVE CompCopies(_, _, _)
CompCopies(acc, w, n) ==
    IF n = 0 THEN acc
    ELSE LET one == CompPiece([acc EXCEPT !.done = <<>>], w)
             whole == [one EXCEPT !.done = JoinBlocks(acc.done, @)]
             more[k \in 1..5] == IF k = 1 THEN CompPiece([one EXCEPT !.done = <<>>], w) ELSE CompPiece(more[k - 1], w)
             periods == IF n < 8 THEN {} ELSE {k \in 2..5 : SameState(more[k], one)}
         IN IF SameState(one, acc)          \* a period of one copy
            THEN IF n = 1 THEN whole
                 ELSE IF Len(one.done) = 1 /\ one.done[1][2] = 1
                 THEN [one EXCEPT !.done = AddBlock(acc.done, one.done[1][1], n)]
                 ELSE IF one.done = <<>> THEN acc                                         \* nothing is left of it
                 ELSE CompCopies(whole, w, n - 1)
            ELSE IF one.done = <<>> /\ one.st = acc.st /\ one.cls = acc.cls /\ ~HasStarter(w)  \* appended as it is, and blocked
            THEN [acc EXCEPT !.after = AddBlock(@, w, n)]
            ELSE IF periods # {}
            THEN LET k == Min(periods)
                 IN CompCopies(CompCopies(whole, FoldLeft(LAMBDA u, j : u \o w, <<>>, [j \in 1..k |-> j]), (n - 1) \div k), w, (n - 1) % k)
            ELSE CompCopies(whole, w, n - 1)

ComposedBlocks(x) ==
    LET r == FoldLeft(LAMBDA acc, b : CompCopies(acc, b[1], b[2]), [done |-> <<>>, st |-> NoChar, after |-> <<>>, cls |-> {}], x)
    IN JoinBlocks(IF r.st = NoChar THEN r.done ELSE AddBlock(r.done, <<r.st>>, 1), r.after)

FormBlocks(form, x) ==
    CASE form = "nfd" -> FormD(FALSE, x)
      [] form = "nfkd" -> FormD(TRUE, x)
      [] form = "nfc" -> ComposedBlocks(FormD(FALSE, x))
      [] form = "nfkc" -> ComposedBlocks(FormD(TRUE, x))

----------------------------------------------------------------------------
(* Operations with a small state: copies are made until a state recurs.    *)

(* hist: the states before each copy so far, outs: what each copy gave *)
RECURSIVE Cycle(_, _, _, _, _)
Cycle(step(_), hist, outs, n, out) ==
    LET cur == hist[Len(hist)]
    IN IF n = 0 THEN [state |-> cur, out |-> JoinBlocks(out, [k \in DOMAIN outs |-> <<outs[k], 1>>])]
       ELSE IF \E k \in 1..(Len(hist) - 1) : hist[k] = cur
       THEN LET k == CHOOSE k \in 1..(Len(hist) - 1) : hist[k] = cur
                len == Len(hist) - k
                pre == JoinBlocks(out, [j \in DOMAIN outs |-> <<outs[j], 1>>])
                per == FoldLeft(LAMBDA acc, j : acc \o outs[j], <<>>, [j \in 1..len |-> k + j - 1])
            IN Cycle(step, <<cur>>, <<>>, n % len, AddBlock(pre, per, n \div len))
       ELSE LET r == step(cur) IN Cycle(step, Append(hist, r.state), Append(outs, r.out), n - 1, out)
Copies(step(_), cur, n) == Cycle(step, <<cur>>, <<>>, n, <<>>)

SafePiece(n, w) ==
    LET r == FoldLeft(SafeStep, [out |-> <<>>, n |-> n], w) IN [state |-> r.n, out |-> r.out]
SafeBlocks(x) ==
    FoldLeft(LAMBDA acc, b : LET r == Copies(LAMBDA n : SafePiece(n, b[1]), acc.n, b[2]) IN [n |-> r.state, out |-> JoinBlocks(acc.out, r.out)],
             [n |-> 0, out |-> <<>>], x).out

QcPiece(form, safe, acc, w) == [state |-> FoldLeft(LAMBDA y, e : QcStep(form, safe, y, e), acc, w), out |-> <<>>]
QuickBlocks(form, safe, x) ==
    FoldLeft(LAMBDA acc, b : Copies(LAMBDA y : QcPiece(form, safe, y, b[1]), acc, b[2]).state, [r |-> "Y", cc |-> 0, n |-> 0], x).r

RunBlock(acc, b) ==            \* acc = [cur, max]
    IF ~HasStarter(b[1])
    THEN LET n == acc.cur + b[2] * Len(b[1]) IN [cur |-> n, max |-> IF n > acc.max THEN n ELSE acc.max]
    ELSE FoldLeft(RunStep, FoldLeft(RunStep, acc, b[1]), IF b[2] = 1 THEN <<>> ELSE b[1])
LongestRunBlocks(x) == FoldLeft(RunBlock, [cur |-> 0, max |-> 0], DecompBlocks(TRUE, x)).max

VariantBlocks(x) == MapBlocks(CjkVariants, x)

----------------------------------------------------------------------------
(* The record of a block text (see Records): texts are blocks, and what    *)
(* depends on comparing texts is left to the reader ("").                  *)

BlockQuicks(x) ==
    QuickBlocks("nfd", FALSE, x) \o QuickBlocks("nfkd", FALSE, x) \o QuickBlocks("nfc", FALSE, x)
    \o QuickBlocks("nfkc", FALSE, x) \o QuickBlocks("nfd", TRUE, x) \o QuickBlocks("nfc", TRUE, x)
BlockRecord(x) ==
    LET d  == FormD(FALSE, x)
        kd == FormD(TRUE, x)
        c  == ComposedBlocks(d)
        kc == ComposedBlocks(kd)
        ss == SafeBlocks(x)
        v  == VariantBlocks(x)
    IN <<x, d, kd, c, kc, ss, v, BlockQuicks(x), "", BoundaryFlags(x[1][1]), LongestRunBlocks(x),
         <<FormD(FALSE, ss), FormD(TRUE, ss), ComposedBlocks(FormD(FALSE, ss)), ComposedBlocks(FormD(TRUE, ss)),
           SafeBlocks(d), SafeBlocks(kd), SafeBlocks(c), SafeBlocks(kc)>>,
         <<FormD(FALSE, v), FormD(TRUE, v), ComposedBlocks(FormD(FALSE, v)), ComposedBlocks(FormD(TRUE, v))>>>>

----------------------------------------------------------------------------
(* All block texts of up to MaxLen blocks.                                 *)

CONSTANTS Pieces, Counts, MaxLen
VARIABLES blk, size
Init == blk = <<>> /\ size = 0
Next == size < MaxLen /\ size' = size + 1 /\ \E w \in Pieces, m \in Counts : blk' = Append(blk, <<w, m>>)

Whole == Expand(blk)
FormsCommute ==
    /\ Expand(FormD(FALSE, blk)) = NFD(Whole) /\ Expand(FormD(TRUE, blk)) = NFKD(Whole)
    /\ Expand(ComposedBlocks(FormD(FALSE, blk))) = NFC(Whole) /\ Expand(ComposedBlocks(FormD(TRUE, blk))) = NFKC(Whole)
SafeCommutes ==
    /\ Expand(SafeBlocks(blk)) = StreamSafe(Whole)
    /\ LongestRunBlocks(blk) = LongestRun(Whole)
QuickCommutes ==
    \A f \in FormNames : \A k \in BOOLEAN : QuickBlocks(f, k, blk) = QuickCheck(f, k, Whole)
OthersCommute == Expand(VariantBlocks(blk)) = CjkVariants(Whole)

(* block texts read from a file, their records written *)
BlockTexts == IF "TEXT_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.TEXT_FILE) ELSE <<>>
SplitTexts == size = 0 /\ size' = -2 /\ \E k \in 0..((Len(BlockTexts) - 1) \div 10) : blk' = <<k>>
LoadText   == size = -2 /\ size' = -1 /\ \E k \in (blk[1] * 10 + 1)..Min({(blk[1] + 1) * 10, Len(BlockTexts)}) : blk' = BlockTexts[k]
NextText   == SplitTexts \/ LoadText
BlocksRecorded == size = -1 => WriteLine(FoldLeft(LAMBDA acc, b : acc \o <<b[2]>> \o b[1], <<>>, blk), ToJson(BlockRecord(blk)), IOEnv.RECORD_FILE)

BP1 == {<<97>>, <<769>>, <<803>>, <<836>>, <<7879, 803>>, <<769, 97>>, <<65438>>}
BP2 == {<<4352>>, <<4449, 4520>>, <<4352, 4449>>, <<44032>>, <<93543>>, <<93539>>, <<769, 803>>}
BP3 == {<<3545>>, <<3530>>, <<3535>>, <<3545, 3530, 3535>>, <<3959>>, <<769, 97, 803>>, <<63744>>, <<8125, 769>>}
BP4 == {<<90398>>, <<90398, 90398>>, <<90398, 90399>>, <<90402, 90399>>, <<90409, 97>>, <<64606>>, <<769>>}
BCounts == {1, 2, 3, 7}
BCounts2 == {1, 2, 8, 9, 13}
=============================================================================

------------------------------ MODULE Streams -------------------------------
(***************************************************************************)
(* The streaming adapters as pull-based state machines, in the shape of    *)
(* the implementation: each stage holds a queue of items it can deliver    *)
(* without further input, plus the characters it must hold back.           *)
(*                                                                         *)
(*   "D"  canonical decomposition        (pend: unsorted non-starters)     *)
(*   "K"  compatibility decomposition                                      *)
(*   "C"  recomposition of a decomposed stream (comp, buf, last)           *)
(*   "S"  Stream-Safe Text Process       (cnt)                             *)
(*   "V"  CJK variant replacement                                          *)
(*                                                                         *)
(* A pipeline is a sequence of stages, source first.  The public adapters  *)
(* are pipelines: nfd = <<D>>, nfkc = <<K, C>>, stream_safe().nfc() =      *)
(* <<S, D, C>>, and so on.                                                 *)
(***************************************************************************)
EXTENDS Norm

StageKinds == {"D", "K", "C", "S", "V"}

Stage(kind) == [kind |-> kind, q |-> <<>>, pend |-> <<>>,
                comp |-> NoChar, buf |-> <<>>, last |-> 0, cnt |-> 0, ended |-> FALSE]
Pipeline(kinds) == [i \in DOMAIN kinds |-> Stage(kinds[i])]

(* The stages of each public adapter. *)
StagesOf(adapter) ==
    CASE adapter = "nfd"  -> <<"D">>
      [] adapter = "nfkd" -> <<"K">>
      [] adapter = "nfc"  -> <<"D", "C">>
      [] adapter = "nfkc" -> <<"K", "C">>
      [] adapter = "ss"   -> <<"S">>
      [] adapter = "cjk"  -> <<"V">>
StagesOfChain(adapters) == FoldLeft(LAMBDA acc, a : acc \o StagesOf(a), <<>>, adapters)

(* What an adapter, and a chain of adapters, must do to a whole text. *)
Apply(adapter, s) ==
    CASE adapter = "ss"  -> StreamSafe(s)
      [] adapter = "cjk" -> CjkVariants(s)
      [] adapter \in FormNames -> Norm(adapter, s)
ApplyChain(adapters, s) == FoldLeft(LAMBDA acc, a : Apply(a, acc), s, adapters)

----------------------------------------------------------------------------
(* One stage receives one item.                                            *)

FeedD1(st, d) ==
    IF IsStarter(d)
    THEN [st EXCEPT !.q = Append(@ \o StableSort(st.pend), d), !.pend = <<>>]
    ELSE [st EXCEPT !.pend = Append(@, d)]
FeedD(st, c) == FoldLeft(FeedD1, st, Decomp(st.kind = "K", c))

FeedC(st, c) ==
    LET k == Ccc(c)
        x == Compose(st.comp, c)
    IN IF st.comp = NoChar
       THEN IF k # 0 THEN [st EXCEPT !.q = Append(@, c)] ELSE [st EXCEPT !.comp = c]
       ELSE IF st.buf = <<>>                              \* c is adjacent to the starter
       THEN IF x # NoChar THEN [st EXCEPT !.comp = x]
            ELSE IF k = 0 THEN [st EXCEPT !.q = Append(@, st.comp), !.comp = c]
            ELSE [st EXCEPT !.buf = <<c>>, !.last = k]
       ELSE IF st.last >= k                               \* c is blocked from the starter
       THEN IF k = 0
            THEN [st EXCEPT !.q = (Append(@, st.comp)) \o st.buf, !.comp = c, !.buf = <<>>, !.last = 0]
            ELSE [st EXCEPT !.buf = Append(@, c), !.last = k]
       ELSE IF x # NoChar THEN [st EXCEPT !.comp = x]
       ELSE [st EXCEPT !.buf = Append(@, c), !.last = k]

FeedS(st, c) ==
    LET e == Edges(c)
    IN IF st.cnt + e.lead > MaxNS
       THEN [st EXCEPT !.q = @ \o <<CGJ, c>>, !.cnt = NextCount(0, e)]
       ELSE [st EXCEPT !.q = Append(@, c), !.cnt = NextCount(st.cnt, e)]

FeedV(st, c) == [st EXCEPT !.q = @ \o Variant(c)]

Feed(st, c) ==
    CASE st.kind \in {"D", "K"} -> FeedD(st, c)
      [] st.kind = "C" -> FeedC(st, c)
      [] st.kind = "S" -> FeedS(st, c)
      [] st.kind = "V" -> FeedV(st, c)

(* One stage is told that its input has ended: it releases what it holds.  *)
FeedEnd(st) ==
    CASE st.kind \in {"D", "K"} ->
             [st EXCEPT !.q = @ \o StableSort(st.pend), !.pend = <<>>, !.ended = TRUE]
      [] st.kind = "C" ->
             [st EXCEPT !.q = (IF st.comp = NoChar THEN @ ELSE Append(@, st.comp)) \o st.buf,
                        !.comp = NoChar, !.buf = <<>>, !.last = 0, !.ended = TRUE]
      [] OTHER -> [st EXCEPT !.ended = TRUE]

----------------------------------------------------------------------------
(* The pull discipline of a pipeline p asked for an item: the stage        *)
(* nearest to the client that has an item hands it on; if no stage has     *)
(* one, an end is passed on; failing that the source must be read.         *)

HasItem(p)     == {i \in DOMAIN p : p[i].q # <<>>}
LastStage(p)   == Len(p)
CanDeliver(p)  == p[Len(p)].q # <<>>
MovableFrom(p) == {i \in HasItem(p) : i < Len(p)}
(* stage i+1 learns of the end once stage i has ended and is empty *)
EndsAt(p)      == {i \in 1..(Len(p) - 1) : p[i].ended /\ p[i].q = <<>> /\ ~p[i + 1].ended}
IsFinished(p)  == p[Len(p)].ended /\ ~CanDeliver(p)
MustRead(p)    == HasItem(p) = {} /\ ~p[1].ended

Deliver(p) == [p EXCEPT ![Len(p)].q = Tail(@)]
MoveFrom(p, i) == [p EXCEPT ![i].q = Tail(@), ![i + 1] = Feed(@, Head(p[i].q))]

(* One internal step (only when the client is waiting, nothing is          *)
(* deliverable and the pipeline has not finished).                         *)
CanStepInside(p) == ~CanDeliver(p) /\ (MovableFrom(p) # {} \/ EndsAt(p) # {})
StepInside(p) ==
    IF MovableFrom(p) # {} THEN MoveFrom(p, Max(MovableFrom(p)))
    ELSE LET i == Max(EndsAt(p)) IN [p EXCEPT ![i + 1] = FeedEnd(@)]

RECURSIVE Settle(_)
Settle(p) == IF CanStepInside(p) THEN Settle(StepInside(p)) ELSE p

(* A whole next() call as one function: result, new pipeline and new       *)
(* source position.  r = NoChar stands for the end.                        *)
RECURSIVE CallNext(_, _, _)
CallNext(p, src, pos) ==
    LET s == Settle(p)
    IN IF CanDeliver(s) THEN [p |-> Deliver(s), pos |-> pos, r |-> Head(s[Len(s)].q)]
       ELSE IF IsFinished(s) THEN [p |-> s, pos |-> pos, r |-> NoChar]
       ELSE IF pos < Len(src) THEN CallNext([s EXCEPT ![1] = Feed(@, src[pos + 1])], src, pos + 1)
       ELSE CallNext([s EXCEPT ![1] = FeedEnd(@)], src, pos)

(* All items still to come from this state when the source holds src.      *)
RECURSIVE DrainAcc(_, _, _, _)
DrainAcc(p, src, pos, acc) ==
    LET c == CallNext(p, src, pos)
    IN IF c.r = NoChar THEN acc ELSE DrainAcc(c.p, src, c.pos, Append(acc, c.r))
Drain(p, src, pos) == DrainAcc(p, src, pos, <<>>)

(* Characters held in the pipeline, delivered ones excluded. *)
Held(p) == FoldLeft(LAMBDA n, st : n + Len(st.q) + Len(st.pend) + Len(st.buf)
                                     + (IF st.comp = NoChar THEN 0 ELSE 1), 0, p)
=============================================================================

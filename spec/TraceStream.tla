---------------------------- MODULE TraceStream -----------------------------
(***************************************************************************)
(* Validates histories of API calls recorded from the real adapters.  A    *)
(* trace is <<streams, events>>: the initial adapters (chain, text, and    *)
(* what a fresh one yields to plain next() calls) and the calls made, in   *)
(* order:  <<operation, stream, argument, result, reads, ends>>            *)
(* reads and ends: characters taken from, and ends reported by, the        *)
(* stream's source when the call returned (-1: not observed).              *)
(*                                                                         *)
(* Every event must be a step of the specification's machine for its       *)
(* stream, with the logged result.  A history over a stream that is at     *)
(* fault even when simply read from start to end belongs to the            *)
(* properties about that, and is set aside ("excused").                    *)
(***************************************************************************)
EXTENDS Streams

CONSTANT Judge          \* the property whose obligations are judged: "C09" "C10" "C11" "C17"
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* tr: the trace (0: none chosen), at: its next event, live: the streams' states, verdict *)
VARIABLES tr, at, live, verdict
tvars == <<tr, at, live, verdict>>

Heads(t)  == Traces[t][1]
Events(t) == Traces[t][2]
Fresh(h)  == [chain |-> h[1], src |-> h[2], pos |-> 0, p |-> Pipeline(StagesOfChain(h[1])), alive |-> TRUE]
Ordinary(h) == h[3] = ApplyChain(h[1], h[2])

NormalizingChain(ch) == \E i \in DOMAIN ch : ch[i] \in FormNames

----------------------------------------------------------------------------
(* The machine's side of each operation, on one stream's state m.          *)

Step(m) == LET c == CallNext(m.p, m.src, m.pos) IN [m |-> [m EXCEPT !.p = c.p, !.pos = c.pos], r |-> c.r]
Rest(m) == Drain(m.p, m.src, m.pos)
Hit(r)  == IF r = NoChar THEN <<>> ELSE <<r>>

(* k items, stopping at the end *)
RECURSIVE TakeAcc(_, _, _)
TakeAcc(m, k, acc) ==
    IF k = 0 THEN [m |-> m, r |-> acc]
    ELSE LET x == Step(m) IN IF x.r = NoChar THEN [m |-> x.m, r |-> acc] ELSE TakeAcc(x.m, k - 1, Append(acc, x.r))
RECURSIVE Nth(_, _)
Nth(m, k) == LET x == Step(m) IN IF k = 0 \/ x.r = NoChar THEN x ELSE Nth(x.m, k - 1)
RECURSIVE Find(_, _)
Find(m, c) == LET x == Step(m) IN IF x.r = NoChar \/ x.r = c THEN x ELSE Find(x.m, c)
RECURSIVE ToEnd(_)
ToEnd(m) == LET x == Step(m) IN IF x.r = NoChar THEN x.m ELSE ToEnd(x.m)

EveryNth(q, k) == [i \in 1..((Len(q) + k - 1) \div k) |-> q[(i - 1) * k + 1]]

(* the expected result and next state of operation op *)
Do(op, m, a) ==
    CASE op = "next" -> LET x == Step(m) IN [m |-> x.m, r |-> Hit(x.r)]
      [] op = "nth"  -> LET x == Nth(m, a) IN [m |-> x.m, r |-> Hit(x.r)]
      [] op = "take" -> TakeAcc(m, a, <<>>)
      [] op = "find" -> LET x == Find(m, a) IN [m |-> x.m, r |-> Hit(x.r)]
      [] op = "show" -> [m |-> m, r |-> Rest(m)]
      [] op = "clone" -> [m |-> m, r |-> <<>>]
      [] op = "make" -> [m |-> m, r |-> <<>>]
      [] op = "rest" -> [m |-> ToEnd(m), r |-> Rest(m)]
      [] op = "count" -> [m |-> ToEnd(m), r |-> <<Len(Rest(m))>>]
      [] op = "last" -> LET q == Rest(m) IN [m |-> ToEnd(m), r |-> IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>]
      [] op = "step" -> [m |-> ToEnd(m), r |-> EveryNth(Rest(m), a)]
      [] op = "skip" -> LET q == Rest(m) IN [m |-> ToEnd(m), r |-> IF a >= Len(q) THEN <<>> ELSE SubSeq(q, a + 1, Len(q))]

Consumes(op) == op \in {"rest", "count", "last", "step", "skip"}

----------------------------------------------------------------------------
(* Obligations                                                             *)

HintOk(m, r) == LET n == Len(Rest(m)) IN r[1] <= n /\ (r[2] = -1 \/ n <= r[2])

(* C09: never further than the machine has read; the end not polled before it must be *)
ReadsOk(m, e) ==
    /\ e[5] # -1 => e[5] <= m.pos
    /\ e[6] > 0 => m.p[1].ended
(* C10: a normalizing adapter polls an ended source no more *)
PollsOk(m, e) == NormalizingChain(m.chain) => e[6] <= 1

Judged(e, x) ==         \* e: the event, x: what the machine does
    CASE Judge = "C09" -> IF e[1] # "hint" /\ e[4] # x.r THEN "excused"
                          ELSE IF Consumes(e[1]) \/ ReadsOk(x.m, e) THEN "ok" ELSE "violated"
      [] Judge = "C10" -> IF e[1] = "hint" THEN (IF HintOk(x.m, e[4]) THEN "ok" ELSE "violated")
                          ELSE IF e[4] = x.r /\ PollsOk(x.m, e) THEN "ok" ELSE "violated"
      [] OTHER         -> IF e[1] = "hint" \/ e[4] = x.r THEN "ok" ELSE "violated"

----------------------------------------------------------------------------

Init == tr = 0 /\ at = 0 /\ live = <<>> /\ verdict = "ok"

(* in two steps, so that workers share the traces: a block of 20, then one of them *)
Split ==
    /\ tr = 0 /\ \E k \in 0..((Len(Traces) - 1) \div 20) : tr' = -1 - k
    /\ UNCHANGED <<at, live, verdict>>
Choose ==
    /\ tr < 0
    /\ \E t \in ((-1 - tr) * 20 + 1)..Min({(-tr) * 20, Len(Traces)}) :
        /\ tr' = t /\ at' = 1
        /\ live' = [i \in DOMAIN Heads(t) |-> Fresh(Heads(t)[i])]
        /\ verdict' = IF \A i \in DOMAIN Heads(t) : Ordinary(Heads(t)[i]) THEN "ok" ELSE "excused"

CallEvent ==
    /\ tr > 0 /\ verdict = "ok" /\ at <= Len(Events(tr))
    /\ LET e == Events(tr)[at]
           i == e[2]
           m == live[i]
           x == IF e[1] \in {"hint", "drop"} THEN [m |-> m, r |-> <<>>] ELSE Do(e[1], m, e[3])
       IN /\ m.alive
          /\ live' = LET l == [live EXCEPT ![i] = [x.m EXCEPT !.alive = ~(Consumes(e[1]) \/ e[1] = "drop")]]
                     IN IF e[1] = "clone" THEN Append(l, m) ELSE l
          /\ verdict' = Judged(e, x)
    /\ at' = at + 1 /\ tr' = tr

Next == Split \/ Choose \/ CallEvent

(* the state needs no history: identify states by position *)
View == <<tr, at, verdict>>

Valid == verdict # "violated"
(* every trace must be followed to its last event: a state that is not at the end has a successor *)
Follows == (tr > 0 /\ verdict = "ok" /\ at <= Len(Events(tr))) => live[Events(tr)[at][2]].alive
=============================================================================

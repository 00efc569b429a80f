----------------------------- MODULE NormStream -----------------------------
(***************************************************************************)
(* A client draining a chain of adapters over a source, one action per     *)
(* observable or internal step.  Input and chain are chosen initially.     *)
(***************************************************************************)
EXTENDS Streams

CONSTANTS Alpha,        \* characters the input is made of
          MaxLen,       \* longest input
          Chains        \* the adapter chains explored

VARIABLES chain, inp,   \* fixed by Init
          pos,          \* source characters read so far
          p,            \* the pipeline
          out,          \* items delivered to the client
          phase,        \* "idle" | "waiting" | "done"
          held          \* non-starters read from the source since the last delivery
vars == <<chain, inp, pos, p, out, phase, held>>

Want == ApplyChain(chain, inp)

Init ==
    /\ chain \in Chains
    /\ inp \in UNION {[1..n -> Alpha] : n \in 0..MaxLen}
    /\ pos = 0 /\ p = Pipeline(StagesOfChain(chain)) /\ out = <<>> /\ phase = "idle" /\ held = 0

Call ==
    /\ phase = "idle" /\ phase' = "waiting"
    /\ UNCHANGED <<chain, inp, pos, p, out, held>>

Inside ==
    /\ phase = "waiting" /\ CanStepInside(p)
    /\ p' = StepInside(p)
    /\ UNCHANGED <<chain, inp, pos, out, phase, held>>

Read ==
    /\ phase = "waiting" /\ MustRead(p) /\ pos < Len(inp)
    /\ p' = [p EXCEPT ![1] = Feed(@, inp[pos + 1])]
    /\ pos' = pos + 1
    /\ held' = held + (IF IsStarter(inp[pos + 1]) THEN 0 ELSE 1)
    /\ UNCHANGED <<chain, inp, out, phase>>

ReadEnd ==
    /\ phase = "waiting" /\ MustRead(p) /\ pos = Len(inp)
    /\ p' = [p EXCEPT ![1] = FeedEnd(@)]
    /\ UNCHANGED <<chain, inp, pos, out, phase, held>>

Return ==
    /\ phase = "waiting" /\ CanDeliver(p)
    /\ out' = Append(out, Head(p[Len(p)].q))
    /\ p' = Deliver(p) /\ phase' = "idle" /\ held' = 0
    /\ UNCHANGED <<chain, inp, pos>>

ReturnEnd ==
    /\ phase = "waiting" /\ IsFinished(p)
    /\ phase' = "done"
    /\ UNCHANGED <<chain, inp, pos, p, out, held>>

Next == Call \/ Inside \/ Read \/ ReadEnd \/ Return \/ ReturnEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* What has been settled by the source characters read so far, declared    *)
(* without reference to the machine (property C09).                        *)

SettledD(compat, s) ==
    LET d == DecompText(compat, s) IN Ordered(SubSeq(d, 1, SelectLastInSeq(d, IsStarter)))
SettledC(d) ==              \* d: a decomposed, ordered prefix
    LET r == Composed(d) IN IF r.l = 0 THEN r.out ELSE SubSeq(r.out, 1, r.l - 1)
SettledBy(a, s) ==
    CASE a = "nfd"  -> SettledD(FALSE, s)
      [] a = "nfkd" -> SettledD(TRUE, s)
      [] a = "nfc"  -> SettledC(SettledD(FALSE, s))
      [] a = "nfkc" -> SettledC(SettledD(TRUE, s))
      [] OTHER      -> Apply(a, s)
Settled(s) == FoldLeft(LAMBDA acc, a : SettledBy(a, acc), s, chain)
Consumed == SubSeq(inp, 1, pos)

----------------------------------------------------------------------------
(* Properties                                                              *)

(* C01 C02 C06 C16 C03 C08: exactly the declared text is delivered *)
Exact     == IsPrefix(out, Want) /\ (phase = "done" => out = Want)
(* C11 C17: the state determines the rest - whatever is cloned or printed here is the rest *)
Continues == out \o Drain(p, inp, pos) = Want
(* C09 *)
Lazy      == (phase = "waiting" /\ MustRead(p)) => out = Settled(Consumed)
SettledIsFinal == IsPrefix(Settled(Consumed), Want)
Bounded   == IsStreamSafe(inp) =>
                 /\ held <= MaxNS + 1
                 /\ \A i \in DOMAIN p : Len(p[i].pend) <= MaxNS /\ Len(p[i].buf) <= MaxNS
(* C10: a lower bound of one item per unread character is sound for decomposing, replacing and
   stream-safe adapters *)
HintSound == (Len(chain) = 1 /\ chain[1] \notin {"nfc", "nfkc"}) =>
                 Len(inp) - pos <= Len(Drain(p, inp, pos))
(* C10: the end is final: nothing is held back, nothing more is read *)
EndFinal  == phase = "done" => (CallNext(p, inp, pos).r = NoChar /\ Held(p) = 0 /\ pos = Len(inp))
(* C21 *)
Expansion ==
    LET n == Len(inp) IN
    /\ Len(chain) = 1 =>
         LET w == Len(Want) IN
         /\ chain[1] \in {"nfd", "nfc"}   => w <= 4 * n
         /\ chain[1] \in {"nfkd", "nfkc"} => w <= 18 * n
         /\ chain[1] \in {"ss", "cjk"}    => w >= n /\ w <= 2 * n
         /\ (n > 0) <=> (w > 0)
(* C10 C21: every drain terminates *)
Terminates == <>(phase = "done")
(* no item is delivered twice or taken back *)
Grows == [][IsPrefix(out, out') /\ pos' >= pos]_vars
=============================================================================

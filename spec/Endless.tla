------------------------------ MODULE Endless -------------------------------
(***************************************************************************)
(* A client pulling a chain of adapters over a source that never ends: a   *)
(* first part, then one text over and over.  There is no end that could    *)
(* flush what a stage holds back, so every item has to come out because of *)
(* what follows it, and what is held must stay bounded.                    *)
(***************************************************************************)
EXTENDS Streams, Alphabets, Records

CONSTANTS Alpha, MaxPer,  \* the repeated text: 1 to MaxPer pieces of Alpha
          Leads,          \* first parts
          Chains,         \* sequence of chains
          Calls           \* calls recorded

VARIABLES ch, lead, per,  \* fixed
          at,             \* source characters read, folded into lead and one repetition
          pl, phase, gap  \* pipeline, "idle" | "waiting", characters read by this call
evars == <<ch, lead, per, at, pl, phase, gap>>

(* With the stream-safe process first there is always a next item.  Otherwise the repeated text must
   contain something that decomposes to a starter: endless non-starters are endlessly reordered. *)
Compat(k)    == \E i \in DOMAIN k : k[i] \in {"nfkd", "nfkc"}
Productive(k, pr) ==
    \/ k[1] = "ss"
    \/ \A i \in DOMAIN k : k[i] = "cjk"
    \/ \E i \in DOMAIN pr : \E j \in DOMAIN Decomp(Compat(k), pr[i]) : IsStarter(Decomp(Compat(k), pr[i])[j])

EndlessAt(ld, pr, i) == IF i <= Len(ld) THEN ld[i] ELSE pr[((i - Len(ld) - 1) % Len(pr)) + 1]
EndlessText(ld, pr, n) == [i \in 1..n |-> EndlessAt(ld, pr, i)]

Pers == {FlattenSeq(x) : x \in UNION {[1..n -> Alpha] : n \in 1..MaxPer}}

Init ==
    /\ ch \in DOMAIN Chains /\ lead \in Leads /\ per \in Pers
    /\ Productive(Chains[ch], per)
    /\ at = 0 /\ pl = Pipeline(StagesOfChain(Chains[ch])) /\ phase = "idle" /\ gap = 0

Call == phase = "idle" /\ phase' = "waiting" /\ gap' = 0 /\ UNCHANGED <<ch, lead, per, at, pl>>
Inside == phase = "waiting" /\ CanStepInside(pl) /\ pl' = StepInside(pl) /\ UNCHANGED <<ch, lead, per, at, phase, gap>>
Read ==
    /\ phase = "waiting" /\ MustRead(pl)
    /\ pl' = [pl EXCEPT ![1] = Feed(@, EndlessAt(lead, per, at + 1))]
    /\ at' = IF at + 1 = Len(lead) + Len(per) THEN Len(lead) ELSE at + 1
    /\ gap' = gap + 1
    /\ UNCHANGED <<ch, lead, per, phase>>
Return == phase = "waiting" /\ CanDeliver(pl) /\ pl' = Deliver(pl) /\ phase' = "idle" /\ UNCHANGED <<ch, lead, per, at, gap>>
Next == Call \/ Inside \/ Read \/ Return
Spec == Init /\ [][Next]_evars /\ WF_evars(Next)

(* every call returns, for ever *)
Alive == []<>(phase = "idle")
(* the longest run of non-starters a decomposition of the input contains *)
RunOf(ld, pr, k) ==
    LET t == DecompText(k, ld \o pr \o pr)
        f == FoldLeft(LAMBDA a, c : IF IsStarter(c) THEN [n |-> 0, m |-> a.m] ELSE [n |-> a.n + 1, m |-> Max({a.m, a.n + 1})], [n |-> 0, m |-> 0], t)
    IN f.m
(* what is held never exceeds a bound that does not depend on how much has been read: with the
   stream-safe process first it does not even depend on the text *)
Widest == 18               \* longest decomposition of one character
Limit ==
    LET run == IF Chains[ch][1] = "ss" THEN MaxNS + 2 ELSE RunOf(lead, per, Compat(Chains[ch]))
    IN run + 2 + Widest
HeldIsBounded == Held(pl) <= Limit
(* and no call reads more than a run, and what composes (three jamo, three starters), for each stage *)
Responsive == gap <= Len(pl) * (4 + IF Chains[ch][1] = "ss" THEN MaxNS ELSE RunOf(lead, per, Compat(Chains[ch])))

----------------------------------------------------------------------------
(* What the first calls return, and how far the source has been read.      *)

RECURSIVE EndlessFrom(_, _, _, _, _)
EndlessFrom(k, t, q, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET r == CallNext(q, t, k) IN EndlessFrom(r.pos, t, r.p, n - 1, Append(acc, <<r.r, r.pos>>))
EndlessProfile(k, ld, pr) == EndlessFrom(0, EndlessText(ld, pr, Len(ld) + 4 * Calls + 150), Pipeline(StagesOfChain(k)), Calls, <<>>)
Going(pr) == {i \in DOMAIN Chains : Productive(Chains[i], pr)}

(* the recording run: no steps, one state for each text *)
RecInit == ch = 0 /\ lead \in Leads /\ per = <<>> /\ at = 0 /\ pl = <<>> /\ phase = "text" /\ gap = 0
RecNext == phase = "text" /\ gap < MaxPer /\ gap' = gap + 1 /\ (\E x \in Alpha : per' = per \o x) /\ UNCHANGED <<ch, lead, at, pl, phase>>
EndlessEmitted ==
    per # <<>> =>
        LET g == SetToSortSeq(Going(per), <)
        IN WriteLine(lead \o <<0>> \o per,
                     ToJson(<<lead, per, Max({RunOf(lead, per, TRUE), RunOf(lead, per, FALSE)}), [i \in DOMAIN g |-> <<Chains[g[i]], EndlessProfile(Chains[g[i]], lead, per)>>]>>),
                     IOEnv.RECORD_FILE)
(* the recorded calls never saw an end, and deliver a prefix of what the chain makes of any longer text *)
EndlessRight ==
    per # <<>> =>
        \A i \in Going(per) :
            LET q == EndlessProfile(Chains[i], lead, per)
                n == q[Len(q)][2]
                w == ApplyChain(Chains[i], EndlessText(lead, per, n + 2 * Len(per)))
            IN /\ n < Len(lead) + 4 * Calls + 150
               /\ Len(w) >= Len(q) /\ \A j \in DOMAIN q : q[j][1] = w[j]

ChainList == <<<<"nfd">>, <<"nfkd">>, <<"nfc">>, <<"nfkc">>, <<"ss">>, <<"cjk">>,
               <<"ss", "nfc">>, <<"ss", "nfd">>, <<"nfc", "ss">>, <<"nfd", "ss">>, <<"cjk", "nfc">>,
               <<"nfc", "nfd">>, <<"nfd", "nfc">>, <<"nfkc", "nfc">>, <<"ss", "nfkc">>, <<"ss", "nfkd">>,
               <<"cjk", "ss">>, <<"ss", "ss">>, <<"ss", "cjk">>>>
LeadSet == {<<>>, <<97>>, <<769, 803>>}
=============================================================================

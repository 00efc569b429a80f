------------------------------ MODULE Profiles ------------------------------
(***************************************************************************)
(* For every adapter chain and text: what each next() call returns and how *)
(* far the source has been read when it returns, up to and including the   *)
(* first end.  <<result or -1, characters read, 1 if the source's end has  *)
(* been seen>>                                                             *)
(***************************************************************************)
EXTENDS Streams, Alphabets, Records

CONSTANTS Alpha, MaxLen, Chains

RECURSIVE ProfileFrom(_, _, _, _)
ProfileFrom(p, src, pos, acc) ==
    LET c == CallNext(p, src, pos)
        e == <<c.r, c.pos, IF c.p[1].ended THEN 1 ELSE 0>>
    IN IF c.r = NoChar THEN Append(acc, e) ELSE ProfileFrom(c.p, src, c.pos, Append(acc, e))
Profile(ch, src) == ProfileFrom(Pipeline(StagesOfChain(ch)), src, 0, <<>>)

Texts == IF "TEXT_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.TEXT_FILE) ELSE <<>>

Chunk == 25
VARIABLES txt, size
Init == txt = <<>> /\ size = 0
Grow == size >= 0 /\ size < MaxLen /\ size' = size + 1 /\ \E x \in Alpha : txt' = txt \o x
Split == txt = <<>> /\ size = 0 /\ size' = -2 /\ \E k \in 0..((Len(Texts) - 1) \div Chunk) : txt' = <<k>>
Load == size = -2 /\ size' = -1 /\ \E i \in (txt[1] * Chunk + 1)..Min({(txt[1] + 1) * Chunk, Len(Texts)}) : txt' = Texts[i]
Next == Grow \/ Split \/ Load

Emitted == size # -2 => WriteLine(txt, ToJson(<<txt, [i \in DOMAIN Chains |-> <<Chains[i], Profile(Chains[i], txt)>>]>>), IOEnv.RECORD_FILE)
(* the profile delivers what the chain must *)
Right == size # -2 =>
        \A i \in DOMAIN Chains :
            LET w == ApplyChain(Chains[i], txt)
                q == Profile(Chains[i], txt)
            IN Len(q) = Len(w) + 1 /\ \A j \in DOMAIN w : q[j][1] = w[j]

ChainList == <<<<"nfd">>, <<"nfkd">>, <<"nfc">>, <<"nfkc">>, <<"ss">>, <<"cjk">>,
               <<"ss", "nfc">>, <<"ss", "nfd">>, <<"nfc", "ss">>, <<"nfd", "ss">>, <<"cjk", "nfc">>, <<"cjk", "nfkd">>,
               <<"nfc", "nfd">>, <<"nfd", "nfc">>, <<"nfkc", "nfc">>, <<"nfkd", "nfkc">>, <<"ss", "nfkc">>,
               <<"nfkd", "ss">>, <<"cjk", "ss">>, <<"nfd", "nfd">>, <<"nfc", "nfc">>, <<"ss", "ss">>>>
=============================================================================

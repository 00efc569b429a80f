----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Several live adapters used in every possible order: next() on any of    *)
(* them, cloning and printing.  The history of each complete behaviour is  *)
(* written out for replay into the real adapters.                          *)
(***************************************************************************)
EXTENDS Streams, Records

CONSTANTS Configs,      \* sequence of sequences of <<chain, text>>
          MaxSnaps,     \* clones and prints per behaviour
          MaxStreams

VARIABLES cfg, live, hist, snaps

Cloneable(ch) == \A i \in DOMAIN ch : ch[i] # "ss"

Init ==
    /\ cfg \in DOMAIN Configs
    /\ live = [i \in DOMAIN Configs[cfg] |->
                 [chain |-> Configs[cfg][i][1], src |-> Configs[cfg][i][2], pos |-> 0,
                  p |-> Pipeline(StagesOfChain(Configs[cfg][i][1])), done |-> FALSE, got |-> <<>>]]
    /\ hist = <<>> /\ snaps = 0

Pull(i) ==
    /\ ~live[i].done
    /\ LET c == CallNext(live[i].p, live[i].src, live[i].pos)
       IN /\ live' = [live EXCEPT ![i].p = c.p, ![i].pos = c.pos, ![i].done = (c.r = NoChar),
                                  ![i].got = IF c.r = NoChar THEN @ ELSE Append(@, c.r)]
          /\ hist' = Append(hist, <<i, c.r>>)
    /\ UNCHANGED <<cfg, snaps>>

CloneOf(i) ==
    /\ snaps < MaxSnaps /\ Len(live) < MaxStreams /\ Cloneable(live[i].chain) /\ ~live[i].done
    /\ live' = Append(live, live[i])
    /\ hist' = Append(hist, <<i, -2>>)
    /\ snaps' = snaps + 1 /\ UNCHANGED cfg

PrintOf(i) ==
    /\ snaps < MaxSnaps /\ Cloneable(live[i].chain) /\ ~live[i].done
    /\ hist' = Append(hist, <<i, -3>>)
    /\ snaps' = snaps + 1 /\ UNCHANGED <<cfg, live>>

Next == \E i \in DOMAIN live : Pull(i) \/ CloneOf(i) \/ PrintOf(i)

Complete == \A i \in DOMAIN live : live[i].done

(* C17: whatever the order, each stream has delivered a prefix of what its text alone determines *)
Independent ==
    \A i \in DOMAIN live :
        LET w == ApplyChain(live[i].chain, live[i].src)
        IN IsPrefix(live[i].got, w) /\ (live[i].done => live[i].got = w)

Head3 == [i \in DOMAIN Configs[cfg] |->
            <<Configs[cfg][i][1], Configs[cfg][i][2], ApplyChain(Configs[cfg][i][1], Configs[cfg][i][2])>>]
Recorded == (Complete /\ "RECORD_FILE" \in DOMAIN IOEnv) =>
                CSVWrite("%1$s", <<ToJson(<<Head3, hist>>)>>, IOEnv.RECORD_FILE)

(* short texts in which every chain holds something back *)
Pairs == <<
  << <<<<"nfc">>, <<97, 803, 769>>>>, <<<<"nfd">>, <<7879, 803>>>> >>,
  << <<<<"nfkc">>, <<64257, 775, 803>>>>, <<<<"cjk">>, <<63744, 97, 194560>>>> >>,
  << <<<<"nfc">>, <<3545, 3530, 3535>>>>, <<<<"nfc">>, <<3545, 3535, 3530>>>> >>,
  << <<<<"nfc">>, <<4352, 4449, 4520>>>>, <<<<"nfd">>, <<44033, 769>>>> >>,
  << <<<<"cjk", "nfc">>, <<63744, 803, 769>>>>, <<<<"nfkd">>, <<8491, 65438>>>> >>,
  << <<<<"ss">>, <<97, 769, 836>>>>, <<<<"ss", "nfc">>, <<97, 803, 769>>>> >> >>
Triples == <<
  << <<<<"nfc">>, <<97, 769>>>>, <<<<"nfc">>, <<803, 97>>>>, <<<<"nfd">>, <<7879>>>> >>,
  << <<<<"cjk">>, <<63744>>>>, <<<<"cjk">>, <<97, 194560>>>>, <<<<"nfkc">>, <<64257>>>> >>,
  << <<<<"ss">>, <<836, 97>>>>, <<<<"nfd">>, <<803, 97>>>>, <<<<"nfc">>, <<4352, 4449>>>> >> >>
(* one adapter each, to be cloned and printed at every point *)
Singles == <<
  << <<<<"nfc">>, <<97, 803, 836>>>> >>, << <<<<"nfd">>, <<7879, 803>>>> >>, << <<<<"nfkc">>, <<64257, 775>>>> >>,
  << <<<<"cjk">>, <<63744, 194560>>>> >>, << <<<<"nfc">>, <<769, 4352, 4449>>>> >>,
  << <<<<"cjk", "nfd">>, <<63744, 803>>>> >>, << <<<<"nfkd", "nfc">>, <<8491, 803>>>> >> >>
=============================================================================

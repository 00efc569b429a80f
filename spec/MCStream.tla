------------------------------ MODULE MCStream ------------------------------
(* Finite instances of NormStream: characters and chains to explore. *)
EXTENDS NormStream

(* a, marks of two classes, one that decomposes into two, precomposed, syllable, ligature *)
AlD == {97, 769, 803, 836, 7879, 44033, 64257}
(* composition: pairs, cascades, Hangul jamo, starters that combine, a virama that blocks or not *)
AlC == {97, 769, 803, 7879, 4352, 4449, 4520, 3545, 3535, 3530}
(* stream-safe counting: one, two leading non-starters, a compatibility non-starter, the joiner, trailing marks *)
AlS == {97, 769, 836, 65438, 847, 7879}
(* ideographs with variants, of both planes *)
AlV == {97, 769, 63744, 194560, 44033}
AlMix == {97, 769, 803, 836, 7879, 63744, 4449}

ChD == {<<"nfd">>, <<"nfkd">>}
ChC == {<<"nfc">>, <<"nfkc">>}
ChS == {<<"ss">>, <<"ss", "ss">>}
ChV == {<<"cjk">>, <<"cjk", "nfc">>, <<"cjk", "nfkd">>, <<"cjk", "ss">>}
ChF == {<<f, g>> : f, g \in FormNames}
ChSafe == {<<"ss", f>> : f \in FormNames} \cup {<<f, "ss">> : f \in FormNames}
ChAll == ChD \cup ChC \cup ChS \cup {<<"cjk">>, <<"ss", "nfc">>, <<"nfc", "ss">>, <<"cjk", "nfkc">>, <<"nfc", "nfd">>}
ChOne == {<<"nfd">>, <<"nfkd">>, <<"nfc">>, <<"nfkc">>, <<"ss">>, <<"cjk">>}
=============================================================================

----------------------------- MODULE Alphabets ------------------------------
(***************************************************************************)
(* The pieces explored texts are made of: each alphabet covers one family  *)
(* of behaviour with the smallest set of real characters that exhibits it. *)
(* A piece is a text, usually of one character.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ones(S) == {<<c>> : c \in S}
Rep(c, n) == [i \in 1..n |-> c]

(* a, marks of classes 230 230 220 202 240, a non-starter that decomposes to two, precomposed letters *)
Latin   == Ones({97, 769, 770, 803, 808, 837, 836, 7879})
(* the same classes around composites that are excluded, singletons, compatibility characters *)
Latin2  == Ones({97, 775, 803, 7785, 8491, 64257, 383, 847})
(* conjoining jamo at the edges of their ranges, LV and LVT syllables, a mark *)
Hangul  == Ones({4352, 4449, 4519, 4520, 44032, 44033, 4470, 769})
Hangul2 == Ones({4370, 4371, 4469, 4546, 4547, 55203, 55204, 55176})
(* starters that combine with a preceding starter, cascades, a virama of class 9 between them *)
Indic   == Ones({3545, 3535, 3530, 3551, 3550, 3547, 2503, 2494})
Indic2  == Ones({6965, 6917, 4133, 4142, 2887, 2878, 2902, 3018})
(* supplementary planes: kaithi, chakma, kirat rai (cascading starters), todhri, an excluded musical symbol *)
Astral  == Ones({69785, 69818, 93539, 93543, 93544, 93545, 119135, 119141})
Astral2 == Ones({67026, 775, 69937, 69927, 70471, 70462, 70487, 119128})
(* kana with voicing marks, halfwidth forms whose compatibility decomposition is a non-starter *)
Kana    == Ones({12363, 12441, 12442, 65398, 65438, 65439, 12364, 12443})
(* polytonic Greek: long cascades, iota subscript of class 240 *)
Greek   == Ones({945, 787, 768, 834, 837, 8119, 7936, 953})
(* Tibetan and Hebrew: many low classes, decompositions starting with or consisting of non-starters *)
Tibetan == Ones({3953, 3954, 3968, 3956, 3955, 3959, 4018, 3969})
Hebrew  == Ones({1513, 1473, 1468, 64298, 64301, 1456, 1463, 1614})
(* ideographs with standardized variants next to selectors and Hangul *)
Cjk     == Ones({63744, 194560, 35912, 65024, 44033, 63767, 769, 20029})
(* long runs: blocks near the limit, characters with several leading or trailing non-starters, the joiner *)
Runs    == {<<97>>, <<768>>, Rep(768, 14), Rep(769, 15), Rep(803, 29), <<836>>, <<65438>>, <<847>>, <<7873>>}
Runs2   == {<<97>>, Rep(836, 14), Rep(768, 30), <<3959>>, <<64361>>, <<12441>>, <<847>>, <<44033>>, Rep(3955, 7), <<7801>>}
Runs3   == {<<8125, 769>>, Rep(65438, 15), <<4018>>, Rep(3969, 15), <<3960>>, <<8173>>, <<917, 769>>, Rep(1611, 16)}
(* one or two of each family together *)
Mixed   == Ones({97, 769, 803, 836, 7879, 4352, 4449, 3545, 3535, 3530, 65438, 63744, 64257, 837})
(* short limit: the theorems are checked with MaxNS = 4 over these *)
Short   == Ones({97, 769, 803, 836, 7879, 12441, 65438, 63744, 847})
=============================================================================

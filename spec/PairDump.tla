------------------------------ MODULE PairDump ------------------------------
(***************************************************************************)
(* Judges the pairs that compose(): DUMP_FILE lists all <<a, b, c>> with   *)
(* compose(a, b) = c among the pairs tried, which include every pair of    *)
(* the primary composites and of the Hangul rules.                         *)
(***************************************************************************)
EXTENDS UCD

Pairs == JsonDeserialize(IOEnv.DUMP_FILE)

VARIABLE at
Init == at = 0
Next == at = 0 /\ at' \in 1..((Len(Pairs) \div 500) + 1)

Rows == {i \in ((at - 1) * 500 + 1)..(at * 500) : i <= Len(Pairs)}
Sound == at > 0 => \A i \in Rows : Compose(Pairs[i][1], Pairs[i][2]) = Pairs[i][3]

(* as many as there are: the table's pairs, LV syllables, LVT syllables *)
Complete == Len(Pairs) = Cardinality(PrimaryKeys) + SCount
NoRepeats == \A i \in 1..(Len(Pairs) - 1) : Pairs[i] # Pairs[i + 1]

(* C14: every primary composite's decomposition composes back to it *)
TableInverse == \A c \in PrimaryKeys : Compose(CanonMap[c][1], CanonMap[c][2]) = c
HangulInverse == \A c \in {SBase, SBase + 1, SBase + 27, SBase + 28, SBase + 588, SBase + SCount - 1} :
    LET full == SyllableDecomp(c) IN
    IF Len(full) = 2 THEN Compose(full[1], full[2]) = c
    ELSE Compose(Compose(full[1], full[2]), full[3]) = c
=============================================================================

------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* The specification's record of every text of a given list, and of every  *)
(* text reachable from those by normalizing and making stream-safe.        *)
(***************************************************************************)
EXTENDS Records

CONSTANTS Depth,                        \* how many transformations are followed
          Chunk                         \* texts loaded by one step (so that workers share the list)
Texts == JsonDeserialize(IOEnv.TEXT_FILE)

(* (variable names must not be parameter names anywhere: see Explore) *)
VARIABLES txt, level
Init == txt = <<>> /\ level = -1
Split == level = -1 /\ level' = -2 /\ \E k \in 0..((Len(Texts) - 1) \div Chunk) : txt' = <<k>>
Load ==
    /\ level = -2 /\ level' = 0
    /\ \E i \in (txt[1] * Chunk + 1)..Min({(txt[1] + 1) * Chunk, Len(Texts)}) : txt' = Texts[i]
Transform ==
    /\ level >= 0 /\ level < Depth /\ level' = level + 1
    /\ txt' \in {NFD(txt), NFC(txt), NFKD(txt), NFKC(txt), StreamSafe(txt), CjkVariants(txt)} \ {txt}
Next == Split \/ Load \/ Transform
View == <<level = -2, txt>>

Recorded == level # -2 => EmitRecord(txt, IOEnv.RECORD_FILE)
=============================================================================

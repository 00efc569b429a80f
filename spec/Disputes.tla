------------------------------ MODULE Disputes ------------------------------
(***************************************************************************)
(* Judges results of the implementation that are not the specified ones    *)
(* but need not break the property in question: <<kind, form, input,       *)
(* other texts, result>>.                                                  *)
(***************************************************************************)
EXTENDS Giants

Put == ndJsonDeserialize(IOEnv.DISPUTE_FILE)

DInit == size = 0 /\ blk = <<>>
DNext == size = 0 /\ blk' = blk /\ size' \in DOMAIN Put

Selectors == 65024..65039
VariantPairs(t) ==
    LET at == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : k > 1 /\ t[k] \in Selectors)
    IN [k \in DOMAIN at |-> <<t[at[k] - 1], t[at[k]]>>]

Holds(e) ==
    CASE e[1] = "safe" -> LongestRunBlocks(e[5]) <= MaxNS            \* C08: (a block text) still stream-safe
      [] e[1] = "norm" -> IsNormalized(e[2], e[5])                   \* C08: still in the form
      [] e[1] = "keep" ->                                            \* C16: others: the text with variants, its input's form
            LET v == e[4][1] IN
            (DropInserted(e[3]) = e[3]) =>
                /\ VariantPairs(e[5]) = VariantPairs(v)
                /\ DropInserted(e[5]) = e[4][2]
Upheld == size > 0 => Holds(Put[size])
=============================================================================

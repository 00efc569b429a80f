------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* All texts made of the pieces in Alpha, up to MaxLen pieces, grown one   *)
(* piece at a time.  TLC checks the theorems in every state and (when      *)
(* RECORD_FILE is set) writes the record of every text for replay.         *)
(***************************************************************************)
EXTENDS Records, Alphabets

CONSTANTS Alpha, MaxLen
(* none is called s: TLC stops caching a constant table when an operator it uses has a parameter that
   shares a variable's name *)
VARIABLES txt, size

Init == txt = <<>> /\ size = 0
Next == size < MaxLen /\ size' = size + 1 /\ \E x \in Alpha : txt' = txt \o x

Recording == "RECORD_FILE" \in DOMAIN IOEnv /\ IOEnv.RECORD_FILE # ""
Recorded == Recording => EmitRecord(txt, IOEnv.RECORD_FILE)

ThOrdering == OrderingIsFixpoint(txt)
ThForms    == FormsAbsorb(txt)
ThQuick    == QuickSound(txt) /\ MaybeNeedsCause(txt)
ThProcess  == SafeProcess(txt)
ThSafeQc   == SafeQuickSound(txt)
ThSafeKeep == SafePreserved(txt)
ThCjk      == CjkStable(txt)
ThLocal    == Local(txt)
ThSafeLocal == SafeLocal(txt)
ThBounds   == Bounds(txt)
=============================================================================

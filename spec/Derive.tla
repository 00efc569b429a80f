------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* What DerivedNormalizationProps.txt says about a character database,     *)
(* computed from its definitions (UAX #44, UAX #15): used to write the     *)
(* character data files of databases the table generator is run on.        *)
(***************************************************************************)
EXTENDS Norm

Syllables == SBase..(SBase + SCount - 1)
Jamo      == (LBase..(LBase + LCount - 1)) \cup (VBase..(VBase + VCount - 1)) \cup (TBase..(TBase + TCount - 1))
Candidates == ActiveKeys \cup Syllables \cup Jamo

Those(P(_)) == SetToSortSeq({c \in Candidates : P(c)}, LAMBDA a, b : a < b)
Derived == [
    fce    |-> SetToSortSeq({c \in CanonKeys : FullyExcluded(c)}, LAMBDA a, b : a < b),
    nfd_n  |-> Those(LAMBDA c : QcNFD(c) = "N"),
    nfkd_n |-> Those(LAMBDA c : QcNFKD(c) = "N"),
    nfc_n  |-> Those(LAMBDA c : QcNFC(c) = "N"),
    nfc_m  |-> Those(LAMBDA c : QcNFC(c) = "M"),
    nfkc_n |-> Those(LAMBDA c : QcNFKC(c) = "N"),
    nfkc_m |-> Those(LAMBDA c : QcNFKC(c) = "M")]

VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
Written == JsonSerialize(IOEnv.OUT_FILE, Derived)

(* what makes a database one the standard's algorithms are sound for *)
WellFormed == dummy = 0 =>
    /\ \A c \in CanonKeys : Len(CanonMap[c]) \in {1, 2} /\ ~IsSyllable(c) /\ c > 127
    /\ \A c \in CompatKeys : c \notin CanonKeys /\ ~IsSyllable(c) /\ c > 127
    /\ \A c \in PrimaryKeys : CanonMap[c][2] \notin CanonKeys
    (* no two primary composites of one pair, none of whose first character cannot be composed *)
    /\ Cardinality(PrimaryKeys) = Cardinality({CanonMap[c] : c \in PrimaryKeys})
    /\ \A c \in PrimaryKeys : CanonMap[c][1] \in CanonKeys => CanonMap[c][1] \in PrimaryKeys
    (* a primary composite is its own composed form *)
    /\ \A c \in PrimaryKeys : NFC(<<c>>) = <<c>>
    /\ \A c \in VariantKeys : c \in CanonKeys /\ Len(CanonMap[c]) = 1
    /\ \A c \in CccKeys : CccMap[c] \in 1..254
    (* a non-starter decomposes to non-starters *)
    /\ \A c \in CccKeys : LET t == Decomp(TRUE, c) IN \A k \in 1..Len(t) : ~IsStarter(t[k])
=============================================================================

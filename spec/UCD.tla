-------------------------------- MODULE UCD --------------------------------
(***************************************************************************)
(* The Unicode character database as far as normalization needs it, and    *)
(* every property UAX #15 derives from it.  A code point is an integer; a  *)
(* text is a sequence of code points.                                      *)
(*                                                                         *)
(* The raw data (single-step mappings, combining classes, script-specific  *)
(* composition exclusions, ...) is read from the JSON file named by the    *)
(* environment variable UCD_FILE; spec/data/ucd16.json is Unicode 16.0.    *)
(* Nothing here is taken from the implementation's tables: they store      *)
(* fully decomposed text, quick-check classes and non-starter counts,      *)
(* which are derived below from their definitions.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Raw == JsonDeserialize(IOEnv.UCD_FILE)

NoChar == -1
MaxScalar == 1114111                            \* 10FFFF
IsScalar(c) == c \in 0..MaxScalar /\ ~(c \in 55296..57343)

----------------------------------------------------------------------------
(* A table is a sequence of rows <<code point, ...>> sorted by code point. *)

RECURSIVE BinSearch(_, _, _, _)
BinSearch(rows, c, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi) \div 2
         IN IF rows[mid][1] < c THEN BinSearch(rows, c, mid + 1, hi) ELSE BinSearch(rows, c, lo, mid)

RowKeys(rows) == {rows[i][1] : i \in DOMAIN rows}
RowOf(rows, c) == rows[BinSearch(rows, c, 1, Len(rows))]

RawCanon    == Raw.canon
RawCompat   == Raw.compat
RawCcc      == Raw.ccc
RawVariants == Raw.variants

CanonKeys   == TLCEval(RowKeys(RawCanon))
CompatKeys  == TLCEval(RowKeys(RawCompat))
CccKeys     == TLCEval(RowKeys(RawCcc))
VariantKeys == TLCEval(RowKeys(RawVariants))

CanonMap   == TLCEval([c \in CanonKeys   |-> Tail(RowOf(RawCanon, c))])
CompatMap  == TLCEval([c \in CompatKeys  |-> Tail(RowOf(RawCompat, c))])
CccMap     == TLCEval([c \in CccKeys     |-> RowOf(RawCcc, c)[2]])
VariantMap == TLCEval([c \in VariantKeys |-> Tail(RowOf(RawVariants, c))])

ScriptExclusions == TLCEval({Raw.excl[i] : i \in DOMAIN Raw.excl})

Ccc(c)       == IF c \in CccKeys THEN CccMap[c] ELSE 0
IsStarter(c) == ~(c \in CccKeys)

----------------------------------------------------------------------------
(* Conjoining jamo behaviour, The Unicode Standard section 3.12.           *)

SBase == 44032   LBase == 4352   VBase == 4449   TBase == 4519
LCount == 19     VCount == 21    TCount == 28
NCount == VCount * TCount
SCount == LCount * NCount

IsSyllable(c)   == c >= SBase /\ c < SBase + SCount
IsL(c)          == c >= LBase /\ c < LBase + LCount
IsV(c)          == c >= VBase /\ c < VBase + VCount
IsT(c)          == c > TBase /\ c < TBase + TCount       \* TBase itself is not a trailing consonant
IsLV(c)         == IsSyllable(c) /\ (c - SBase) % TCount = 0

SyllableDecomp(s) ==
    LET i == s - SBase
        l == LBase + (i \div NCount)
        v == VBase + ((i % NCount) \div TCount)
        t == TBase + (i % TCount)
    IN IF t = TBase THEN <<l, v>> ELSE <<l, v, t>>

SyllableComp(a, b) ==
    IF IsL(a) /\ IsV(b) THEN SBase + ((a - LBase) * VCount + (b - VBase)) * TCount
    ELSE IF IsLV(a) /\ IsT(b) THEN a + (b - TBase)
    ELSE NoChar

----------------------------------------------------------------------------
(* Full decompositions (D68, D67): apply mappings until none applies.      *)

RECURSIVE FullCanon(_), FullCompat(_)
FullCanon(c) ==
    IF c \in CanonKeys
    THEN LET m == CanonMap[c] IN FoldLeft(LAMBDA acc, d : acc \o FullCanon(d), <<>>, m)
    ELSE <<c>>
FullCompat(c) ==
    IF c \in CanonKeys
    THEN LET m == CanonMap[c] IN FoldLeft(LAMBDA acc, d : acc \o FullCompat(d), <<>>, m)
    ELSE IF c \in CompatKeys
    THEN LET m == CompatMap[c] IN FoldLeft(LAMBDA acc, d : acc \o FullCompat(d), <<>>, m)
    ELSE <<c>>

CompatAllKeys == TLCEval(CanonKeys \cup CompatKeys)
CanonTab  == TLCEval([c \in CanonKeys     |-> FullCanon(c)])
CompatTab == TLCEval([c \in CompatAllKeys |-> FullCompat(c)])

DecompCanon(c) ==
    IF c <= 127 THEN <<c>>
    ELSE IF IsSyllable(c) THEN SyllableDecomp(c)
    ELSE IF c \in CanonKeys THEN CanonTab[c]
    ELSE <<c>>
DecompCompat(c) ==
    IF c <= 127 THEN <<c>>
    ELSE IF IsSyllable(c) THEN SyllableDecomp(c)
    ELSE IF c \in CompatAllKeys THEN CompatTab[c]
    ELSE <<c>>
Decomp(compat, c) == IF compat THEN DecompCompat(c) ELSE DecompCanon(c)

----------------------------------------------------------------------------
(* Full composition exclusion and primary composites (D113, D114).         *)

IsSingleton(c)        == Len(CanonMap[c]) = 1
IsNonStarterDecomp(c) == ~IsStarter(c) \/ ~IsStarter(CanonMap[c][1])
FullyExcluded(c)      == c \in ScriptExclusions \/ IsSingleton(c) \/ IsNonStarterDecomp(c)

PrimaryKeys == TLCEval({c \in CanonKeys : ~FullyExcluded(c)})
PairFirsts  == TLCEval({CanonMap[c][1] : c \in PrimaryKeys})
PairSeconds == TLCEval({CanonMap[c][2] : c \in PrimaryKeys})
(* first character |-> (second character |-> composite) *)
PairMap ==
    TLCEval([a \in PairFirsts |->
        LET ks == {c \in PrimaryKeys : CanonMap[c][1] = a}
        IN TLCEval([b \in {CanonMap[c][2] : c \in ks} |-> CHOOSE c \in ks : CanonMap[c][2] = b])])

TableComp(a, b) ==
    IF a \in PairFirsts THEN (IF b \in DOMAIN PairMap[a] THEN PairMap[a][b] ELSE NoChar) ELSE NoChar
Compose(a, b) ==
    LET h == SyllableComp(a, b) IN IF h # NoChar THEN h ELSE TableComp(a, b)

(* Characters that may combine with a preceding character in a composition. *)
CanBeSecond(c) == IsV(c) \/ IsT(c) \/ c \in PairSeconds

----------------------------------------------------------------------------
(* Quick-check values (UAX #15 section 9): could the character occur in a  *)
(* normalized text?  "N" never, "M" depending on what precedes, "Y" always.*)

QcNFD(c)  == IF IsSyllable(c) \/ c \in CanonKeys THEN "N" ELSE "Y"
QcNFKD(c) == IF IsSyllable(c) \/ c \in CompatAllKeys THEN "N" ELSE "Y"
QcNFC(c) ==
    IF c \in CanonKeys /\ FullyExcluded(c) THEN "N"
    ELSE IF CanBeSecond(DecompCanon(c)[1]) THEN "M"
    ELSE "Y"
QcNFKC(c) ==
    IF IsSyllable(c) THEN QcNFC(c)
    ELSE IF c \in CompatAllKeys /\ DecompCompat(c) # DecompCanon(c) THEN "N"
    ELSE QcNFC(c)

FormNames == {"nfc", "nfd", "nfkc", "nfkd"}
Qc(form, c) ==
    IF c <= 127 THEN "Y"
    ELSE CASE form = "nfc"  -> QcNFC(c)
           [] form = "nfd"  -> QcNFD(c)
           [] form = "nfkc" -> QcNFKC(c)
           [] form = "nfkd" -> QcNFKD(c)

----------------------------------------------------------------------------
(* Non-starters at the edges of a character's NFKD (UAX #15, D3/D4).       *)

RECURSIVE LeadingFrom(_, _), TrailingFrom(_, _)
LeadingFrom(s, i)  == IF i > Len(s) \/ IsStarter(s[i]) THEN i - 1 ELSE LeadingFrom(s, i + 1)
TrailingFrom(s, i) == IF i = 0 \/ IsStarter(s[i]) THEN Len(s) - i ELSE TrailingFrom(s, i - 1)
LeadingNonStarters(s)  == LeadingFrom(s, 1)
TrailingNonStarters(s) == TrailingFrom(s, Len(s))

Edge(d) == [lead |-> LeadingNonStarters(d), trail |-> TrailingNonStarters(d), len |-> Len(d)]
EdgeTab == TLCEval([c \in CompatAllKeys |-> Edge(CompatTab[c])])
PlainStarter    == [lead |-> 0, trail |-> 0, len |-> 1]
PlainNonStarter == [lead |-> 1, trail |-> 1, len |-> 1]
Edges(c) ==
    IF c <= 127 THEN PlainStarter
    ELSE IF IsSyllable(c) THEN [lead |-> 0, trail |-> 0, len |-> Len(SyllableDecomp(c))]
    ELSE IF c \in CompatAllKeys THEN EdgeTab[c]
    ELSE IF IsStarter(c) THEN PlainStarter ELSE PlainNonStarter

----------------------------------------------------------------------------
(* Other properties.                                                       *)

InRanges(ranges, c) == \E i \in DOMAIN ranges : ranges[i][1] <= c /\ c <= ranges[i][2]
IsMark(c)           == InRanges(Raw.marks, c)
IsPublicAssigned(c) == InRanges(Raw.assigned, c)
Variant(c)          == IF c \in VariantKeys THEN VariantMap[c] ELSE <<c>>

(* The characters that are not inert: everything outside this set and the  *)
(* Hangul blocks decomposes to itself, is a starter and never composes.    *)
ActiveKeys == CompatAllKeys \cup CccKeys \cup PairFirsts \cup PairSeconds
=============================================================================

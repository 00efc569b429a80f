------------------------------ MODULE Uniform -------------------------------
(***************************************************************************)
(* Most characters are alike: a character that is not active (no mapping,  *)
(* class 0, no part in any composition, no variant) is only carried along. *)
(* The law: every operation commutes with replacing such characters by     *)
(* others.  A frame is a text with the placeholders X and Y; its record    *)
(* therefore says what every operation does with the frame for each of the *)
(* million characters that may stand in a placeholder.  The harness fills  *)
(* frames with all of them.                                                *)
(***************************************************************************)
EXTENDS Records

X == 57344      \* U+E000 and U+E001, private use: inert, and in no mapping
Y == 57345

IsJamo(c) == IsL(c) \/ IsV(c) \/ IsT(c)
Inert(c) == IsScalar(c) /\ ~(c \in ActiveKeys) /\ ~(c \in VariantKeys) /\ ~IsSyllable(c) /\ ~IsJamo(c)
(* listed for the harness: all others but the syllables *)
Active == TLCEval(SetToSortSeq(ActiveKeys \cup VariantKeys \cup (LBase..LBase + LCount - 1) \cup (VBase..VBase + VCount - 1)
                               \cup (TBase + 1..TBase + TCount - 1), <))

Frames == JsonDeserialize(IOEnv.TEXT_FILE)
Chunk == 60

Fill(t, c, e) == [i \in DOMAIN t |-> IF t[i] = X THEN c ELSE IF t[i] = Y THEN e ELSE t[i]]
FillAll(l, c, e) == [i \in DOMAIN l |-> Fill(l[i], c, e)]
FillRecord(r, c, e) ==
    [i \in DOMAIN r |-> IF i \in 1..7 THEN Fill(r[i], c, e)
                        ELSE IF i \in 12..13 THEN FillAll(r[i], c, e)
                        ELSE r[i]]

(* inert characters of every kind: controls, letters without mappings, unassigned ones, private use, joiners, *)
(* selectors, noncharacters, characters next to or a bit away from active ones *)
Samples == {0, 10, 113, 127, 128, 847, 888, 1564, 4351, 4371, 4448, 4470, 4519, 4547, 8203, 8205, 12592, 19969, 44031, 55204,
            55295, 57344, 57346, 63743, 64110, 65024, 65279, 65535, 65536, 66400, 119100, 128512, 194559, 195102, 917505, 917760,
            1048576, 1114111}
ASSUME \A c \in Samples \cup {X, Y} : Inert(c)

(* (variable names must not be parameter names anywhere: see Explore) *)
VARIABLES frm, stage
Init == frm = <<>> /\ stage = 0
Split == stage = 0 /\ stage' = 1 /\ \E k \in 0..((Len(Frames) - 1) \div Chunk) : frm' = <<k>>
Load == stage = 1 /\ stage' = 2 /\ \E i \in (frm[1] * Chunk + 1)..Min({(frm[1] + 1) * Chunk, Len(Frames)}) : frm' = Frames[i]
Next == Split \/ Load

(* the law, for every frame with four fillings that depend on it *)
Some(n) == LET l == SetToSortSeq(Samples, <) IN l[1 + (n % Len(l))]
Uniform == stage = 2 =>
    LET r == Record(frm)
        m == Mix(frm)
    IN \A k \in 0..3 : LET c == Some(m + 7 * k)  e == Some(m \div 64 + 11 * k)
                       IN Record(Fill(frm, c, e)) = FillRecord(r, c, e)
Recorded == stage = 2 => EmitRecord(frm, IOEnv.RECORD_FILE)
Listed == stage = 0 => JsonSerialize(IOEnv.RECORD_FILE \o ".active", Active)
=============================================================================

------------------------------ MODULE G_Values ------------------------------
(* Enumerates strings of four bytes around the boundaries of UTF-8, and dates around the ends of months. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Alphabet, Years
Sigs == UNION {[1..n -> Alphabet] : n \in 4..4}
Short == UNION {[1..n -> {0, 32, 65, 195, 164, 255}] : n \in {0, 1, 2, 3, 5}}
Dates == {<<y, m, d>> : y \in Years, m \in 1..12, d \in {1, 2, 15, 27, 28, 29, 30, 31}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[sig |-> s] : s \in Sigs \cup Short}) \o SetToSeq({[date |-> d] : d \in Dates}))
=============================================================================

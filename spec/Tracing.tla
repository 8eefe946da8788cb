------------------------------ MODULE Tracing ------------------------------
(* Common part of all trace specifications. A trace is a file with one JSON object per line; the
   first line describes the build. The variable l counts the lines explained so far; a trace is
   accepted if all its lines can be explained.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Focus        \* ids of the properties being decided: obligations of others are waived

Trace == ndJsonDeserialize(IOEnv.TRACE)
Meta  == Trace[1]

VARIABLE l

(* An obligation of property `id`. Waived obligations are not even evaluated. *)
Must(id, what, cond) ==
    IF id \notin Focus THEN TRUE
    ELSE IF cond THEN TRUE
    ELSE PrintT("REJECT property=" \o id \o " line=" \o ToString(l + 1) \o " : " \o what) /\ FALSE

More    == l < Len(Trace)
Event   == Trace[l + 1]
Has(e, f) == f \in DOMAIN e

Accepted == TLCGet("stats").diameter = Len(Trace)

Range(s) == {s[i] : i \in DOMAIN s}
Rev(s)   == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* numbers in a file are big-endian, unless the little-endian option is on *)
Num(s)   == IF Meta.little THEN Rev(s) ELSE s
Slice(s, from, n) == SubSeq(s, from + 1, from + n)          \* from counts from 0
=============================================================================

----------------------------- MODULE G_Stream -----------------------------
(* Enumerates all histories of a given length over an alphabet of operations chosen around the ends
   of a stream of four bytes.                                                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANT Depth
u(v) == <<0, 0, 0, v>>
m(v) == <<65535, 65535, 65535, 65536 - v>>
Ops == {[op |-> "read", n |-> n] : n \in {0, 1, 3}}
       \cup {[op |-> "write", b |-> b] : b \in {<<>>, <<7>>, <<8, 9, 10>>}}
       \cup {[op |-> "seek", from |-> "start", off |-> o] : o \in {u(0), u(3), u(6), m(1)}}
       \cup {[op |-> "seek", from |-> "end", off |-> o] : o \in {u(0), m(4), m(5), u(2)}}
       \cup {[op |-> "seek", from |-> "current", off |-> o] : o \in {m(1), m(3), u(2)}}
       \cup {[op |-> "tell"], [op |-> "size"]}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([1..Depth -> Ops]))
=============================================================================

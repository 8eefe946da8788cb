----------------------------- MODULE G_Handles -----------------------------
(* Enumerates interleavings of two streams on one file of four bytes. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Modes
u(v) == <<0, 0, 0, v>>
m(v) == <<65535, 65535, 65535, 65536 - v>>
Ops == {[op |-> "read", n |-> 2], [op |-> "write", b |-> <<7>>], [op |-> "write", b |-> <<8, 9, 10>>], [op |-> "size"],
        [op |-> "seek", from |-> "end", off |-> u(0)], [op |-> "seek", from |-> "start", off |-> u(2)],
        [op |-> "seek", from |-> "current", off |-> m(1)], [op |-> "tell"]}
Steps == {[h |-> h, op |-> o] : h \in 1..2, o \in Ops}
(* the second stream is opened, or a duplicate *)
Second == Modes \cup {"dup"}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[first |-> a, second |-> b, steps |-> s] : a \in Modes, b \in Second, s \in [1..Depth -> Steps]}))
=============================================================================

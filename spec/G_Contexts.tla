----------------------------- MODULE G_Contexts -----------------------------
(* Enumerates histories of operations on two contexts (the first being the shared default one). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANT Depth
Ok == [magic |-> "acpp", version |-> 0, type |-> "parH"]
Lists == {<<Ok>>, <<Ok, [Ok EXCEPT !.type = "zzzz"]>>, <<[Ok EXCEPT !.magic = "acsp"]>>, <<Ok, [Ok EXCEPT !.version = 2132]>>}
Ops == {[op |-> "create", user |-> "x"], [op |-> "drop", c |-> 2]}
       \cup {[op |-> "copy", c |-> c] : c \in {1, 2}}
       \cup {[op |-> "install", c |-> c, h |-> h] : c \in {1, 2}, h \in {0, 2, 3, 8}}
       \cup {[op |-> "signal", c |-> c, code |-> 3, text |-> "boom"] : c \in {1, 2, 3}}
       \cup {[op |-> "register", c |-> 2, list |-> x] : x \in Lists}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq([1..Depth -> Ops]))
=============================================================================

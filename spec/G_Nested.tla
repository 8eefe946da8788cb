------------------------------ MODULE G_Nested ------------------------------
(* Enumerates call trees, written in the order in which the calls begin: [depth, op, via, what]. A call is
   one deeper than the one before only if that one reports something (and thus runs a handler).        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxCalls, Whats, Vias
Ops == {[op |-> "open", what |-> w] : w \in Whats} \cup {[op |-> "register", what |-> "bad"], [op |-> "signal", what |-> ""]}
Reports(c) == c.op # "open" \/ c.what \in {"sig", "date", "count"}
Calls(d) == {[depth |-> d, op |-> o.op, what |-> o.what, via |-> v] : o \in Ops, v \in Vias}
RECURSIVE Trees(_)
Trees(n) == IF n = 1 THEN {<<c>> : c \in {x \in Calls(0) : Reports(x)}}
            ELSE LET T == Trees(n - 1) IN
                 UNION {{Append(t, c) : c \in UNION {Calls(d) : d \in 0..(t[n - 1].depth + (IF Reports(t[n - 1]) THEN 1 ELSE 0))}} : t \in T}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Trees(MaxCalls)))
=============================================================================

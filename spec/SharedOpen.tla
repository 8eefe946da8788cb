----------------------------- MODULE SharedOpen -----------------------------
(* How the library does it: the default context is behind a lock, which is held from before the file is
   opened until the open is over, reports included, and given back whatever comes of the open. Opens
   through other contexts take no lock.                                                               *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Contexts, MaxOpens
Outcomes == {[result |-> "ok", report |-> ""], [result |-> "InvalidData", report |-> "BadSignature"],
             [result |-> "InvalidData", report |-> "Range"], [result |-> "NotFound", report |-> ""]}
VARIABLES th, lock, pc, todo
vars == <<th, lock, pc, todo>>
V == INSTANCE SharedVisible
Free == 0

Init == V!Init /\ lock = Free /\ pc = [t \in Threads |-> "out"] /\ todo = [t \in Threads |-> MaxOpens]
Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Shares(t) == th[t].ctx = 0
Call(t) == /\ pc[t] = "out" /\ todo[t] > 0 /\ \E o \in Outcomes, c \in Contexts : V!Call(t, o, c)
           /\ Goto(t, "wait") /\ todo' = [todo EXCEPT ![t] = @ - 1] /\ UNCHANGED lock
Acquire(t) == /\ pc[t] = "wait" /\ Goto(t, "work") /\ UNCHANGED <<th, todo>>
              /\ IF Shares(t) THEN lock = Free /\ lock' = t ELSE UNCHANGED lock
Work(t) == /\ pc[t] = "work"
           /\ IF th[t].due.report = "" THEN Goto(t, "unlock") /\ UNCHANGED th
              ELSE V!Enter(t, th[t].due.report, th[t].ctx) /\ Goto(t, "handler")
           /\ UNCHANGED <<lock, todo>>
Handler(t) == pc[t] = "handler" /\ V!Leave(t) /\ Goto(t, "unlock") /\ UNCHANGED <<lock, todo>>
Release(t) == /\ pc[t] = "unlock" /\ Goto(t, "return") /\ UNCHANGED <<th, todo>>
              /\ IF Shares(t) THEN lock = t /\ lock' = Free ELSE UNCHANGED lock
Return(t) == pc[t] = "return" /\ V!Return(t, th[t].due.result) /\ Goto(t, "out") /\ UNCHANGED <<lock, todo>>
Step(t) == Acquire(t) \/ Work(t) \/ Handler(t) \/ Release(t) \/ Return(t)
Next == \E t \in Threads : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

(* C09 *)
OneReport == \A c \in Contexts : Cardinality({t \in Threads : th[t].st = "reporting" /\ th[t].ctx = c}) <= 1
Holder    == \A t \in Threads : (pc[t] \in {"work", "handler", "unlock"} /\ Shares(t)) <=> lock = t
Refines   == V!Spec
Returns   == \A t \in Threads : (pc[t] = "wait") ~> (pc[t] = "out")
(* nothing is left behind *)
CleanEnd  == (\A t \in Threads : pc[t] = "out") => lock = Free /\ th = [t \in Threads |-> V!Idle]
(* C34: an open through a context of its own never waits for anybody *)
NeverWaits == \A t \in Threads : pc[t] # "out" /\ ~Shares(t) => ENABLED Step(t)
=============================================================================

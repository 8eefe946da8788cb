--------------------------- MODULE SharedVisible ---------------------------
(* Opens by several threads, through the shared default context or contexts of their own, as seen from
   outside: calls, error reports (which take time) and returns. The guarantee: each open behaves as on
   its own, and no two reports through the same context overlap.                                      *)
EXTENDS Integers
CONSTANTS Threads,
          Contexts,         \* 0 is the default context, usable by all threads at any time
          Outcomes          \* what an open can come to on its own: [result, report], report "" if none
VARIABLE th
Idle == [st |-> "idle", due |-> [result |-> "", report |-> ""], ctx |-> 0]
Init == th = [t \in Threads |-> Idle]

(* a context of its own is borrowed for the time of the open *)
Usable(c) == c = 0 \/ \A t \in Threads : th[t].st # "idle" => th[t].ctx # c
(* t opens, through context c, something whose outcome alone is o *)
Call(t, o, c) == th[t].st = "idle" /\ Usable(c) /\ th' = [th EXCEPT ![t] = [st |-> "opening", due |-> o, ctx |-> c]]
MayEnter(t, code, c) == /\ th[t].st = "opening" /\ th[t].due.report # "" /\ code = th[t].due.report
                        /\ c = th[t].ctx
                        /\ \A u \in Threads : th[u].st = "reporting" => th[u].ctx # c
Enter(t, code, c) == MayEnter(t, code, c) /\ th' = [th EXCEPT ![t].st = "reporting"]
Leave(t)    == th[t].st = "reporting" /\ th' = [th EXCEPT ![t].st = "reported"]
MayReturn(t, r) == /\ th[t].st = IF th[t].due.report = "" THEN "opening" ELSE "reported"
                   /\ r = th[t].due.result
Return(t, r) == MayReturn(t, r) /\ th' = [th EXCEPT ![t] = Idle]

Next == \E t \in Threads, o \in Outcomes :
    (\E c \in Contexts : Call(t, o, c) \/ Enter(t, o.report, c)) \/ Leave(t) \/ Return(t, o.result)
Spec == Init /\ [][Next]_th
=============================================================================

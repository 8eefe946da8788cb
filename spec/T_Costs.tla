------------------------------ MODULE T_Costs ------------------------------
(* Validates measured costs of real operations. Numbers are in KiB, rounded up, except where said. *)
EXTENDS Tracing
C == INSTANCE Costs
Kib(n) == (n + 1023) \div 1024
Cost(e) ==
    /\ Must("C39", e.op \o " must not fail: " \o e.r, e.r \in {"ok", "refused"})
    /\ Must("C39", e.op \o " of " \o e.shown \o " reads " \o ToString(e.read) \o " KiB", e.read <= Kib(C!MayRead(e.op, e.own)))
    /\ Must("C39", e.op \o " of " \o e.shown \o " reads " \o ToString(e.calls) \o " times", e.calls <= C!MayCall(e.op, e.own, e.len))
    /\ Must("C39", e.op \o " of " \o e.shown \o " takes " \o ToString(e.time) \o " microseconds", e.time <= C!MayRun(e.op, e.own))
    /\ Must("C39", e.op \o " of " \o e.shown \o " takes " \o ToString(e.peak) \o " KiB of memory", e.peak <= Kib(C!MayTake(e.op, e.own)))
    /\ Must("C39", e.op \o " of " \o e.shown \o " repeated " \o ToString(e.rounds) \o " times keeps " \o ToString(e.kept) \o " KiB of memory",
            e.kept <= Kib(C!MayKeep(e.op)))
Init == l = 1
Next == More /\ l' = l + 1 /\ Cost(Event)
Spec == Init /\ [][Next]_l
=============================================================================

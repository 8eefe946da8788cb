---------------------------- MODULE MC_Transfer ----------------------------
EXTENDS Transfer
CONSTANTS Bytes, Max, Errors
VARIABLE result
Blocks(k) == UNION {[1..n -> Bytes] : n \in 0..k}
Jobs == {[dir |-> "in", n |-> n, b |-> <<>>] : n \in 0..Max}
        \cup {[dir |-> "out", n |-> 0, b |-> b] : b \in Blocks(Max)}
        \cup {[dir |-> "size", n |-> 0, b |-> <<>>]}
Init == pc = "idle" /\ job = [dir |-> "none"] /\ moved = <<>> /\ errs = {} /\ result = "none"
Next == \/ \E j \in Jobs : job = [dir |-> "none"] /\ Begin(j) /\ UNCHANGED result
        \/ \E d \in {"in", "out"}, b \in Blocks(Max) \ {<<>>} :
              \/ Move(d, b) /\ UNCHANGED result
              \/ \E e \in Errors : MoveFails(d, b, e) /\ UNCHANGED result
        \/ Look /\ UNCHANGED result
        \/ \E e \in Errors : LookFails(e) /\ UNCHANGED result
        \/ \E r \in Errors \cup {"ok"} : Return(r) /\ result' = r
Spec == Init /\ [][Next]_<<tvars, result>> /\ WF_<<tvars, result>>(\E r \in Errors \cup {"ok"} : Return(r) /\ result' = r)
(* C16 *)
Honest == result = "ok" => errs = {} /\ Complete
Reported == result \in Errors => result \in errs
NoTransferAfterFailure == [][errs # {} => moved' = moved]_<<tvars, result>>
PrefixOnly == job.dir = "out" => IsPrefixOf(moved, job.b)
Bounded == job.dir = "in" => Len(moved) <= job.n
FailureEnds == [](errs # {} => <>(result \in Errors))
Inv == Honest /\ Reported /\ PrefixOnly /\ Bounded
=============================================================================

----------------------------- MODULE MC_Pieces -----------------------------
(* Transfers in small steps: a feeder sends what is to come in pieces, a drainer takes away, the stream
   takes or gives any number of bytes at a time and may be interrupted. Whatever the pieces, every
   operation ends in one of the outcomes of Pieces, and nothing gets lost or doubled.            *)
EXTENDS Pieces
CONSTANTS Bytes, Max, Capacity, Ops, Patient      \* Patient: the device makes the stream wait

VARIABLES coming,     \* what the feeder has not sent yet
          q,          \* in the device, towards the stream
          hung,       \* the feeder is gone
          pipe,       \* in the device, from the stream
          gone,       \* the drainer is gone
          job, moved, res,     \* the operation under way, the bytes it has moved and its result
          d,          \* the abstract device before the operation
          done        \* operations made so far
vars == <<coming, q, hung, pipe, gone, job, moved, res, d, done>>
Blocks == UNION {[1..n -> Bytes] : n \in 0..Max}
Idle == [op |-> "none"]
Big == 1000

Dev(in, more) == [in |-> in, more |-> more, endless |-> FALSE, out |-> <<>>, room |-> Big, most |-> Big, full |-> "WouldBlock",
                  noread |-> "", nowrite |-> "", lost |-> FALSE, maybe |-> <<>>]
Init == /\ coming \in Blocks /\ q = <<>> /\ hung = FALSE /\ pipe = <<>> /\ gone = FALSE
        /\ job = Idle /\ moved = <<>> /\ res = "" /\ done = 0
        /\ d = Dev(coming, FALSE)

Feed == \E n \in 1..Len(coming) : /\ q' = q \o SubSeq(coming, 1, n) /\ coming' = SubSeq(coming, n + 1, Len(coming))
                                  /\ UNCHANGED <<hung, pipe, gone, job, moved, res, d, done>>
HangUp == /\ coming = <<>> /\ ~hung /\ hung' = TRUE
          /\ UNCHANGED <<coming, q, pipe, gone, job, moved, res, d, done>>
Drain == \E n \in 1..Len(pipe) : /\ ~gone /\ pipe' = SubSeq(pipe, n + 1, Len(pipe))
                                 /\ UNCHANGED <<coming, q, hung, gone, job, moved, res, d, done>>
Leave == /\ ~gone /\ gone' = TRUE /\ UNCHANGED <<coming, q, hung, pipe, job, moved, res, d, done>>

(* An operation begins. An impatient device counts with what is there at that moment only, so that its
   feeder and drainer are quiet during the operation.                                            *)
Begin == /\ job = Idle /\ done < Ops
         /\ \E op \in {[op |-> "read", n |-> n] : n \in 0..Max} \cup {[op |-> "write", b |-> b] : b \in Blocks} :
              /\ job' = op /\ moved' = <<>> /\ res' = ""
              /\ d' = [Dev(IF Patient THEN q \o coming ELSE q, ~Patient /\ ~hung)
                         EXCEPT !.room = IF gone THEN 0 ELSE IF Patient THEN Big ELSE Capacity - Len(pipe),
                                !.most = IF gone THEN 0 ELSE IF Patient THEN Big ELSE Capacity - Len(pipe),
                                !.full = IF gone THEN "BrokenPipe" ELSE "WouldBlock"]
              /\ done' = done + 1
         /\ UNCHANGED <<coming, q, hung, pipe, gone>>
End(r) == res' = r /\ UNCHANGED <<coming, q, hung, pipe, gone, job, moved, d, done>>
Busy == job # Idle /\ res = ""
Take == /\ Busy /\ job.op = "read" /\ Len(moved) < job.n
        /\ \E n \in 1..Len(q) : /\ n <= job.n - Len(moved)
                                /\ moved' = moved \o SubSeq(q, 1, n) /\ q' = SubSeq(q, n + 1, Len(q))
        /\ UNCHANGED <<coming, hung, pipe, gone, job, res, d, done>>
Nothing == /\ Busy /\ job.op = "read" /\ Len(moved) < job.n /\ q = <<>>
           /\ \/ hung /\ End("UnexpectedEof")
              \/ ~hung /\ ~Patient /\ End("WouldBlock")
Give == /\ Busy /\ job.op = "write" /\ ~gone
        /\ \E n \in 1..(Len(job.b) - Len(moved)) : /\ Len(pipe) + n <= Capacity
                                                  /\ LET b == SubSeq(job.b, Len(moved) + 1, Len(moved) + n) IN
                                                     pipe' = pipe \o b /\ moved' = moved \o b
        /\ UNCHANGED <<coming, q, hung, gone, job, res, d, done>>
Refused == /\ Busy /\ job.op = "write" /\ Len(moved) < Len(job.b)
           /\ \/ gone /\ End("BrokenPipe")
              \/ ~gone /\ ~Patient /\ Len(pipe) = Capacity /\ End("WouldBlock")
Finish == /\ Busy /\ (IF job.op = "read" THEN Len(moved) = job.n ELSE Len(moved) = Len(job.b)) /\ End("ok")
Return == /\ res # "" /\ job' = Idle /\ res' = "" /\ UNCHANGED <<coming, q, hung, pipe, gone, moved, d, done>>
Interrupt == Busy /\ UNCHANGED vars       \* the transfer is simply made again

Others == Feed \/ HangUp \/ Drain \/ (Leave /\ (Busy => job.op = "read"))
Next == \/ ((Patient \/ job = Idle) /\ Others) \/ Begin \/ Take \/ Nothing \/ Give \/ Refused \/ Finish \/ Return \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Feed) /\ WF_vars(HangUp) /\ WF_vars(Drain)
             /\ WF_vars(Take \/ Nothing \/ Give \/ Refused \/ Finish) /\ WF_vars(Return)

(* C40 *)
Outcomes == Step(d, job)
Refines == res # "" =>
    \E o \in Outcomes :
        /\ o.r = res
        /\ res = "ok" /\ job.op = "read" => moved = o.val /\ (Patient => q \o coming = o.st.in)
        /\ res = "ok" /\ job.op = "write" => moved = job.b
        /\ res # "ok" /\ job.op = "read" => IsSuffix(IF Patient THEN q \o coming ELSE q, o.st.in)
        /\ res # "ok" /\ job.op = "write" => IsPrefix(moved, o.st.maybe)
(* an operation has only one outcome, whatever the pieces; only how much of a refused one was done is open *)
OneOutcome == job # Idle => Cardinality({o.r : o \in Outcomes}) = 1
Terminates == [](Busy => <>(~Busy))
InOrder == job.op = "write" => IsPrefix(moved, job.b)
Conserved == IsSuffix(coming, q \o coming) /\ Len(pipe) <= Capacity
Inv == Refines /\ OneOutcome /\ InOrder /\ Conserved
=============================================================================

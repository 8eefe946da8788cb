------------------------------ MODULE Transfer ------------------------------
(* What an operation of the I/O interface may do to the device below it, primitive call by primitive
   call. How an operation is cut into primitive calls is left open.
     job.dir   "in"    bring job.n bytes from the device
               "out"   hand job.b to the device
               "size"  find the length of the device (no transfer at all)                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pc,       \* "idle", "busy"
          job, moved, errs
tvars == <<pc, job, moved, errs>>

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

Begin(j) == /\ pc = "idle"
            /\ pc' = "busy" /\ job' = j /\ moved' = <<>> /\ errs' = {}

(* a primitive read or write that moves b *)
MayMove(dir, b) ==
    /\ pc = "busy" /\ job.dir = dir
    /\ errs = {}                                    \* nothing is transferred after a failure
    /\ IF dir = "in" THEN Len(moved) + Len(b) <= job.n ELSE IsPrefixOf(moved \o b, job.b)
Move(dir, b) == /\ MayMove(dir, b)
                /\ moved' = moved \o b /\ UNCHANGED <<pc, job, errs>>
MoveFails(dir, b, e) == /\ MayMove(dir, b)
                        /\ errs' = errs \cup {e} /\ UNCHANGED <<pc, job, moved>>
(* a position query or a seek *)
Look == /\ pc = "busy" /\ UNCHANGED tvars
LookFails(e) == /\ pc = "busy"
                /\ errs' = errs \cup {e} /\ UNCHANGED <<pc, job, moved>>

(* giving up a stream whose last bytes do, or do not, get to where they belong *)
MayClose(kept, r) == kept = "ok" <=> r = "ok"

Complete == CASE job.dir = "in" -> Len(moved) = job.n
              [] job.dir = "out" -> moved = job.b
              [] OTHER -> TRUE
MayReturn(r) == /\ pc = "busy"
                /\ IF errs = {} THEN r = "ok" /\ Complete ELSE r \in errs
Return(r) == /\ MayReturn(r)
             /\ pc' = "idle" /\ UNCHANGED <<job, moved, errs>>
=============================================================================

------------------------------ MODULE T_Faults ------------------------------
(* Validates, primitive call by primitive call, what typed operations do to a device that fails. *)
EXTENDS Tracing, Floats
VARIABLES pc, job, moved, errs,
          op, pos, len         \* the operation, the position before it and the length of the device
tvars == <<pc, job, moved, errs>>
vars == <<l, pc, job, moved, errs, op, pos, len>>
T == INSTANCE Transfer
Wr == INSTANCE Wire WITH Order <- Num

JobOf(o) == CASE o.op = "put"   -> [dir |-> "out", n |-> 0, b |-> Wr!Encode(o.t, o.v)]
              [] o.op = "get"   -> [dir |-> "in", n |-> Wr!Width[o.t] * o.n, b |-> <<>>]
              [] OTHER          -> [dir |-> "size", n |-> 0, b |-> <<>>]

Begin(e) == /\ pc' = "busy" /\ job' = JobOf(e.op) /\ moved' = <<>> /\ errs' = {}
            /\ op' = e.op /\ pos' = e.pos /\ len' = e.len

(* a transfer not allowed by the specification; the rest of the operation is then not looked at *)
Call(e) ==
    LET dir == IF e.c = "read" THEN "in" ELSE "out" IN
    IF e.c \in {"read", "write"} THEN
        /\ Must("C16", IF errs # {} THEN "no transfer after a failed call" ELSE "these bytes are not part of the value",
                T!MayMove(dir, e.b))
        /\ IF T!MayMove(dir, e.b)
           THEN (IF e.r = "ok" THEN T!Move(dir, e.b) ELSE T!MoveFails(dir, e.b, e.r))
           ELSE UNCHANGED tvars
        /\ UNCHANGED <<op, pos, len>>
    ELSE /\ (IF e.r = "ok" THEN T!Look ELSE T!LookFails(e.r))
         /\ UNCHANGED <<op, pos, len>>

Ret(e) ==
    /\ Must("C16", "an error of the device must be the result of the operation, which gave " \o e.r,
            errs # {} => e.r \in errs)
    /\ Must("C16", "without a failure the operation must succeed with exactly the bytes of the value",
            errs = {} => e.r = "ok" /\ T!Complete)
    /\ Must("C16", "the value must be the one transferred",
            errs = {} /\ e.r = "ok" /\ op.op = "get" => e.val = Wr!Decode(op.t, moved))
    /\ Must("C16", "the size must be the length of the device",
            errs = {} /\ e.r = "ok" /\ op.op = "size" => e.val = len)
    /\ Must("C16", "the device must end up where the operation ends",
            errs = {} /\ e.r = "ok" => e.pos = pos + Len(moved))
    /\ pc' = "idle" /\ UNCHANGED <<job, moved, errs, op, pos, len>>

GiveUp(e) ==
    /\ Must("C16", "closing a stream on " \o e.how \o " must say whether the last bytes got to where they belong (" \o e.raw \o "), and says " \o e.r,
            T!MayClose(e.raw, e.r))
    /\ UNCHANGED <<tvars, op, pos, len>>

Init == l = 1 /\ pc = "idle" /\ job = [dir |-> "none"] /\ moved = <<>> /\ errs = {} /\ op = <<>> /\ pos = 0 /\ len = 0
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "new"  -> Begin(Event)
             [] Event.ev = "giveup" -> GiveUp(Event)
             [] Event.ev = "call" -> Call(Event)
             [] Event.ev = "ret"  -> Ret(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE TypedOps -----------------------------
(* Operations as recorded: typed ones are operations on bytes. *)
EXTENDS Tracing, Floats
Wr == INSTANCE Wire WITH Order <- Num
Plain(op) == CASE op.op = "put" -> [op |-> "write", b |-> Wr!Encode(op.t, op.v)]
               [] op.op = "get" -> [op |-> "read", n |-> Wr!Width[op.t] * op.n]
               [] OTHER -> op
Result(op, val) == IF op.op = "get" THEN Wr!Decode(op.t, val) ELSE val
NoPos(res) == Len(res.val) # 4
Told(op, res) == IF op.op = "tell" THEN [op |-> "tell", seen |-> IF NoPos(res) THEN <<0, 0, 0, 0>> ELSE res.val] ELSE Plain(op)
Agrees(o, op, res) ==
    /\ IF o.r = "failed" THEN res.r \notin {"ok", "panic"} ELSE res.r = o.r
    /\ res.r = "ok" => res.val = Result(op, o.val)
=============================================================================

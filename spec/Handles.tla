------------------------------ MODULE Handles ------------------------------
(* Several streams on one disk file. Opening gives a description with a position of its own;
   duplicating a stream gives another stream on the same description. The bytes are shared by all.

   A state is [data, descs, of]: descs is a sequence of [mode, pos, vague], of maps streams to
   descriptions. Modes: "rw", "r" (writes are refused), "w" (reads are refused), "a" (writes go to
   the end), "ra" (writes go to the end, reads are allowed).                                       *)
EXTENDS Stream

Readable(m) == m \in {"rw", "r", "ra"}
Writable(m) == m # "r"
Appends(m)  == m \in {"a", "ra"}

Empty(data) == [data |-> data, descs |-> <<>>, of |-> <<>>]
Opened(st, mode) == [st EXCEPT !.descs = Append(@, [mode |-> mode, pos |-> W!Zero(Width), vague |-> FALSE]),
                               !.of = Append(@, Len(st.descs) + 1)]
Duplicated(st, h) == [st EXCEPT !.of = Append(@, st.of[h])]
(* somebody else replaces the contents *)
Replaced(st, d) == [st EXCEPT !.data = d]

Desc(st, h) == st.descs[st.of[h]]
AsStream(st, h) == [kind |-> "file", data |-> st.data, used |-> W!Zero(Width), pos |-> Desc(st, h).pos, vague |-> Desc(st, h).vague]
With(st, h, s) == [st EXCEPT !.data = s.data, !.descs[st.of[h]].pos = s.pos, !.descs[st.of[h]].vague = s.vague]

Moves(op) == IF op.op = "read" THEN op.n > 0 ELSE IF op.op = "write" THEN op.b # <<>> ELSE FALSE
Refuses(m, op) == (op.op = "read" /\ ~Readable(m)) \/ (op.op = "write" /\ ~Writable(m))
HandleEnabled(st, h, op) ==
    LET m == Desc(st, h).mode IN
    Refuses(m, op) \/ (op.op = "write" /\ Appends(m)) \/ Enabled(AsStream(st, h), op)

(* everything that may come of an operation on stream h: [st, r, val] *)
Do(st, h, op) ==
    LET m == Desc(st, h).mode
        s == AsStream(st, h)
    IN  IF Refuses(m, op)      \* moving nothing may be refused or not
        THEN One(st, "failed", <<>>) \cup (IF Moves(op) THEN {} ELSE One(st, "ok", <<>>))
        ELSE IF op.op = "write" /\ Appends(m) /\ ~Moves(op) THEN One(st, "ok", <<>>)
        ELSE {[st |-> With(st, h, o.st), r |-> o.r, val |-> o.val] :
                 o \in Step(IF op.op = "write" /\ Appends(m) THEN AtPos(s, LenW(s)) ELSE s, op)}
=============================================================================

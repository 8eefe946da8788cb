------------------------------ MODULE T_Pieces ------------------------------
(* Validates histories of one stream on a device that hands out and accepts bytes in pieces. *)
EXTENDS TypedOps
P == INSTANCE Pieces
VARIABLES may          \* the states the device may be in
vars == <<l, may>>

Fits(o, op, res) == res.r = o.r /\ (res.r = "ok" => res.val = Result(op, o.val))
Op(e) ==
    LET op == Plain(e.op)
        next == UNION {P!Step(d, op) : d \in may}
        good == {o.st : o \in {x \in next : Fits(x, e.op, e)}}
    IN
    /\ Must("C40", "a stream on " \o e.how \o " must not answer " \o e.r \o " " \o ToString(e.val) \o " to " \o ToString(e.op), good # {})
    /\ may' = IF good # {} THEN good ELSE {o.st : o \in next}

New(e) == may' = {[e.dev EXCEPT !.lost = FALSE]}
(* the other end: sends, leaves, takes what is left or what was written *)
Send(e) == may' = {P!Send(d, e.b) : d \in may}
Hang(e) == may' = {P!Hang(d) : d \in may}
Rest(e) ==
    /\ Must("C40", "bytes were taken from " \o e.how \o " that no operation asked for, or more than once", \E d \in may : P!RestOk(d, e.b))
    /\ may' = {P!Rest(d) : d \in may}
Taken(e) ==
    /\ Must("C40", "what arrived through " \o e.how \o " is not what was written", \E d \in may : P!TakenOk(d, e.b))
    /\ may' = {P!Taken(d, e.room, e.most) : d \in may}
(* the stream is given up: the other end notices *)
Closed(e) ==
    /\ Must("C40", "giving up a stream on " \o e.how \o " must close it", e.seen)
    /\ UNCHANGED may

Init == l = 1 /\ may = {}
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "new"    -> New(Event)
             [] Event.ev = "op"     -> Op(Event)
             [] Event.ev = "send"   -> Send(Event)
             [] Event.ev = "hang"   -> Hang(Event)
             [] Event.ev = "rest"   -> Rest(Event)
             [] Event.ev = "taken"  -> Taken(Event)
             [] Event.ev = "closed" -> Closed(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

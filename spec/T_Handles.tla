----------------------------- MODULE T_Handles -----------------------------
(* Validates histories of several streams on one disk file. After every operation the file is also
   read from outside.                                                                             *)
EXTENDS TypedOps
H == INSTANCE Handles WITH Base <- 65536, Width <- 4, SmallMax <- 1000000, FileMax <- <<0, 255, 65535, 65535>>
VARIABLES may,        \* the states that explain what was seen
          live        \* streams not closed
vars == <<l, may, live>>

(* what is on the disk must be what one of the states says *)
Seen(e, ss) == {s \in ss : s.data = e.disk}
Show(h) == "stream " \o ToString(h) \o " " \o ToString({<<s.of, [d \in DOMAIN s.descs |-> s.descs[d].mode]>> : s \in may})

Op(e) ==
    LET op == e.op
        on == {s \in may : H!HandleEnabled(s, e.h, Plain(op))}
        next == UNION {H!Do(s, e.h, Told(op, e.res)) : s \in on}
        good == {o.st : o \in {x \in next : Agrees(x, op, e.res)}}
    IN
    /\ Must("C35", Show(e.h) \o " must not answer " \o ToString(e.res) \o " to " \o ToString(op), on # {} => good # {})
    /\ Must("C35", "contents of the file after " \o ToString(op) \o " on " \o Show(e.h) \o ": " \o ToString(e.disk),
            on # {} => Seen(e, good) # {})
    /\ may' = Seen(e, good) /\ UNCHANGED live
Same(e) == Must("C35", "contents of the file " \o ToString(e.disk), may # {} => Seen(e, may) # {})

New(e)  == may' = {H!Empty(e.disk)} /\ live' = {}
Open(e) == /\ Must("C35", "opening again", e.r = "ok") /\ Same(e)
           /\ may' = {H!Opened(s, e.mode) : s \in may}
           /\ live' = live \cup {e.h}
Dup(e)  == /\ Must("C35", "duplicating a stream", e.r = "ok") /\ Same(e)
           /\ may' = {H!Duplicated(s, e.of) : s \in may}
           /\ live' = live \cup {e.h}
Close(e) == /\ Must("C35", "closing " \o Show(e.h), e.r = "ok" /\ e.h \in live) /\ Same(e)
            /\ live' = live \ {e.h} /\ UNCHANGED may
Outside(e) == may' = {H!Replaced(s, e.disk) : s \in may} /\ UNCHANGED live

Init == l = 1 /\ may = {} /\ live = {}
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "hnew"    -> New(Event)
             [] Event.ev = "hopen"   -> Open(Event)
             [] Event.ev = "hdup"    -> Dup(Event)
             [] Event.ev = "hclose"  -> Close(Event)
             [] Event.ev = "outside" -> Outside(Event)
             [] Event.ev = "hop"     -> Op(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

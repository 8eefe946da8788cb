------------------------------ MODULE T_Stream ------------------------------
(* Validates histories of stream operations on real streams of all kinds. Several streams are driven
   through the same operations; for each the set of states it may be in is tracked.               *)
EXTENDS TypedOps
S == INSTANCE Stream WITH Base <- 65536, Width <- 4, SmallMax <- 1000000, FileMax <- <<0, 255, 65535, 65535>>

VARIABLES streams,    \* kinds of the streams of this history
          may,        \* per stream: the states it may be in; none if it cannot be followed any more
          sized,      \* the operation before was a size query
          clean       \* no refused transfer so far in this history
vars == <<l, streams, may, sized, clean>>

Growing(i) == streams[i].kind \in S!Growing
Null(i)    == streams[i].kind = "null"

(* the properties an operation on a stream of this kind decides *)
ByKind(kind) == CASE kind \in {"vec", "fixed"} -> "C11" [] kind = "file" -> "C12" [] OTHER -> "C13"
Owners(op, kind) ==
    (CASE op.op = "size" -> {"C15"}
       [] op.op \in {"put", "get"} -> {"C14"} \cup (IF Wr!IsFixed(op.t) THEN {"C17"} ELSE {})
       [] OTHER -> {ByKind(kind)})
    \cup (IF sized THEN {"C15"} ELSE {}) \cup {"C19"}

After(i, op) == LET ss == {s \in may[i] : S!Enabled(s, Plain(op))} IN ss

Show(i) == streams[i].kind \o "/" \o streams[i].how
Op(e) ==
    LET op == e.op
        next(i) == UNION {S!Step(s, Told(op, e.res[i])) : s \in After(i, op)}
        good(i) == {o.st : o \in {x \in next(i) : Agrees(x, op, e.res[i])}}
    IN
    /\ \A i \in DOMAIN streams : \A id \in Owners(op, streams[i].kind) :
         Must(id, "a " \o Show(i) \o " stream must not answer " \o ToString(e.res[i]) \o " to " \o ToString(op),
              After(i, op) # {} => good(i) # {})
    /\ \A i, j \in DOMAIN streams : i < j =>
         Must("C20", "streams " \o Show(i) \o " and " \o Show(j) \o " differ on " \o ToString(op) \o ": "
                     \o ToString(e.res[i]) \o ToString(e.res[j]),
              /\ (Growing(i) /\ Growing(j)) \/ (Null(i) /\ Null(j)) => e.res[i] = e.res[j]
              /\ clean /\ ((Growing(i) /\ Null(j)) \/ (Null(i) /\ Growing(j))) =>
                   IF op.op \in {"read", "get"}
                   THEN (\A k \in DOMAIN streams : Growing(k) => e.res[k].r = "ok") => e.res[i].r = e.res[j].r
                   ELSE e.res[i] = e.res[j])
    /\ may' = [i \in DOMAIN streams |->
                 IF After(i, op) = {} THEN {}       \* a relative move from an unknown position
                 ELSE IF good(i) # {} THEN good(i)
                 ELSE IF next(i) # {} THEN {o.st : o \in next(i)} ELSE may[i]]
    /\ sized' = (op.op = "size")
    /\ clean' = (clean /\ \A i \in DOMAIN streams : op.op \in {"read", "get", "write", "put"} => e.res[i].r = "ok")
    /\ UNCHANGED streams

(* one transfer of megabytes each way, on a stream that held e.pre bytes. Contents of this length are
   compared byte by byte where they are recorded; wrong and stored count the differences             *)
Longer(a, b) == IF a < b THEN b ELSE a
Bulk(e) ==
    LET size == Longer(e.pre, e.at + e.n)
        there == e.kind = "null" \/ e.from + e.m <= size
        what == " of megabytes, a " \o e.kind \o "/" \o e.how \o " stream: " \o ToString(e)
    IN
    /\ \A id \in {ByKind(e.kind), "C20"} :
         /\ Must(id, "write" \o what, e.wrote = "ok" /\ e.told = e.at + e.n /\ e.stored = 0 /\ e.closed = "ok")
         /\ Must(id, "read" \o what, IF there THEN e.got = "ok" /\ e.wrong = 0 /\ e.told2 = e.from + e.m ELSE e.got = "UnexpectedEof")
    /\ \A id \in {ByKind(e.kind), "C15", "C20"} : Must(id, "size after transfers" \o what, e.size = size /\ e.size2 = size)
    /\ UNCHANGED <<streams, may, sized, clean>>

(* closing: the data found in the memory or on the disk, where it can be seen *)
End(e) ==
    /\ \A i \in DOMAIN streams :
         \A id \in {ByKind(streams[i].kind), "C14", "C15", "C19"} :
         Must(id, "contents of the " \o Show(i) \o " stream afterwards",
              /\ e.res[i].r = "ok"
              /\ e.res[i].seen /\ may[i] # {} => \E s \in may[i] : s.data = e.res[i].data)
    /\ \A i, j \in DOMAIN streams : i < j /\ Growing(i) /\ Growing(j) /\ e.res[i].seen /\ e.res[j].seen =>
         Must("C20", "contents differ: " \o Show(i) \o ", " \o Show(j), e.res[i].data = e.res[j].data)
    /\ UNCHANGED <<streams, may, sized, clean>>

(* files are closed and opened again, which sets the position to the start *)
Reopen(e) ==
    /\ \A i \in DOMAIN streams :
         Must("C12", "closing and opening again", e.res[i].r = "ok")
    /\ may' = [i \in DOMAIN streams |-> {S!AtPos(s, S!W!Zero(4)) : s \in may[i]}]
    /\ UNCHANGED <<streams, sized, clean>>

New(e) == /\ streams' = [i \in DOMAIN e.streams |-> [kind |-> e.streams[i].kind, how |-> e.streams[i].how]]
          /\ may' = [i \in DOMAIN e.streams |-> {S!NewStream(e.streams[i].kind, e.streams[i].data)}]
          /\ sized' = FALSE
          /\ clean' = (\A i \in DOMAIN e.streams : e.streams[i].data = <<>>)

Init == l = 1 /\ streams = <<>> /\ may = <<>> /\ sized = FALSE /\ clean = TRUE
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "new"    -> New(Event)
             [] Event.ev = "op"     -> Op(Event)
             [] Event.ev = "bulk"   -> Bulk(Event)
             [] Event.ev = "reopen" -> Reopen(Event)
             [] Event.ev = "end"    -> End(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

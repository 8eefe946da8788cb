---------------------------- MODULE MC_Handles ----------------------------
(* All histories of a few streams on one small file. *)
EXTENDS Handles
CONSTANTS MaxLen, Bytes, Lens, Modes, MaxHandles
VARIABLES st, last
vars == <<st, last>>
Words == W!Word(Width)
MCFileMax == W!OfNat(7, 2)
Blocks == UNION {[1..n -> Bytes] : n \in Lens}
Ops == {[op |-> "read", n |-> n] : n \in Lens} \cup {[op |-> "write", b |-> b] : b \in Blocks}
       \cup {[op |-> "seek", from |-> f, off |-> o] : f \in {"start", "end", "current"}, o \in {W!OfNat(v, 2) : v \in {0, 1, 3, 7, 15}}}
       \cup {[op |-> "size"]} \cup {[op |-> "tell", seen |-> p] : p \in Words}
None == [h |-> 0, op |-> [op |-> "none"], r |-> "", val |-> <<>>]

Init == /\ \E d \in UNION {[1..n -> Bytes] : n \in 0..1} : st = Empty(d)
        /\ last = None
Room == Len(st.of) < MaxHandles
Bound(h, op) == op.op = "write" /\ Writable(Desc(st, h).mode) =>
                    (IF Appends(Desc(st, h).mode) THEN Len(st.data) ELSE W!ToNat(Desc(st, h).pos)) + Len(op.b) <= MaxLen
Apply(h, op) == /\ HandleEnabled(st, h, op) /\ Bound(h, op)
                /\ op.op = "tell" => Desc(st, h).vague
                /\ \E o \in Do(st, h, op) : st' = o.st /\ last' = [h |-> h, op |-> op, r |-> o.r, val |-> o.val]
Another == /\ Room /\ last' = None
           /\ (\E m \in Modes : st' = Opened(st, m)) \/ (\E h \in DOMAIN st.of : st' = Duplicated(st, h))
Next == \/ Another
        \/ \E h \in DOMAIN st.of, op \in Ops : Apply(h, op)
        \/ \E d \in {<<>>, <<1>>} : st' = Replaced(st, d) /\ last' = None
Spec == Init /\ [][Next]_vars

(* C35 *)
OwnPositions == [][last'.h # 0 => \A d \in DOMAIN st.descs : d # st.of[last'.h] => st'.descs[d] = st.descs[d]]_vars
OnlyWritesWrite == [][last'.h # 0 /\ (last'.op.op # "write" \/ last'.r # "ok") => st'.data = st.data]_vars
SameSize == \A h \in DOMAIN st.of : \A o \in Do(st, h, [op |-> "size"]) : o.val = w(Len(st.data)) /\ o.st = st
(* what is written through one stream is read through any other *)
Shared == \A h, g \in DOMAIN st.of : \A b \in Blocks :
    LET p == Desc(st, h).pos IN
    (Writable(Desc(st, h).mode) /\ ~Appends(Desc(st, h).mode) /\ ~Desc(st, h).vague /\ Readable(Desc(st, g).mode)
     /\ W!ToNat(p) + Len(b) <= MaxLen /\ W!Leq(p, FileMax) /\ b # <<>>) =>
    \A o \in Do(st, h, [op |-> "write", b |-> b]) : o.r = "ok" =>
      \A q \in Do(o.st, g, [op |-> "seek", from |-> "start", off |-> p]) : q.r = "ok" =>
        \A x \in Do(q.st, g, [op |-> "read", n |-> Len(b)]) : x.r = "ok" /\ x.val = b
(* appending loses nothing *)
AppendsKeep == [][(last'.h # 0 /\ Appends(Desc(st, last'.h).mode)) => SubSeq(st'.data, 1, Len(st.data)) = st.data]_vars
(* refused for lack of permission: nothing at all happens *)
Permissions == [][(last'.h # 0 /\ ~Writable(Desc(st, last'.h).mode)) => st'.data = st.data]_vars
Inv == SameSize /\ Shared
View == st
=============================================================================

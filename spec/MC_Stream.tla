----------------------------- MODULE MC_Stream -----------------------------
(* All histories over small streams: words of two digits in base 4 (0..15, offsets -8..7). One
   stream of every kind in Kinds is driven through the same operations (lock step).             *)
EXTENDS Stream
CONSTANTS Kinds, MaxLen, Bytes, Lens

VARIABLES st,        \* kind -> stream
          clean,     \* so far: no read beyond the end, no write of nothing, no refusal by a single kind
          last       \* the last operation with the results per kind
vars == <<st, clean, last>>

Words == W!Word(Width)
MCFileMax == W!OfNat(7, 2)
Blocks == UNION {[1..n -> Bytes] : n \in Lens}
Ops == {[op |-> "read", n |-> n] : n \in Lens}
       \cup {[op |-> "write", b |-> b] : b \in Blocks}
       \cup {[op |-> "seek", from |-> f, off |-> o] : f \in {"start", "end", "current"}, o \in Words}
       \cup {[op |-> "size"]}
       \cup {[op |-> "tell", seen |-> p] : p \in Words}

Init == /\ \E d \in UNION {[1..n -> Bytes] : n \in 0..2} :
             /\ st = [k \in Kinds |-> IF k = "null" THEN NewStream(k, <<>>) ELSE NewStream(k, d)]
             /\ clean = (d = <<>>)       \* the null stream starts empty
        /\ last = [op |-> [op |-> "none"], res |-> <<>>]

Bound(op, s) == op.op = "write" /\ s.kind \in Growing =>
                    W!ToNat(s.pos) + Len(op.b) <= MaxLen
Next == \E op \in Ops :
    /\ \A k \in Kinds : Enabled(st[k], op) /\ Bound(op, st[k])
    /\ op.op = "tell" => \E k \in Kinds : st[k].vague
    /\ \E res \in [Kinds -> UNION {Step(st[k], op) : k \in Kinds}] :
         /\ \A k \in Kinds : res[k] \in Step(st[k], op)
         /\ st' = [k \in Kinds |-> res[k].st]
         /\ last' = [op |-> op, res |-> res]
         /\ clean' = /\ clean
                     /\ \A k \in Kinds : ~res[k].st.vague
                     /\ (op.op = "write" => op.b # <<>>)
                     /\ (op.op = "read" => op.n # 0)
                     /\ (op.op = "seek" => \A j, k \in Kinds : res[j].r = res[k].r)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == \A k \in Kinds : /\ st[k].kind = k /\ st[k].pos \in Words
                           /\ \A i \in DOMAIN st[k].data : st[k].data[i] \in Bytes \cup {0}
(* C11/C12 *)
ReadsAreHarmless == [][last'.op.op \in {"read", "tell", "size", "seek"} =>
    \A k \in Kinds : st'[k].data = st[k].data /\ st'[k].used = st[k].used]_vars
FailedSeeksStay == [][last'.op.op = "seek" => \A k \in Kinds :
    last'.res[k].r # "ok" => st'[k] = st[k]]_vars
FixedStaysFixed == [][\A k \in Kinds \cap {"fixed"} : Len(st'[k].data) = Len(st[k].data)]_vars
NothingLost == [][last'.op.op = "write" => \A k \in Kinds :
    \A i \in DOMAIN st[k].data :
        \/ st'[k].data[i] = st[k].data[i]
        \/ W!ToNat(st[k].pos) < i /\ i <= W!ToNat(st[k].pos) + Len(last'.op.b)]_vars
GapsAreZero == [][last'.op.op = "write" => \A k \in Kinds :
    \A i \in DOMAIN st'[k].data :
        i > Len(st[k].data) /\ i <= W!ToNat(st[k].pos) => st'[k].data[i] = 0]_vars
NullIsZero == [][last'.op.op = "read" => \A k \in Kinds \cap {"null"} :
    \A i \in DOMAIN last'.res[k].val : last'.res[k].val[i] = 0]_vars
(* C14 in essence: what is written can be read back at the same place *)
RoundTrip == \A k \in Kinds \cap Storing : \A b \in Blocks :
    (~st[k].vague /\ Small(st[k].pos) /\ Bound([op |-> "write", b |-> b], st[k])) =>
    \A o \in WriteStep(st[k], b) : o.r = "ok" =>
        LET back == AtPos(o.st, st[k].pos) IN
        \A x \in ReadStep(back, Len(b)) : x.r = "ok" /\ x.val = b
(* C15 *)
SizeIsPure == \A k \in Kinds : \A o \in SizeStep(st[k]) :
    o.st = st[k] /\ o.val = LenW(st[k]) /\ o.r = "ok"
(* C13, C20 *)
InStep == clean => \A j, k \in Kinds : /\ LenW(st[j]) = LenW(st[k]) \/ "fixed" \in {j, k}
                                       /\ st[j].pos = st[k].pos
SameBytes == clean => \A j, k \in Kinds \cap Growing : st[j].data = st[k].data
Total == \A op \in Ops : \A k \in Kinds : Enabled(st[k], op) /\ op.op # "tell" => Step(st[k], op) # {}
Inv == TypeOK /\ RoundTrip /\ SizeIsPure /\ InStep /\ SameBytes /\ Total
View == <<st, clean>>
Clean == clean
=============================================================================

------------------------------ MODULE T_Curves ------------------------------
(* Validates recorded evaluations of the built-in curves. A result is <<>> if the call panicked. *)
EXTENDS Tracing, Curves

Told(v) == "[" \o FShow(v) \o "]"
Where(e, x) == "curve type " \o ToString(e.t) \o " at " \o Told(x)
(* z is what the reversed curve gives for y *)
Back(e, y, z) ==
    /\ Must("C41", "no panic, reversed " \o Where(e, y), z # <<>>)
    /\ z # <<>> => Must("C41", "value of the documented branch, reversed " \o Where(e, y),
          e.t # 109 /\ ClearBack(e.t, e.p, y) =>
              LET ws == Reversed(e.t, e.p, y) IN \E i \in DOMAIN ws : SameBack(e.t, e.p, z, ws[i]))
Curve(e) ==
    /\ \A i \in DOMAIN e.fwd : e.fwd[i][2] # <<>> /\ FFinite(e.fwd[i][2]) => Back(e, e.fwd[i][2], e.fwd[i][3])
    /\ \A i \in DOMAIN e.inv : Back(e, e.inv[i][1], e.inv[i][2])
    /\ \A i \in DOMAIN e.fwd :
        LET x == e.fwd[i][1] y == e.fwd[i][2] z == e.fwd[i][3] IN
        /\ Must("C28", "no panic, " \o Where(e, x), y # <<>>)
        /\ y # <<>> => Must("C28", "value of the branch the input falls in, " \o Where(e, x),
               e.t # 109 /\ Clear(e.t, e.p, x) => Same(y, Forward(e.t, e.p, x)))
        /\ y # <<>> => Must("C29", "the inverse must not panic, " \o Where(e, x), z # <<>>)
        /\ y # <<>> /\ z # <<>> => Must("C29", "the inverse of the value must be the input, " \o Where(e, x),
               Invertible(e.t, e.p, x) /\ Measurable(e.t, e.p, x) => Undone(e.t, e.p, x, z))
    /\ \A i \in DOMAIN e.inv :
        LET y == e.inv[i][1] z == e.inv[i][2] c == Degenerate(e.t, e.p, y) IN
        /\ Must("C29", "no panic, inverse of " \o Where(e, y), z # <<>>)
        /\ z # <<>> => Must("C29", "constant for a slope or exponent of zero, inverse of " \o Where(e, y),
               c # <<>> /\ ~EdgeCase(e.p) => FEq(z, c[1]))

Listing(e) == Must("C30", "the set must list exactly the documented curves",
    /\ {<<e.curves[i][1], e.curves[i][2]>> : i \in DOMAIN e.curves} = {<<Types[i], Parameters[i]>> : i \in DOMAIN Types}
    /\ Len(e.curves) = Len(Types))
Known(t) == {i \in DOMAIN Types : t = Types[i] \/ t = 0 - Types[i]}
Number(e) ==
    /\ Must("C30", "looking up " \o ToString(e.t) \o " must find its curve and nothing else",
            e.found = IF Known(e.t) = {} THEN <<>> ELSE <<Types[CHOOSE i \in Known(e.t) : TRUE]>>)
    /\ Must("C30", "a type outside of the set evaluates to zero: " \o ToString(e.t),
            Known(e.t) = {} => e.val # <<>> /\ e.val[1] # <<>> /\ FEq(e.val[1], Zero))
Own(e) ==
    \A i \in DOMAIN e.found :
        Must("C30", "looking up " \o ToString(e.found[i][1]) \o " in a set of curves must find the first one of that number",
             e.found[i][2] = Find(e.ids, e.found[i][1]))
SameResult(a, b) == FEq(a, b) \/ (FNaN(a) /\ FNaN(b))
ExactCount(e) ==
    LET rs == <<e.fwd, e.bwd, e.fwd2, e.bwd2>> IN
    /\ Must("C30", "the listed number of parameters is enough for " \o Where(e, e.x), \A i \in 1..4 : rs[i] # <<>>)
    /\ (\A i \in 1..4 : rs[i] # <<>>) =>
       Must("C30", "further parameters do not matter for " \o Where(e, e.x), SameResult(e.fwd, e.fwd2) /\ SameResult(e.bwd, e.bwd2))

Eps == FOf(1, 1000000000)
Near(a, b) == FLeq(FAbs(FSub(a, b)), Eps)
(* near the ends the inverse of a steep sigmoid is ill-conditioned *)
NearBack(a, b) == FLeq(FAbs(FSub(a, b)), FOf(1, 1000000))
Apart == FOf(1, 100000)
Shape(e) ==
    LET X(i) == e.pts[i][1] Y(i) == e.pts[i][2] M(i) == e.pts[i][3]
        ok == \A i \in DOMAIN e.pts : Y(i) # <<>> /\ M(i) # <<>>
        At == " (steepness or exponent " \o FShow(e.k) \o ")"
    IN
    /\ Must("C31", "no panic" \o At, ok /\ \A i \in DOMAIN e.inv : e.inv[i] # <<>>)
    /\ ok => \A i \in DOMAIN e.pts :
        /\ Must("C31", "0 and 1 stay" \o At, (FEq(X(i), Zero) \/ FEq(X(i), One)) => Near(Y(i), X(i)))
        /\ e.t = 109 =>
            /\ Must("C31", "the middle stays" \o At, FEq(X(i), Half) => Near(Y(i), Half))
            /\ Must("C31", "symmetric about the middle" \o At, Near(FAdd(Y(i), M(i)), One))
            /\ i > 1 => Must("C31", "strictly rising" \o At, FLeq(FAdd(X(i - 1), Apart), X(i)) => FLt(Y(i - 1), Y(i)))
        /\ e.t = 108 =>
            /\ i > 1 => Must("C31", "never falling" \o At, FLeq(Y(i - 1), FAdd(Y(i), FOf(1, 1000000000))))
            /\ Must("C31", "the identity" \o At, FEq(e.k, One) => Near(Y(i), X(i)))
    /\ Must("C31", "the inverse keeps 0 and 1" \o At, NearBack(e.inv[1], Zero) /\ NearBack(e.inv[3], One))
    /\ e.t = 109 => Must("C31", "the inverse keeps the middle" \o At, Near(e.inv[2], Half))

Init == l = 1
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "curve"   -> Curve(Event)
             [] Event.ev = "listing" -> Listing(Event)
             [] Event.ev = "number"  -> Number(Event)
             [] Event.ev = "own"     -> Own(Event)
             [] Event.ev = "exact"   -> ExactCount(Event)
             [] Event.ev = "shape"   -> Shape(Event)
Spec == Init /\ [][Next]_l
=============================================================================

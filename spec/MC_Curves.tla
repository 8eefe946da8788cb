------------------------------ MODULE MC_Curves ------------------------------
(* Laws of the curve definitions themselves, over grids of parameters and inputs (in units of 1/Unit). *)
EXTENDS Curves, TLC, FiniteSets
CONSTANTS Gammas, Coeffs, Inputs, Unit
VARIABLE c
Coeffs1 == {-16, 0, 4, 16}
Inputs1 == {0, 1, 4, 8, 15, 16, 24}
Coeffs2 == {-16, -5, 0, 4, 16, 23}
Inputs2 == {-16, 0, 1, 4, 8, 12, 15, 16, 24, 40}
q(n) == FOf(n, Unit)
Params(t) ==
    CASE t \in {1, 108, 109} -> {<<q(g)>> : g \in Gammas}
      [] t = 2 -> {<<q(g), q(a), q(b)>> : g \in Gammas, a \in Coeffs, b \in Coeffs}
      [] t \in {3, 6} -> {<<q(g), q(a), q(b), q(d)>> : g \in Gammas, a \in Coeffs, b \in Coeffs, d \in Coeffs}
      [] t \in {4, 7, 8} -> {<<q(g), q(a), q(b), q(d), q(e)>> : g \in Gammas, a \in Coeffs, b \in Coeffs, d \in Coeffs, e \in Coeffs}
      [] t = 5 -> {<<q(g), q(a), q(b), q(d), q(e), q(f), q(h)>> : g \in Gammas, a \in Coeffs \cap 1..100000, b \in Coeffs, d \in Coeffs \cap 1..100000,
                                                           e \in Coeffs, f \in Coeffs, h \in Coeffs}
Init == \E i \in DOMAIN Types : \E p \in Params(Types[i]), x \in Inputs : c = [t |-> Types[i], p |-> p, x |-> q(x)]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
(* the inverse undoes the curve wherever it can be undone *)
RoundTrip == Invertible(c.t, c.p, c.x) /\ Measurable(c.t, c.p, c.x) => Undone(c.t, c.p, c.x, Inverse(c.t, c.p, Forward(c.t, c.p, c.x)))
(* curves with the parameters that let them be undone rise (or fall) in steps *)
Rising == c.t \in {1, 2, 3, 4, 5, 108, 109} /\ Invertible(c.t, c.p, c.x) /\ Measurable(c.t, c.p, c.x) =>
          \A x2 \in Inputs : FLt(c.x, q(x2)) /\ Invertible(c.t, c.p, q(x2)) => FLeq(Forward(c.t, c.p, c.x), Forward(c.t, c.p, q(x2)))
Shapes == LET k == c.p[1] f(x) == Forward(c.t, c.p, x) IN
    /\ c.t = 109 /\ Pos(k) => /\ Same(f(Zero), Zero) /\ Same(f(One), One) /\ Same(f(Half), Half)
                              /\ Same(FAdd(f(c.x), f(FSub(One, c.x))), One)
    /\ c.t = 108 /\ Pos(k) => /\ Same(f(Zero), Zero) /\ Same(f(One), One)
                              /\ (k = One => Same(f(c.x), c.x))
(* the documented reversed curve undoes the curve, and meets its pieces *)
RoundTripBack == c.t # 109 /\ Invertible(c.t, c.p, c.x) /\ Measurable(c.t, c.p, c.x) /\ ~EdgeCase(c.p) =>
    LET y == Forward(c.t, c.p, c.x) ws == Reversed(c.t, c.p, y) IN
    \E i \in DOMAIN ws : Undone(c.t, c.p, c.x, ws[i])
(* where a slope or an exponent of zero has a constant of its own, it is that of the definition *)
SameConstants == c.t # 109 /\ Degenerate(c.t, c.p, c.x) # <<>> => Reversed(c.t, c.p, c.x) = Degenerate(c.t, c.p, c.x)
Inv1 == RoundTripBack /\ SameConstants /\ RoundTrip /\ Rising /\ Shapes
=============================================================================

------------------------------- MODULE Curves -------------------------------
(* The built-in parametric curves, in double precision. p holds the parameters from index 1. *)
EXTENDS Integers, Sequences, Floats

Zero == FOf(0, 1)
One  == FOf(1, 1)
Half == FOf(1, 2)
Tol  == FOf(1, 10000)
PlusInf == FMul(FOf(100000, 1), FMul(FOf(100000, 1), FMul(FOf(1000000, 1), FOf(1000000, 1))))   \* 1e22
Tiny(a) == FLt(FAbs(a), Tol)
Lin(a, x, b) == FAdd(FMul(a, x), b)
Inv(g) == FDiv(One, g)

(* number of parameters of the curves of the set *)
Types == <<1, 2, 3, 4, 5, 6, 7, 8, 108, 109>>
Parameters == <<1, 3, 4, 5, 7, 4, 5, 5, 1, 1>>
(* the curve of a set that is found under the number t, of either sign: the first *)
Find(ids, t) ==
    LET hit == {i \in DOMAIN ids : ids[i] >= 0 /\ (t = ids[i] \/ t = 0 - ids[i])} IN
    IF hit = {} THEN <<>> ELSE <<CHOOSE i \in hit : \A j \in hit : i <= j>>
Position(t) == IF \E i \in DOMAIN Types : Types[i] = t THEN CHOOSE i \in DOMAIN Types : Types[i] = t ELSE 0

---------------------------------------------------------------------------
(* Sigmoids *)
SBase(k, t) == FSub(FDiv(One, FAdd(One, FExp(FNeg(FMul(k, t))))), Half)
IBase(k, t) == FDiv(FNeg(FLn(FSub(FDiv(One, FAdd(t, Half)), One))), k)
Corr(k) == FDiv(Half, SBase(k, One))
Sigmoid(k, x) == FAdd(FMul(Corr(k), SBase(k, FSub(FMul(FOf(2, 1), x), One))), Half)
InvSigmoid(k, y) == FMul(FAdd(IBase(k, FDiv(FSub(y, Half), Corr(k))), One), Half)

(* The value of a curve: pieces with their conditions *)
PowOr(e, g, plus, otherwise) == IF FLt(Zero, e) THEN FAdd(FPow(e, g), plus) ELSE otherwise
Forward(t, p, x) ==
    CASE t = 1 -> IF FLt(x, Zero) THEN IF Tiny(FSub(p[1], One)) THEN x ELSE Zero ELSE FPow(x, p[1])
      [] t = 2 -> IF Tiny(p[2]) THEN Zero
                  ELSE IF FLeq(FDiv(FNeg(p[3]), p[2]), x) THEN PowOr(Lin(p[2], x, p[3]), p[1], Zero, Zero) ELSE Zero
      [] t = 3 -> IF Tiny(p[2]) THEN Zero
                  ELSE IF FLeq(FMax(FDiv(FNeg(p[3]), p[2]), Zero), x)
                       THEN PowOr(Lin(p[2], x, p[3]), p[1], p[4], Zero) ELSE p[4]
      [] t = 4 -> IF FLeq(p[5], x) THEN PowOr(Lin(p[2], x, p[3]), p[1], Zero, Zero) ELSE FMul(x, p[4])
      [] t = 5 -> IF FLeq(p[5], x) THEN PowOr(Lin(p[2], x, p[3]), p[1], p[6], p[6]) ELSE Lin(p[4], x, p[7])
      [] t = 6 -> LET e == Lin(p[2], x, p[3]) IN IF FLt(e, Zero) THEN p[4] ELSE FAdd(FPow(e, p[1]), p[4])
      [] t = 7 -> LET e == Lin(p[3], FPow(x, p[1]), p[4]) IN
                  IF FLeq(e, Zero) THEN p[5] ELSE FAdd(FMul(p[2], FLog10(e)), p[5])
      [] t = 8 -> FAdd(FMul(p[1], FPow(p[2], Lin(p[3], x, p[4]))), p[5])
      [] t = 108 -> IF Tiny(p[1]) THEN Zero
                    ELSE FPow(FSub(One, FPow(FSub(One, x), Inv(p[1]))), Inv(p[1]))
      [] t = 109 -> Sigmoid(p[1], x)

(* The inverse, on the range of the curve *)
Inverse(t, p, y) ==
    CASE t = 1 -> IF FLt(y, Zero) THEN IF Tiny(FSub(p[1], One)) THEN y ELSE Zero
                  ELSE IF Tiny(p[1]) THEN PlusInf ELSE FPow(y, Inv(p[1]))
      [] t = 2 -> FMax(Zero, FDiv(FSub(FPow(FMax(Zero, y), Inv(p[1])), p[3]), p[2]))
      [] t = 3 -> IF FLeq(y, p[4]) THEN FDiv(FNeg(p[3]), p[2])
                  ELSE FDiv(FSub(FPow(FSub(y, p[4]), Inv(p[1])), p[3]), p[2])
      [] t = 4 -> IF FLeq(FPow(FMax(Zero, Lin(p[2], p[5], p[3])), p[1]), y)
                  THEN FDiv(FSub(FPow(y, Inv(p[1])), p[3]), p[2]) ELSE FDiv(y, p[4])
      [] t = 5 -> IF FLeq(Lin(p[4], p[5], p[7]), y)
                  THEN FDiv(FSub(FPow(FMax(Zero, FSub(y, p[6])), Inv(p[1])), p[3]), p[2]) ELSE FDiv(FSub(y, p[7]), p[4])
      [] t = 6 -> FDiv(FSub(FPow(FSub(y, p[4]), Inv(p[1])), p[3]), p[2])
      [] t = 7 -> FPow(FDiv(FSub(FPow(FOf(10, 1), FDiv(FSub(y, p[5]), p[2])), p[4]), p[3]), Inv(p[1]))
      [] t = 8 -> FDiv(FSub(FDiv(FLog10(FDiv(FSub(y, p[5]), p[1])), FLog10(p[2])), p[4]), p[3])
      [] t = 108 -> FSub(One, FPow(FSub(One, FPow(y, p[1])), p[1]))
      [] t = 109 -> InvSigmoid(p[1], y)

---------------------------------------------------------------------------
(* Numbers on which all arithmetic of the conditions is exact: short binary fractions (and divisors that
   are powers of two). Elsewhere an input too close to a boundary computed from parameters says nothing. *)
Short(a) == FLt(FAbs(a), FOf(1024, 1)) /\ FWhole(FMul(a, FOf(1024, 1)))
PowersOfTwo == {FOf(1, 1), FOf(2, 1), FOf(4, 1), FOf(1, 2), FOf(1, 4), FOf(8, 1), FOf(1, 8)}
Exact(t, p, x) == /\ Short(x) /\ \A i \in DOMAIN p : Short(p[i])
                  /\ t \in {2, 3} => FAbs(p[2]) \in PowersOfTwo
                  /\ t = 7 => FWhole(p[1]) /\ FLeq(Zero, p[1]) /\ FLeq(p[1], FOf(2, 1)) /\ FLt(FAbs(x), FOf(16, 1))
Close(a, b) == FLeq(FAbs(FSub(a, b)), FMul(FOf(1, 10000000), FMax(One, FMax(FAbs(a), FAbs(b)))))
(* a parameter at the very edge of the tolerance *)
Edge(a) == FLt(FAbs(FSub(FAbs(a), Tol)), FOf(1, 1000000000))
Clear(t, p, x) ==
    /\ t = 1 => ~Edge(FSub(p[1], One))
    /\ t \in {2, 3} => ~Edge(p[2])
    /\ t = 108 => ~Edge(p[1])
    /\ ~Exact(t, p, x) =>
        CASE t \in {2, 3} -> Tiny(p[2]) \/ (~Close(FMul(p[2], x), FNeg(p[3])) /\ ~Close(x, FMax(Zero, FDiv(FNeg(p[3]), p[2]))))
          [] t \in {4, 5, 6} -> ~Close(FMul(p[2], x), FNeg(p[3]))
          [] t = 7 -> ~Close(FMul(p[3], FPow(x, p[1])), FNeg(p[4]))
          [] t = 108 -> FEq(x, Zero) \/ FEq(x, One) \/ Tiny(p[1]) \/ FLt(FOf(1, 1000000), FAbs(FSub(One, FPow(FSub(One, x), Inv(p[1])))))
          [] OTHER -> TRUE
Big == FMul(PlusInf, FMul(PlusInf, PlusInf))
(* equal up to rounding; results that are no numbers say nothing, of those beyond all measure only this
   (and their sign) has to be right                                                                    *)
Beyond(a) == FLt(Big, FAbs(a))
SameSide(a, b) == FLt(a, Zero) = FLt(b, Zero)
Same(got, want) ==
    \/ FNaN(want)
    \/ ~FFinite(want) /\ got = want
    \/ Beyond(want) /\ ~FNaN(got) /\ FLt(PlusInf, FAbs(got)) /\ SameSide(got, want)
    \/ FFinite(got) /\ FFinite(want) /\ FLeq(FAbs(FSub(got, want)), FMul(FOf(1, 100000000), FMax(One, FAbs(want))))

---------------------------------------------------------------------------
(* Parameters and inputs for which a curve can be undone *)
Pos(a) == FLeq(FOf(1, 50), a)
Base(t, p, x) == Lin(p[2], x, p[3])
WellAbove(a, b) == FLeq(FAdd(b, FOf(1, 100)), a)
Invertible(t, p, x) ==
    CASE t = 1 -> Pos(p[1]) /\ (FLeq(Zero, x) \/ Tiny(FSub(p[1], One))) /\ ~Edge(FSub(p[1], One))
      [] t = 2 -> Pos(p[1]) /\ Pos(p[2]) /\ FLeq(Zero, x) /\ WellAbove(Base(t, p, x), Zero)
      [] t = 3 -> Pos(p[1]) /\ Pos(p[2]) /\ FLeq(Zero, x) /\ WellAbove(Base(t, p, x), Zero)
      [] t = 4 -> /\ Pos(p[1]) /\ Pos(p[2]) /\ Pos(p[4])
                  /\ LET e == Lin(p[2], p[5], p[3]) IN
                     /\ FLeq(Zero, e) /\ FLeq(FMul(p[4], p[5]), FPow(e, p[1]))
                     \* the inverse starts its upper piece exactly at the value of the joint
                     /\ IF FLeq(p[5], x) THEN WellAbove(Base(t, p, x), Zero) /\ (Exact(t, p, x) \/ ~Close(x, p[5]))
                        ELSE ~Close(x, p[5])
      [] t = 5 -> /\ Pos(p[1]) /\ Pos(p[2]) /\ Pos(p[4])
                  /\ LET e == Lin(p[2], p[5], p[3]) IN
                     /\ FLeq(Zero, e) /\ FLeq(Lin(p[4], p[5], p[7]), FAdd(FPow(e, p[1]), p[6]))
                     /\ IF FLeq(p[5], x) THEN WellAbove(Base(t, p, x), Zero) ELSE ~Close(x, p[5])
      [] t = 6 -> Pos(p[1]) /\ Pos(FAbs(p[2])) /\ WellAbove(Base(t, p, x), Zero)
      [] t = 7 -> /\ Pos(p[1]) /\ Pos(FAbs(p[2])) /\ Pos(FAbs(p[3])) /\ Pos(x)
                  /\ WellAbove(Lin(p[3], FPow(x, p[1]), p[4]), Zero)
      [] t = 8 -> Pos(p[1]) /\ Pos(p[2]) /\ Pos(FAbs(FLog10(p[2]))) /\ Pos(FAbs(p[3]))
      [] t = 108 -> FLeq(FOf(1, 10), p[1]) /\ FLeq(p[1], FOf(10, 1)) /\ FLeq(Zero, x) /\ FLeq(x, One)
      [] t = 109 -> FLeq(FOf(1, 100), p[1]) /\ FLeq(p[1], FOf(20, 1)) /\ FLeq(Zero, x) /\ FLeq(x, One)
(* How well: a change of the curve by a rounding error must not stand for a big change of the input *)
Step(x) == FMul(FOf(1, 1000000), FMax(One, FAbs(x)))
Slope(t, p, x) == FDiv(FSub(Forward(t, p, FAdd(x, Step(x))), Forward(t, p, x)), Step(x))
SlopeBack(t, p, x) == FDiv(FSub(Forward(t, p, x), Forward(t, p, FSub(x, Step(x)))), Step(x))
GoodAt(s, y) == FFinite(s) /\ FLt(FOf(1, 10000), FAbs(s)) /\ FLt(FAbs(s), FMul(FOf(100000000, 1), FMax(One, FAbs(y))))
Good(s) == GoodAt(s, One)
(* a slope on the side of the joint on which the input lies *)
BestSlope(t, p, x) ==
    IF t \in {4, 5} THEN IF FLeq(p[5], x) THEN Slope(t, p, x) ELSE SlopeBack(t, p, x)
    ELSE IF Good(Slope(t, p, x)) THEN Slope(t, p, x) ELSE SlopeBack(t, p, x)
RECURSIVE Largest(_, _)
Largest(p, i) == IF i = 0 THEN One ELSE FMax(FAbs(p[i]), Largest(p, i - 1))
Scale(t, p, x) == FMax(FAbs(Forward(t, p, x)), Largest(p, Len(p)))
Allowance(t, p, x) ==
    LET s == BestSlope(t, p, x) IN
    FAdd(FMul(FOf(1, 100000000), FMax(One, FAbs(x))), FDiv(FMul(FOf(1, 1000000000), FMul(FOf(1, 10), Scale(t, p, x))), FAbs(s)))
Measurable(t, p, x) ==
    /\ FFinite(Forward(t, p, x)) /\ FLt(FAbs(Forward(t, p, x)), FMul(PlusInf, PlusInf))
    /\ GoodAt(BestSlope(t, p, x), Forward(t, p, x))
    /\ t = 108 => FLt(Allowance(t, p, x), FOf(1, 1000))
Undone(t, p, x, z) == FFinite(z) /\ FLeq(FAbs(FSub(z, x)), Allowance(t, p, x))

(* The constant of an inverse that would divide by zero: <<>> if there is none *)
Degenerate(t, p, y) ==
    CASE t = 1 -> IF Tiny(p[1]) /\ FLeq(Zero, y) THEN <<PlusInf>> ELSE <<>>
      [] t = 2 -> IF Tiny(p[1]) \/ Tiny(p[2]) THEN <<Zero>> ELSE <<>>
      [] t = 4 -> LET e == Lin(p[2], p[5], p[3])
                      brk == IF FLt(e, Zero) THEN Zero ELSE FPow(e, p[1]) IN
                  IF ~FFinite(brk) \/ Close(brk, y) \/ Close(FMul(p[2], p[5]), FNeg(p[3])) THEN <<>>
                  ELSE IF FLeq(brk, y) THEN IF Tiny(p[1]) \/ Tiny(p[2]) THEN <<Zero>> ELSE <<>>
                  ELSE IF Tiny(p[4]) THEN <<Zero>> ELSE <<>>
      [] t = 5 -> IF Close(Lin(p[4], p[5], p[7]), y) THEN <<>>
                  ELSE IF FLeq(Lin(p[4], p[5], p[7]), y) THEN IF Tiny(p[1]) \/ Tiny(p[2]) THEN <<Zero>> ELSE <<>>
                  ELSE IF Tiny(p[4]) THEN <<Zero>> ELSE <<>>
      [] t = 7 -> IF Tiny(p[1]) \/ Tiny(p[2]) \/ Tiny(p[3]) THEN <<Zero>> ELSE <<>>
      [] t = 8 -> IF Tiny(p[1]) \/ Tiny(p[3]) THEN <<Zero>> ELSE <<>>
      [] OTHER -> <<>>
EdgeCase(p) == \E i \in DOMAIN p : Edge(p[i])

---------------------------------------------------------------------------
(* The reversed curves as they are documented, for every value, also one the curve never takes: the values
   that may be given. Where the value is the constant of type 3, the documented -b/a and the zero of the
   upstream evaluator are both preimages at best.                                                      *)
RootOf(p, y, c) == FDiv(FSub(FPow(FSub(y, c), Inv(p[1])), p[3]), p[2])
Joint4(p) == LET e == Lin(p[2], p[5], p[3]) IN IF FLt(e, Zero) THEN Zero ELSE FPow(e, p[1])
Reversed(t, p, y) ==
    CASE t = 1 -> <<IF FLt(y, Zero) THEN IF Tiny(FSub(p[1], One)) THEN y ELSE Zero
                    ELSE IF Tiny(p[1]) THEN PlusInf ELSE FPow(y, Inv(p[1]))>>
      [] t = 2 -> IF Tiny(p[1]) \/ Tiny(p[2]) \/ FLt(y, Zero) THEN <<Zero>>
                  ELSE LET v == RootOf(p, y, Zero) IN IF FLt(v, Zero) THEN <<Zero>> ELSE <<v>>
      [] t = 3 -> IF Tiny(p[2]) THEN <<Zero>>
                  ELSE IF FLt(y, p[4]) THEN <<FDiv(FNeg(p[3]), p[2])>>
                  ELSE IF FEq(y, p[4]) THEN <<FDiv(FNeg(p[3]), p[2]), Zero>>
                  ELSE <<RootOf(p, y, p[4])>>
      [] t = 4 -> IF FLeq(Joint4(p), y) THEN IF Tiny(p[1]) \/ Tiny(p[2]) THEN <<Zero>> ELSE <<RootOf(p, y, Zero)>>
                  ELSE IF Tiny(p[4]) THEN <<Zero>> ELSE <<FDiv(y, p[4])>>
      [] t = 5 -> IF FLeq(Lin(p[4], p[5], p[7]), y)
                  THEN IF FLt(y, p[6]) \/ Tiny(p[1]) \/ Tiny(p[2]) THEN <<Zero>> ELSE <<RootOf(p, y, p[6])>>
                  ELSE IF Tiny(p[4]) THEN <<Zero>> ELSE <<FDiv(FSub(y, p[7]), p[4])>>
      [] t = 6 -> IF Tiny(p[2]) \/ FLt(y, p[4]) THEN <<Zero>> ELSE <<RootOf(p, y, p[4])>>
      [] t = 7 -> IF Tiny(p[1]) \/ Tiny(p[2]) \/ Tiny(p[3]) THEN <<Zero>>
                  ELSE <<FPow(FDiv(FSub(FPow(FOf(10, 1), FDiv(FSub(y, p[5]), p[2])), p[4]), p[3]), Inv(p[1]))>>
      [] t = 8 -> IF FLt(y, p[5]) \/ Tiny(p[1]) \/ Tiny(p[3]) THEN <<Zero>>
                  ELSE <<FDiv(FSub(FDiv(FLog10(FDiv(FSub(y, p[5]), p[1])), FLog10(p[2])), p[4]), p[3])>>
      [] t = 108 -> <<FSub(One, FPow(FSub(One, FPow(y, p[1])), p[1]))>>
(* clear of boundaries that are themselves computed, and not a small difference of large numbers *)
Shorts(p, y) == Short(y) /\ \A i \in DOMAIN p : Short(p[i])
ClearBack(t, p, y) ==
    /\ ~EdgeCase(p) /\ (t = 1 => ~Edge(FSub(p[1], One)))
    /\ CASE t = 4 -> LET j == Joint4(p) IN
                     IF Shorts(p, y) /\ FWhole(p[1]) /\ FLeq(Zero, p[1]) /\ FLeq(p[1], FOf(2, 1)) THEN TRUE
                     ELSE FFinite(j) /\ ~Close(j, y) /\ ~Close(FMul(p[2], p[5]), FNeg(p[3]))
         [] t = 5 -> Shorts(p, y) \/ ~Close(Lin(p[4], p[5], p[7]), y)
         [] t = 7 -> LET w == FDiv(FSub(y, p[5]), p[2]) v == FPow(FOf(10, 1), w) IN
                     Tiny(p[1]) \/ Tiny(p[2]) \/ Tiny(p[3])
                     \/ (/\ FLt(FAbs(w), FOf(100, 1)) /\ FLeq(FOf(1, 50), FAbs(p[1]))
                         /\ FLt(FMul(FOf(1, 1000), FMax(v, FAbs(p[4]))), FAbs(FSub(v, p[4]))))
         [] t = 8 -> FLt(FOf(1, 1000), FAbs(FLog10(p[2])))
         [] t = 108 -> /\ FLt(FAbs(p[1]), FOf(50, 1))
                       /\ FEq(y, Zero) \/ FEq(y, One) \/ FLt(FOf(1, 1000000), FAbs(FSub(One, FPow(y, p[1]))))
         [] OTHER -> TRUE
(* one rounding error of a large intermediate number *)
Spread(t, p) == CASE t \in {2, 3, 4, 5, 6} -> FAbs(FDiv(p[3], p[2]))
                  [] t = 8 -> FAbs(FDiv(p[4], p[3]))
                  [] OTHER -> One
SameBack(t, p, got, want) ==
    \/ Same(got, want)
    \/ /\ FFinite(got) /\ FFinite(want) /\ FFinite(Spread(t, p))
       /\ FLeq(FAbs(FSub(got, want)), FMul(FOf(1, 1000000000), FMul(FOf(1, 1000), Spread(t, p))))
=============================================================================

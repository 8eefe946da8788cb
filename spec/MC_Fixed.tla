----------------------------- MODULE MC_Fixed -----------------------------
(* Checks the fixed-point rules against arithmetic on integers, exhaustively for a tiny digit base:
   Base^2 raw values and Base^4 numbers. One state per number.                                    *)
EXTENDS Fixed
VARIABLE q
Val(x) == LET n == W!ToNat(x) IN
          IF W!Negative(x) THEN n - (IF Len(x) = 2 THEN Base * Base ELSE Base * Base * Base * Base) ELSE n
Unit == Base * Base          \* 1.0
Raws == W!Word(2)
Init == q = W!Zero(4)
(* each number from the one before *)
Next == q # W!Top(4) /\ q' = W!AddC(q, <<0, 0, 0, 1>>).word
Spec == Init /\ [][Next]_q
Abs(x) == IF x < 0 THEN -x ELSE x
(* twice the distance, in units of Base^-2, between q and what raw stands for *)
Dist(r) == Abs(Val(q) - Val(r) * Base)
InRange == Val(q) <= Val(MaxRaw) * Base /\ Val(q) >= Val(MinRaw) * Base
Nearest == LET e == Encode(q) IN
    /\ InRange => \A r \in Raws : \/ Dist(e) < Dist(r)
                                  \/ Dist(e) = Dist(r) /\ Val(e) >= Val(r)
    /\ Val(q) > Val(MaxRaw) * Base => e = MaxRaw
    /\ Val(q) < Val(MinRaw) * Base => e = MinRaw
DecodeExact == \A r \in Raws : Val(Decode(r)) = Val(r) * Base
Identity == q = W!Zero(4) => \A r \in Raws : Encode(Decode(r)) = r
Monotone == q # W!Top(4) /\ ~W!Negative(q) /\ q # <<Base \div 2 - 1, Base - 1, Base - 1, Base - 1>> =>
    Val(Encode(W!AddC(q, <<0, 0, 0, 1>>).word)) >= Val(Encode(q))
Inv == Nearest /\ Monotone /\ Identity
ASSUME DecodeExact
=============================================================================

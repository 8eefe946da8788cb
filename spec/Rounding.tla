------------------------------ MODULE Rounding ------------------------------
(* 15.16 fixed point from doubles: the nearest raw value, ties upwards, clamped. Scaling by a power of two,
   taking the integer below and the difference to it are exact, so no case is lost to rounding. (Far below
   zero in the last place the difference rounds to one, on the same side of one half.)                 *)
EXTENDS Integers, Sequences, Floats
Scaled(v) == FMul(v, FOf(65536, 1))
Top    == FOf(2147483647, 1)
Bottom == FNeg(FMul(FOf(1073741824, 1), FOf(2, 1)))
Raw(v) == LET x == Scaled(v) IN
          FHalves(IF FLeq(Top, x) THEN Top
                  ELSE IF FLeq(x, Bottom) THEN Bottom
                  ELSE IF FLeq(FOf(1, 2), FSub(x, FFloor(x))) THEN FAdd(FFloor(x), FOf(1, 1)) ELSE FFloor(x))
=============================================================================

------------------------------- MODULE Fixed -------------------------------
(* 15.16 fixed point. A raw value is a two's complement word of two digits, the number it stands
   for is an exact two's complement word of four digits, the point between the second and third. *)
EXTENDS Integers, Sequences
CONSTANT Base
W == INSTANCE Words

Sign(x) == IF W!Negative(x) THEN Base - 1 ELSE 0

Decode(raw) == <<Sign(raw), raw[1], raw[2], 0>>

MaxRaw == <<Base \div 2 - 1, Base - 1>>
MinRaw == <<Base \div 2, 0>>
(* nearest raw value, ties upwards, clamped *)
Encode(q) ==
    LET half == <<0, 0, 0, Base \div 2>>
        sum == W!AddC(q, half).word
        over == ~W!Negative(q) /\ W!Negative(sum)           \* left the four digits upwards
    IN  IF over THEN MaxRaw
        ELSE IF sum[1] = Sign(<<sum[2]>>) THEN <<sum[2], sum[3]>>
        ELSE IF W!Negative(sum) THEN MinRaw ELSE MaxRaw
=============================================================================

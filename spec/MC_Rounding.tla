---------------------------- MODULE MC_Rounding ----------------------------
(* Rounding doubles and rounding exact numbers (Fixed) agree, at every tie and around it. *)
EXTENDS Rounding, TLC
CONSTANTS Highs, Lows, Fractions
W == INSTANCE Words WITH Base <- 65536
Fx == INSTANCE Fixed WITH Base <- 65536
VARIABLE q          \* exact number: two digits before the point, two after
Init == \E h \in Highs, a \in Lows, f \in Fractions, r \in Fractions : q = <<h, a, f, r>>
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
(* the double of an exact number (all have fewer than 53 significant bits) *)
Double == FMul(FOfWord(q), FOf(65536, 1))
Agree == Raw(Double) = Fx!Encode(q)
(* and a double just below a tie belongs to the value below, whatever adding one half would give *)
Below(v) == IF v[2] = 0 THEN <<v[1] - 1, -1>> ELSE <<v[1], v[2] - 1>>        \* the next double towards zero, for normal positive numbers
JustBelow == q[1] < 16384 /\ q[3] = 32768 /\ q[4] = 0 /\ Double[2] > -2147483647 - 1 =>
             Raw(Below(Double)) = Fx!Encode(<<q[1], q[2], 32767, 65535>>)
Inv == Agree /\ JustBelow
=============================================================================

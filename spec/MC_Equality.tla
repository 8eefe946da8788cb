----------------------------- MODULE MC_Equality -----------------------------
(* Equality of values is an equivalence (of all values that are ordinary), and an implementation that
   compares less than all the parts, in whatever way, does not decide it: with Look = "sum", "first",
   "swapped" TLC finds two values that tell it apart from one that compares them all.              *)
EXTENDS Equality, TLC, FiniteSets
CONSTANTS Parts, Max, Look
VARIABLE s                          \* three values
Values == [1..Parts -> 0..Max]
Bytes(v) == [i \in 1..Parts |-> <<v[i]>>]
Colour(v) == [i \in 1..Parts |-> IF v[i] = 0 THEN FDiv(FOf(0, 1), FOf(0, 1)) ELSE IF v[i] = 1 THEN FNeg(FOf(0, 1)) ELSE IF v[i] = 2 THEN FOf(0, 1) ELSE FOf(v[i], 7)]
RECURSIVE Sum(_, _)
Sum(v, i) == IF i = 0 THEN 0 ELSE v[i] + Sum(v, i - 1)
Implementation(a, b) ==
    CASE Look = "all"     -> \A i \in 1..Parts : a[i] = b[i]
      [] Look = "sum"     -> Sum(a, Parts) = Sum(b, Parts)
      [] Look = "first"   -> a[1] = b[1]
      [] Look = "swapped" -> {a[i] : i \in 1..Parts} = {b[i] : i \in 1..Parts}
Init == s \in [1..3 -> Values]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Laws(what, a, b, c) ==
    /\ Ordinary(what, a) <=> Equal(what, a, a)
    /\ Equal(what, a, b) = Equal(what, b, a)
    /\ Equal(what, a, b) /\ Equal(what, b, c) => Equal(what, a, c)
Inv == /\ Laws("entry", Bytes(s[1]), Bytes(s[2]), Bytes(s[3]))
       /\ Laws("colour", Colour(s[1]), Colour(s[2]), Colour(s[3]))
       /\ Implementation(s[1], s[2]) = Equal("entry", Bytes(s[1]), Bytes(s[2]))
ASSUME \A m, n \in Codes : /\ (Order(m, n) = "equal") <=> (m = n)
                           /\ (Order(m, n) = "less") <=> (Order(n, m) = "greater")
                           /\ \A k \in Codes : Order(m, n) = "less" /\ Order(n, k) = "less" => Order(m, k) = "less"
=============================================================================

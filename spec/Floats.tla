------------------------------- MODULE Floats -------------------------------
(* Double precision numbers, as pairs of 32-bit integers (the halves of their IEEE 754 encoding).
   TLC evaluates these operators by tools/java/Floats.java; the definitions here only fix the arity. *)
FOf(n, m) == CHOOSE x : x = <<n, m>>          \* the double nearest to n/m
FAdd(a, b) == CHOOSE x : x = <<a, b>>
FSub(a, b) == CHOOSE x : x = <<a, b>>
FMul(a, b) == CHOOSE x : x = <<a, b>>
FDiv(a, b) == CHOOSE x : x = <<a, b>>
FNeg(a) == CHOOSE x : x = a
FAbs(a) == CHOOSE x : x = a
FMax(a, b) == CHOOSE x : x = <<a, b>>
FPow(a, b) == CHOOSE x : x = <<a, b>>
FLog10(a) == CHOOSE x : x = a
FLn(a) == CHOOSE x : x = a
FExp(a) == CHOOSE x : x = a
FLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
FLeq(a, b) == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE
FFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FNaN(a) == CHOOSE x \in BOOLEAN : TRUE
FWhole(a) == CHOOSE x \in BOOLEAN : TRUE      \* an integer
FFloor(a) == CHOOSE x : x = a                 \* the largest integer not above a
FHalves(a) == CHOOSE x : x = a                \* of an integer of 32 bits, the two halves of its two's complement
FOfWord(w) == CHOOSE x : x = w                \* two's complement word of 16-bit digits, the point after the first
FShow(a) == CHOOSE x : x = a
=============================================================================

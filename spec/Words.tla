------------------------------- MODULE Words -------------------------------
(* Fixed-width unsigned machine words as sequences of digits, most significant digit first.
   The base is a constant: exhaustive models use tiny digits (so that overflow is reachable),
   trace specifications use base 65536, because TLC's own integers have 32 bits.               *)
EXTENDS Integers, Sequences
CONSTANT Base

Word(n) == [1..n -> 0..(Base - 1)]
Zero(n) == [i \in 1..n |-> 0]
Top(n)  == [i \in 1..n |-> Base - 1]

RECURSIVE AddFrom(_, _, _, _, _)
(* add digits 1..i of a and b, with carry c into digit i and the digits already done in acc *)
AddFrom(a, b, i, c, acc) ==
    IF i = 0 THEN [carry |-> c, word |-> acc]
    ELSE LET s == a[i] + b[i] + c
         IN  AddFrom(a, b, i - 1, s \div Base, <<s % Base>> \o acc)

(* Sum modulo 2^width together with the carry out: the exact sum is carry * 2^width + word. *)
AddC(a, b) == AddFrom(a, b, Len(a), 0, <<>>)

Lt(a, b)  == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Leq(a, b) == a = b \/ Lt(a, b)
Min(a, b) == IF Leq(a, b) THEN a ELSE b
Max(a, b) == IF Leq(a, b) THEN b ELSE a

Complement(a) == [i \in DOMAIN a |-> Base - 1 - a[i]]
(* a - b modulo 2^width *)
Sub(a, b) ==
    LET one == [i \in DOMAIN a |-> IF i = Len(a) THEN 1 ELSE 0]
    IN  AddC(AddC(a, Complement(b)).word, one).word

(* two's complement: the sign is the top bit *)
Negative(a) == a[1] >= Base \div 2

(* base + offset, offset signed: well defined iff the exact result fits an unsigned word *)
AddSigned(a, off) ==
    LET r == AddC(a, off)
    IN  [ok |-> IF Negative(off) THEN r.carry = 1 ELSE r.carry = 0, word |-> r.word]

RECURSIVE NatFrom(_, _)
NatFrom(a, i) == IF i = 0 THEN 0 ELSE NatFrom(a, i - 1) * Base + a[i]
(* only for words known to be small *)
ToNat(a) == NatFrom(a, Len(a))

RECURSIVE OfNat(_, _)
OfNat(v, n) == IF n = 0 THEN <<>> ELSE OfNat(v \div Base, n - 1) \o <<v % Base>>
=============================================================================

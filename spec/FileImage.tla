----------------------------- MODULE FileImage -----------------------------
(* Logged files as images in the sense of ProfileRules. *)
EXTENDS Tracing, Gregorian
P == INSTANCE ProfileRules WITH Base <- 65536, MaxTags <- 100

---------------------------------------------------------------------------
(* The image of a logged file: its first bytes, then e.pad zeros (what is beyond does not matter) *)
Present(e) == Len(e.pre) + e.pad
Byte(e, i) == IF i < Len(e.pre) THEN e.pre[i + 1] ELSE 0
Bytes(e, from, n) == [i \in 1..n |-> Byte(e, from + i - 1)]
Pairs(b)   == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] * 256 + b[2 * i]]
U32(b)     == LET x == Num(b) IN <<0, 0>> \o Pairs(x)         \* as a 64-bit word
U16(b)     == Pairs(Num(b))[1]

MagicNumber == <<97, 99, 115, 112>>                            \* 'acsp'
DateOf(e) == [k \in 1..6 |-> U16(Bytes(e, 24 + 2 * (k - 1), 2))]
MinN(a, b) == IF a <= b THEN a ELSE b
Image(e) ==
    LET n       == Present(e)
        count   == U32(Bytes(e, 128, 4))
        avail   == IF n < 132 THEN 0 ELSE (n - 132) \div 12
        wanted  == IF n < 132 \/ ~P!W!Leq(count, <<0, 0, 0, 100>>) THEN 0 ELSE count[4]
    IN  [full |-> n >= 128,
         magic |-> n >= 128 /\ Num(Bytes(e, 36, 4)) = MagicNumber,
         date |-> n >= 128 /\ ValidDate(DateOf(e)),
         size |-> U32(Bytes(e, 0, 4)), len |-> e.len,
         counted |-> n >= 132, count |-> count,
         entries |-> [k \in 1..MinN(wanted, avail) |->
                        LET at == 132 + 12 * (k - 1) IN
                        [sig |-> Pairs(Num(Bytes(e, at, 4))),
                         off |-> U32(Bytes(e, at + 4, 4)), size |-> U32(Bytes(e, at + 8, 4))]]]
=============================================================================

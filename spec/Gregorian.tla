----------------------------- MODULE Gregorian -----------------------------
(* The proleptic Gregorian calendar, years from 0. *)
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
ValidDate(d) == /\ d[2] \in 1..12
                /\ d[3] \in 1..DaysIn(d[1], d[2])
                /\ d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59
=============================================================================

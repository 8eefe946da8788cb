---------------------------- MODULE MC_Calendar ----------------------------
(* Walks the calendar day by day over one 400-year cycle. The day number grows by one with every step,
   so dates and days correspond one to one, and all dates of the walk are the valid ones.         *)
EXTENDS Gregorian, TLC
CONSTANT Years
VARIABLES y, m, d
vars == <<y, m, d>>
Init == y = 0 /\ m = 1 /\ d = 1
Next == IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
        ELSE /\ d' = 1
             /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
             /\ (y < Years - 1 \/ m < 12)
Spec == Init /\ [][Next]_vars
(* days before March 1st of a shifted year, a formula independent of DaysIn *)
DayNumber(a, b, c) ==
    LET yy == IF b <= 2 THEN a - 1 ELSE a
        mm == (b + 9) % 12
    IN  365 * yy + (yy + 400) \div 4 - (yy + 400) \div 100 + (yy + 400) \div 400 + (153 * mm + 2) \div 5 + c - 1
Valid == ValidDate(<<y, m, d, 23, 59, 59>>) /\ ~ValidDate(<<y, m, d, 24, 0, 0>>)
         /\ ~ValidDate(<<y, m, d, 0, 60, 0>>) /\ ~ValidDate(<<y, m, d, 0, 0, 60>>)
Counted == DayNumber(y, m, d) - DayNumber(0, 1, 1) = TLCGet("level") - 1
Inv == Valid /\ Counted
(* every valid date of the years has been visited *)
Complete == TLCGet("stats").distinct = DayNumber(Years, 1, 1) - DayNumber(0, 1, 1)
=============================================================================

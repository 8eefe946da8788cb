------------------------------ MODULE MC_Costs ------------------------------
(* The reader, step by step, counting: over files of all kinds what it reads and holds stays within what
   the rules of Costs allow, however long the file is and whatever it announces, and all of it is given
   back. A history is a number of opens and drops.                                                 *)
EXTENDS Costs, FiniteSets, TLC
CONSTANTS MaxLive, MaxOpens
(* lengths and announced numbers, in bytes, from nothing to what no machine holds *)
Lens   == {0, 127, 128, 131, 132, 143, 144, 1331, 1332, 1333, 100000, 1000000000}
Counts == {0, 1, 2, 99, 100, 101, 65536, 1000000000}
ProfileSize == 4096
VARIABLES pc, len, count, read, calls, entry, heap, live, opens
vars == <<pc, len, count, read, calls, entry, heap, live, opens>>
Init == pc = "idle" /\ len = 0 /\ count = 0 /\ read = 0 /\ calls = 0 /\ entry = 0 /\ heap = 0 /\ live = 0 /\ opens = 0
Open == /\ pc = "idle" /\ opens < MaxOpens /\ live < MaxLive
        /\ \E n \in Lens, c \in Counts : len' = n /\ count' = c
        /\ pc' = "header" /\ read' = 0 /\ calls' = 0 /\ entry' = 0 /\ heap' = heap + ProfileSize /\ opens' = opens + 1 /\ UNCHANGED live
Refuse == pc' = "idle" /\ heap' = heap - ProfileSize
Take(n, next) == calls' = calls + 1 /\ IF read + n <= len THEN pc' = next /\ read' = read + n /\ UNCHANGED heap
                 ELSE read' = len /\ Refuse
Read1 == pc = "header" /\ (Take(Header, "magic")) /\ UNCHANGED <<len, count, entry, live, opens>>
Magic == pc = "magic" /\ ((pc' = "count" /\ UNCHANGED heap) \/ Refuse) /\ UNCHANGED <<len, count, read, calls, entry, live, opens>>
Read2 == pc = "count" /\ Take(Counter, "limit") /\ UNCHANGED <<len, count, entry, live, opens>>
Limit == /\ pc = "limit" /\ (IF count > MaxTags THEN Refuse ELSE pc' = "entries" /\ UNCHANGED heap)
         /\ UNCHANGED <<len, count, read, calls, entry, live, opens>>
Read3 == /\ pc = "entries" /\ entry < count /\ Take(EntrySize, "entries") /\ entry' = entry + 1
         /\ UNCHANGED <<len, count, live, opens>>
Done  == /\ pc = "entries" /\ entry = count /\ pc' = "idle" /\ live' = live + 1
         /\ UNCHANGED <<len, count, read, calls, entry, heap, opens>>
Drop  == pc = "idle" /\ live > 0 /\ live' = live - 1 /\ heap' = heap - ProfileSize /\ UNCHANGED <<pc, len, count, read, calls, entry, opens>>
Next == Open \/ Read1 \/ Magic \/ Read2 \/ Limit \/ Read3 \/ Done \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Read1 \/ Magic \/ Read2 \/ Limit \/ Read3 \/ Done)

ReadsLittle == read <= MostNeeded /\ read <= len /\ read <= MayRead("open", 0)
ReadsSeldom == calls <= MayCall("open", 0, len)
TakesLittle == heap - ProfileSize * live <= MayTake("open", 0) /\ heap = ProfileSize * (live + IF pc = "idle" THEN 0 ELSE 1)
GivenBack   == pc = "idle" /\ live = 0 => heap = 0
StepsBounded == calls <= MaxTags + 2 /\ entry <= MaxTags
Inv == StepsBounded /\ ReadsLittle /\ ReadsSeldom /\ TakesLittle /\ GivenBack
(* the number of steps of an open does not depend on the file either *)
Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================

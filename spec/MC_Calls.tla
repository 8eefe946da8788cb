------------------------------ MODULE MC_Calls ------------------------------
(* Threads that call with arguments kept in places of their own, which they change between calls, and an
   implementation that may remember its last call. Whoever remembers must compare all of the arguments
   themselves, not where they lie and not a part of them, and must replace what is remembered in one
   step: then every call has the value of its arguments. (With PartKey, PlaceKey or Torn set to TRUE
   TLC finds the counterexample.)                                                                     *)
EXTENDS Calls, Integers
CONSTANTS Threads, Wide, MaxCalls, PartKey, PlaceKey, Torn
Args == (1..Wide) \X (1..Wide)              \* parameters and number
Value(a) == a[1] * 10 + a[2]
None == <<0, 0>>
VARIABLES place, pc, memo, known, fits, calls
vars == <<place, pc, memo, known, fits, calls>>
Key(t, a) == IF PlaceKey THEN <<t, a[2]>> ELSE IF PartKey THEN <<a[1], 0>> ELSE a
Init == /\ place \in [Threads -> Args] /\ pc = [t \in Threads |-> "out"] /\ memo = [key |-> None, value |-> 0]
        /\ known = <<>> /\ fits = TRUE /\ calls = 0
Change(t) == /\ pc[t] = "out" /\ \E a \in Args : place' = [place EXCEPT ![t] = a]
             /\ UNCHANGED <<pc, memo, known, fits, calls>>
Enter(t) == /\ pc[t] = "out" /\ calls < MaxCalls /\ calls' = calls + 1 /\ pc' = [pc EXCEPT ![t] = "look"]
            /\ UNCHANGED <<place, memo, known, fits>>
Answer(t, v) == /\ fits' = (fits /\ Fits(known, place[t], v) /\ v = Value(place[t]))
                /\ known' = Learn(known, place[t], v)
Look(t) == /\ pc[t] = "look"
           /\ IF memo.key = Key(t, place[t])
              THEN /\ Answer(t, memo.value) /\ pc' = [pc EXCEPT ![t] = "out"]
              ELSE /\ UNCHANGED <<known, fits>> /\ pc' = [pc EXCEPT ![t] = "store"]
           /\ UNCHANGED <<place, memo, calls>>
Store(t) == /\ pc[t] = "store"
            /\ LET v == Value(place[t]) IN
               IF Torn THEN /\ memo' = [memo EXCEPT !.key = Key(t, place[t])] /\ pc' = [pc EXCEPT ![t] = "finish"] /\ UNCHANGED <<known, fits>>
               ELSE /\ memo' = [key |-> Key(t, place[t]), value |-> v] /\ Answer(t, v) /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ UNCHANGED <<place, calls>>
Finish(t) == /\ pc[t] = "finish"
             /\ LET v == Value(place[t]) IN memo' = [memo EXCEPT !.value = v] /\ Answer(t, v)
             /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<place, calls>>
Next == \E t \in Threads : Change(t) \/ Enter(t) \/ Look(t) \/ Store(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
Inv == fits /\ \A a \in DOMAIN known : known[a] = Value(a)
=============================================================================

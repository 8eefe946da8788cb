---------------------------- MODULE MC_Snapshots ----------------------------
(* Files that change under the profiles opened from them. `was` remembers what each file held when it
   was opened, independently of what the profiles keep.                                           *)
EXTENDS Snapshots, FiniteSets, TLC
CONSTANTS Names, Contents, MaxOpened
VARIABLES disk, kept, was, asked
vars == <<disk, kept, was, asked>>
None == "none"
Bad(c) == c \in {"empty", "garbage"}
Nothing == [op |-> "none"]

Init == disk = [n \in Names |-> None] /\ kept = <<>> /\ was = <<>> /\ asked = Nothing
Change(n, c) == disk' = [disk EXCEPT ![n] = c] /\ asked' = Nothing /\ UNCHANGED <<kept, was>>
Remove(n) == Change(n, None)
(* another file takes the place of this one *)
Replace(n, m) == Change(n, disk[m])
Open(n) == /\ disk[n] # None /\ Len(kept) < MaxOpened
           /\ asked' = Nothing /\ UNCHANGED disk
           /\ IF Bad(disk[n]) THEN UNCHANGED <<kept, was>>
              ELSE kept' = Opened(kept, disk[n]) /\ was' = Append(was, disk[n])
OpenToWrite(n) == /\ Len(kept) < MaxOpened
                  /\ disk' = [disk EXCEPT ![n] = "empty"]
                  /\ kept' = Opened(kept, "blank") /\ was' = Append(was, "blank") /\ asked' = Nothing
Drop(p) == kept' = Dropped(kept, p) /\ asked' = Nothing /\ UNCHANGED <<disk, was>>
Ask(p) == asked' = [op |-> "ask", p |-> p, told |-> Told(kept, p)] /\ UNCHANGED <<disk, kept, was>>
Compare(p, q) == asked' = [op |-> "compare", p |-> p, q |-> q, same |-> Same(kept, p, q)] /\ UNCHANGED <<disk, kept, was>>
Next == \/ \E n \in Names : \/ Open(n) \/ OpenToWrite(n) \/ Remove(n)
                            \/ \E c \in Contents : Change(n, c)
                            \/ \E m \in Names \ {n} : disk[m] # None /\ Replace(n, m)
        \/ \E p \in Alive(kept) : Drop(p) \/ Ask(p) \/ \E q \in Alive(kept) : Compare(p, q)
Spec == Init /\ [][Next]_vars

Faithful == asked.op = "ask" => asked.told = was[asked.p]
Agreed == asked.op = "compare" => (asked.same <=> was[asked.p] = was[asked.q])
Inv == Faithful /\ Agreed /\ \A p \in DOMAIN kept : kept[p].view = was[p] /\ ~Bad(was[p])
Stable == [][\A p \in DOMAIN kept : kept'[p].view = kept[p].view]_vars
=============================================================================

---------------------------- MODULE MC_Profile ----------------------------
(* Exhaustive exploration: words of two digits in base 3 (0..8), so that off + size overflows,
   directories of up to 3 entries (limit) plus one too many, and every way of cutting the file. *)
EXTENDS Profile
CONSTANTS SigSet, OffSet, SizeSet, HSizeSet, LenSet

w(v) == W!OfNat(v, 2)
Entry == [sig : SigSet, off : {w(v) : v \in OffSet}, size : {w(v) : v \in SizeSet}]
BrokenInit == \E f, m, d, c \in BOOLEAN, n \in 0..8 :
    img = [full |-> f, magic |-> m, date |-> d, size |-> w(4), len |-> w(4), counted |-> c,
           count |-> w(n), entries |-> <<>>]
DirectoryInit == \E s \in HSizeSet, l \in LenSet, n \in 0..(MaxTags + 1) :
    \E k \in 0..(IF n <= MaxTags THEN n ELSE 0) :
    \E es \in [1..k -> Entry] :
    img = [full |-> TRUE, magic |-> TRUE, date |-> TRUE, size |-> w(s), len |-> w(l),
           counted |-> TRUE, count |-> w(n), entries |-> es]
MCInit == /\ BrokenInit \/ DirectoryInit
          /\ pc = "header" /\ i = 0 /\ dir = <<>> /\ error = "" /\ signals = <<>>
          /\ look = <<>> /\ at = 0
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================

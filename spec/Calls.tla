------------------------------- MODULE Calls -------------------------------
(* What is known about calls that turn arguments into a value: the value each arguments have had. A
   call is allowed any value for arguments never seen before, and from then on exactly that one.    *)
EXTENDS TLC
Nothing == <<>>
Seen(known, args) == args \in DOMAIN known
Fits(known, args, value) == Seen(known, args) => known[args] = value
Learn(known, args, value) == IF Seen(known, args) THEN known ELSE (args :> value) @@ known
=============================================================================

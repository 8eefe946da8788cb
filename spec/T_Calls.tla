------------------------------ MODULE T_Calls ------------------------------
(* Validates recorded calls of evaluators and conversions: the same arguments, the same value. *)
EXTENDS Tracing
C == INSTANCE Calls
VARIABLE known
Call(e) ==
    LET args == <<e.f, e.a>> IN
    /\ Must("C42", e.f \o " must not panic for " \o ToString(e.a), e.v # <<-1>>)
    /\ Must("C42", e.f \o " of " \o ToString(e.a) \o " is " \o ToString(e.v) \o " now, it was " \o
            (IF C!Seen(known, args) THEN ToString(known[args]) ELSE "unknown"), C!Fits(known, args, e.v))
    /\ known' = C!Learn(known, args, e.v)
Init == l = 1 /\ known = <<>>
Next == /\ More
        /\ l' = l + 1
        /\ IF Event.ev = "new" THEN known' = <<>> ELSE Call(Event)
Spec == Init /\ [][Next]_<<l, known>>
=============================================================================

------------------------------- MODULE Nested -------------------------------
(* Error handlers that use the library themselves: calls inside of calls.

   The stack holds the calls under way, the outermost first. A call is a record
     obj     the context it is made through (0: the shared default one)
     result  what it gives when made alone       report  what it reports then ("" for nothing)
     phase   "in", "reporting" (its handler runs), "done", "thrown" (the handler panicked)
   hs gives the handler of every context, "" for the default one, which is silent.              *)
EXTENDS Integers, Sequences

Top(s) == s[Len(s)]
Frame(obj, result, report) == [obj |-> obj, result |-> result, report |-> report, phase |-> "in"]
(* A handler has the context it is called with, and may reach every other one that is not in use: not
   those of calls further out, and so not the default context while something runs through that     *)
MayCall(s, o) == IF s = <<>> THEN TRUE
                 ELSE Top(s).phase = "reporting" /\ (o = Top(s).obj \/ \A i \in DOMAIN s : s[i].obj # o)
Push(s, f)  == Append(s, f)
Pop(s)      == SubSeq(s, 1, Len(s) - 1)
Phase(s, p) == [s EXCEPT ![Len(s)].phase = p]
Speaks(f, hs) == f.report # "" /\ hs[f.obj] # ""
MayHear(s, hs)   == s # <<>> /\ Top(s).phase = "in" /\ Speaks(Top(s), hs)
MayLeave(s)      == s # <<>> /\ Top(s).phase = "reporting"
MayReturn(s, hs) == s # <<>> /\ (Top(s).phase \in {"done", "thrown"} \/ (Top(s).phase = "in" /\ ~Speaks(Top(s), hs)))
=============================================================================

------------------------------ MODULE T_Shared ------------------------------
(* Validates recorded concurrent opens, through the default context and through others. *)
EXTENDS FileImage
VARIABLES files, th
(* a file: the image, whether it exists, and what opening it alone gave *)
Threads == 1..16
ReportOf(f) == IF files[f].missing THEN "" ELSE LET o == P!Outcome(Image(files[f])) IN IF o.signals = <<>> THEN "" ELSE o.signals[1]
ResultOf(f) == files[f].solo
V == INSTANCE SharedVisible WITH Outcomes <- {}, Contexts <- {}

Who(e) == " by thread " \o ToString(e.t)
(* opens through the default context are the matter of C09, those through others of C34 *)
Owner(c) == IF c = 0 THEN "C09" ELSE "C34"
Call(e) == V!Call(e.t, [result |-> ResultOf(e.file), report |-> ReportOf(e.file)], e.ctx)
Enter(e) ==
    /\ \A id \in {Owner(e.ctx), Owner(th[e.t].ctx)} :
       Must(id, "report " \o e.code \o Who(e) \o " to context " \o ToString(e.ctx) \o " while threads are "
                \o ToString({<<t, th[t].st, th[t].ctx>> : t \in {u \in Threads : th[u].st # "idle"}}),
            V!MayEnter(e.t, e.code, e.ctx))
    /\ th' = [th EXCEPT ![e.t].st = "reporting"]
(* a report may have been kept going until an open through another context was over *)
Leave(e) ==
    /\ Must("C34", "opens through different contexts do not wait for each other", ~e.late)
    /\ IF th[e.t].st = "reporting" THEN V!Leave(e.t) ELSE UNCHANGED th
(* a pipe was kept from giving anything until an open through another context was over *)
Fed(e) == Must("C34", "opens through different contexts do not wait for each other's files", ~e.late)
Return(e) ==
    /\ Must(Owner(th[e.t].ctx), "result " \o ToString(e.res) \o Who(e) \o " must be that of the open on its own, " \o ToString(th[e.t].due.result),
            V!MayReturn(e.t, e.res))
    /\ th' = [th EXCEPT ![e.t] = V!Idle]

Init == l = 1 /\ files = <<>> /\ th = [t \in Threads |-> V!Idle]
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "files"  -> files' = Event.files /\ th' = [t \in Threads |-> V!Idle]
             [] Event.ev = "new"    -> (\A t \in Threads : th[t].st = "idle") /\ UNCHANGED <<files, th>>
             [] Event.ev = "call"   -> Call(Event) /\ UNCHANGED files
             [] Event.ev = "enter"  -> Enter(Event) /\ UNCHANGED files
             [] Event.ev = "leave"  -> Leave(Event) /\ UNCHANGED files
             [] Event.ev = "fed"    -> Fed(Event) /\ UNCHANGED <<files, th>>
             [] Event.ev = "return" -> Return(Event) /\ UNCHANGED files
Spec == Init /\ [][Next]_<<l, files, th>>
=============================================================================

---------------------------- MODULE T_Snapshots ----------------------------
(* Validates histories of profiles that live on while files, contexts and other profiles come and go. *)
EXTENDS Tracing
S == INSTANCE Snapshots
P == INSTANCE ProfileRules WITH Base <- 65536, MaxTags <- 100
VARIABLE kept
vars == <<l, kept>>
Default == <<8224, 8224>>          \* the signature of four spaces

Open(e) == kept' = IF e.r = "ok" THEN S!Opened(kept, e.all) ELSE kept

(* what a profile tells must be what it told when it was opened; its tags are found where they were *)
Look(e) ==
    LET was == S!Told(kept, e.p) tags == was.view.tags IN
    /\ Must("C36", "profile " \o ToString(e.p) \o " must be asked without a panic", e.r = "ok")
    /\ e.r = "ok" =>
       /\ Must("C36", "profile " \o ToString(e.p) \o " has changed " \o e.after \o ": it was " \o ToString(was) \o ", now it is " \o ToString(e.all),
               e.all = was)
       /\ Must("C36", "signatures of the tags of profile " \o ToString(e.p) \o " " \o e.after,
               \A k \in DOMAIN e.at : e.at[k][2] = P!TagAt(tags, e.at[k][1], Default))
       /\ Must("C36", "tags found in profile " \o ToString(e.p) \o " " \o e.after,
               \A k \in DOMAIN e.search : LET s == e.search[k] IN
                   s[2] = P!First(tags, s[1]) /\ s[3] = P!Resolve(tags, s[1]))
    /\ UNCHANGED kept
Compare(e) ==
    /\ Must("C36", "profiles " \o ToString(e.p) \o " and " \o ToString(e.q) \o " are as equal as they were", e.eq = S!Same(kept, e.p, e.q))
    /\ UNCHANGED kept
Drop(e) == /\ Must("C36", "a profile goes without a panic", e.r = "ok")
           /\ kept' = S!Dropped(kept, e.p)

Init == l = 1 /\ kept = <<>>
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "snew"  -> kept' = <<>>
             [] Event.ev = "sput"  -> UNCHANGED kept
             [] Event.ev = "sopen" -> Open(Event)
             [] Event.ev = "slook" -> Look(Event)
             [] Event.ev = "seq"   -> Compare(Event)
             [] Event.ev = "sdrop" -> Drop(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

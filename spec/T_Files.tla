------------------------------ MODULE T_Files ------------------------------
(* Validates histories of read and write opens over real files, the descriptors they hold, and the
   profiles that start empty. Names 1 to 12 are those of nodes (11 and 12 the devices null and zero), the
   others can never be opened. Contents are numbered: 0 is nothing, known[k] the file image of content k. *)
EXTENDS FileImage
VARIABLES fs, known, held, fds,
          alive, none   \* profiles there are; descriptors the process had before the first of them
vars == <<fs, known, held, fds, alive, none>>
Yes(d) == TRUE
F == INSTANCE Files WITH Names <- 1..17, Regular <- {1, 2, 5, 6, 7, 8, 9, 10}, Ids <- {}, Contents <- {}, Opens <- Yes, MaxHeld <- 0, Perms <- {}, Nothing <- 0,
                         last <- <<>>, busy <- 0

Default == <<8224, 8224>>
Shown == <<"a", "b", "dir", "missing/x", "c.icc", "s", "profile t.icm", "h", "dir/in", "(no UTF-8)", "/dev/null", "/dev/zero",
           "(nothing)", "(too long)", "(with a NUL)", "a/", "a/x">>
Ways == <<"plain", "relative", "./", "dir/..", "long way">>
Show(e) == (IF e.starved THEN "with no descriptor left " ELSE "") \o (IF e.who = "root" THEN "" ELSE "as somebody unprivileged ") \o Shown[e.i] \o " (" \o Ways[IF e.way > 4 THEN 1 ELSE e.way + 1] \o ")"
NeverThere == {4, 13}

(* a profile that has not been read from anything: version 2.1, stamped with the current time *)
Spaces == <<32, 32, 32, 32>>
Zeros(n) == [i \in 1..n |-> 0]
Blank == [class |-> Spaces, space |-> Spaces, pcs |-> Spaces, version |-> <<2, 16, 0, 0>>, intent |-> Zeros(4),
          flags |-> Zeros(4), manuf |-> Zeros(4), model |-> Zeros(4), attrs |-> Zeros(8), creator |-> Zeros(4),
          id |-> Zeros(16), count |-> 0, tags |-> <<>>]
IsBlank(v) == \A k \in DOMAIN Blank : v[k] = Blank[k]
(* on whatever it is: one for each profile, besides those there were before *)
AllOf(e, n) == Must("C32", "there are " \o ToString(n) \o " profiles and " \o ToString(e.all - none) \o " descriptors for them", e.all = none + n)
Now(s) == P!W!Leq(s[1], s[2]) /\ P!W!Leq(s[2], s[3])

(* what the user may do, by the permission bits of the owner or of everybody else *)
Bits(x) == IF x.own = 1 THEN x.mode \div 64 ELSE x.mode % 8
May(x, bit) == x.is = "file" => (Bits(x) \div bit) % 2 = 1
Bare(x) == [is |-> x.is, id |-> x.id, to |-> x.to, data |-> x.data, rd |-> May(x, 4), wr |-> May(x, 2)]
Plain(f) == [n \in DOMAIN f |-> Bare(f[n])]
At(bag, i) == IF i \in DOMAIN bag THEN bag[i] ELSE 0
More2(bag, i, d) == IF i = 0 THEN bag
                    ELSE [k \in 1..(IF i > Len(bag) THEN i ELSE Len(bag)) |-> At(bag, k) + (IF k = i THEN d ELSE 0)]
SameCounts(f, h) == \A i \in (DOMAIN f) \cup DOMAIN h : At(f, i) = At(h, i)
Status(d) == IF d = 0 THEN "UnexpectedEof"
             ELSE LET out == P!Outcome(Image(known[d])) IN IF out.ok THEN "ok" ELSE out.error

Open(e) ==
    LET n == e.i
        m == F!Follow(fs, n)
        is == IF m = 0 THEN "loop" ELSE fs[m].is
        now0 == Plain(fs)
        out == IF e.starved THEN F!Refused("device")
               ELSE IF e.write THEN F!WriteOutcome(now0, n, e.who, e.shut) ELSE F!ReadOutcome(now0, n, e.who)
        want == CASE out.error = "NotFound" -> "NotFound"
                  [] out.error = "PermissionDenied" -> "PermissionDenied"
                  [] out.error = "device" -> IF m \in NeverThere /\ ~e.starved THEN "NotFound" ELSE "device"
                  [] e.write -> "ok"
                  [] m = 11 -> "UnexpectedEof"
                  [] m = 12 -> "InvalidData"
                  [] OTHER -> Status(fs[m].data)
        touched == IF e.write /\ out.ok THEN F!Touched(fs, n) ELSE {}
        new  == IF is = "absent" /\ e.write /\ out.ok THEN e.fs[m].id ELSE 0
        fsx  == IF e.write /\ out.ok THEN F!AfterWrite(now0, n, e.who, e.shut, new, <<May(e.fs[m], 4), May(e.fs[m], 2)>>) ELSE now0
        id   == IF m = 0 \/ e.r # "ok" THEN 0 ELSE e.fs[m].id
        now  == More2(held, id, 1)
    IN
    /\ Must("C07", "an open must end in a profile or an error", e.r # "panic")
    /\ Must("C07", IF e.write THEN "a write open of " \o Show(e) \o " creates or empties the file and touches nothing else"
                   ELSE "a read open of " \o Show(e) \o " changes no file",
            /\ Plain(e.fs) = fsx
            /\ \A k \in DOMAIN fs : (k \notin touched => e.fs[k] = fs[k]) /\ (fs[k].is = "file" => e.fs[k].mode = fs[k].mode))
    /\ Must("C07", IF e.write THEN "a write open of " \o Show(e) \o " makes nothing but the file"
                   ELSE "a read open of " \o Show(e) \o " makes nothing", e.others = 0)
    /\ Must("C07", "a file that is created is a new one",
            new # 0 => At(held, new) = 0 /\ \A k \in DOMAIN fs : fs[k].id # new)
    /\ Must("C07", "a file that is created belongs to whoever creates it and has the usual permissions",
            new # 0 => e.fs[m].own = (IF e.who = "root" THEN 0 ELSE 1) /\ e.fs[m].mode = e.usual)
    /\ Must("C07", "opening " \o Show(e) \o (IF e.write THEN " for writing" ELSE " for reading") \o " must give " \o want \o ", not " \o e.r,
            IF want = "device" THEN e.r # "ok" ELSE e.r = want)
    /\ Must("C07", "the profile must say whether it is being written",
            e.r = "ok" => e.iswrite = e.write)
    /\ Must("C07", "a profile opened for writing is empty",
            e.r = "ok" /\ e.write => e.count = 0 /\ e.first = Default /\ e.signals = 0)
    /\ Must("C07", "an opened profile owns its file", e.r = "ok" => e.io)
    /\ Must("C32", "opening " \o Show(e) \o " gave " \o e.r \o "; descriptors in use must be " \o ToString(now)
                   \o ", not " \o ToString(e.fds), SameCounts(e.fds, now))
    /\ AllOf(e, IF e.r = "ok" THEN alive + 1 ELSE alive)
    /\ alive' = (IF e.r = "ok" THEN alive + 1 ELSE alive)
    /\ Must("C32", "the file of a profile must not be handed on to programs that are started", e.private)
    /\ Must("C33", "a profile opened for writing has the default fields", e.r = "ok" /\ e.write => IsBlank(e.view) /\ e.view.write)
    /\ Must("C33", "a profile opened for writing is stamped with the current time", e.r = "ok" /\ e.write => Now(e.stamp))
    /\ fs' = e.fs /\ held' = now /\ fds' = e.fds /\ UNCHANGED <<known, none>>

Drop(e) ==
    LET now == More2(held, e.id, -1) IN
    /\ Must("C32", "a profile goes without a panic", e.r = "ok")
    /\ Must("C32", "after a profile is gone descriptors in use must be " \o ToString(now)
                   \o ", not " \o ToString(e.fds), SameCounts(e.fds, now))
    /\ AllOf(e, alive - 1) /\ alive' = alive - 1
    /\ held' = now /\ fds' = e.fds /\ UNCHANGED <<fs, known, none>>

Fresh(e) ==
    /\ Must("C33", "a new profile", e.r = "ok")
    /\ Must("C33", "a new profile has the default fields", e.r = "ok" => IsBlank(e.view) /\ ~e.view.write /\ ~e.io)
    /\ Must("C33", "a new profile is stamped with the current time", e.r = "ok" => Now(e.stamp))
    /\ UNCHANGED vars

New(e) == /\ Must("C32", "descriptors left from before", SameCounts(e.fds, <<>>))
          /\ fs' = e.fs /\ held' = <<>> /\ fds' = e.fds /\ known' = <<>> /\ alive' = 0 /\ none' = e.all
(* what others do: anything, but the profiles keep what they hold *)
Put(e) == /\ Must("C32", "descriptors in use must be " \o ToString(held) \o ", not " \o ToString(e.fds), SameCounts(e.fds, held))
          /\ AllOf(e, alive)
          /\ fs' = e.fs /\ fds' = e.fds /\ UNCHANGED <<held, known, alive, none>>
End(e) == /\ Must("C07", "closing a profile changes no file", e.fs = fs)
          /\ Must("C32", "descriptors left: " \o ToString(e.fds), SameCounts(e.fds, <<>>))
          /\ AllOf(e, 0)
          /\ UNCHANGED vars

Init == l = 1 /\ fs = <<>> /\ known = <<>> /\ held = <<>> /\ fds = <<>> /\ alive = 0 /\ none = 0
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "fsnew"  -> New(Event)
             [] Event.ev = "content" -> known' = Append(known, Event) /\ UNCHANGED <<fs, held, fds, alive, none>>
             [] Event.ev = "put"    -> Put(Event)
             [] Event.ev = "fsopen" -> Open(Event)
             [] Event.ev = "fsdrop" -> Drop(Event)
             [] Event.ev = "fresh"  -> Fresh(Event)
             [] Event.ev = "fsend"  -> End(Event)
Spec == Init /\ [][Next]_<<l, vars>>
=============================================================================

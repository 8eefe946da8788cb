------------------------------- MODULE Files -------------------------------
(* Effects of opening profiles on the file system and on the descriptors of the process.
   A name leads to a node: nothing, a file (named by its identity, so that a file can have several names),
   a directory, a symbolic link to a name, or a device. What is in a file is a record of its own, the
   same under all its names. Whether a content opens as a profile is given by the operator Opens.
   An open for reading happens in two steps, as the library does it: the file is opened, which takes a
   descriptor, then the content is looked at and the profile delivered or the file let go.
   Opens are made by somebody privileged ("root"), who may do anything, or by somebody else ("user"), who
   may read (rd) or write (wr) a file only if its permissions say so and make one only in directories that
   are not shut. When there is no descriptor left, an open is refused before anything else.          *)
EXTENDS Integers, Sequences
CONSTANTS Names,
          Regular,      \* names under which a file can be made
          Ids,          \* identities of files
          Contents, Opens(_), MaxHeld,
          Perms,        \* pairs: whether the user may read and write
          Nothing        \* the content of an empty file
VARIABLES fs, last,
          held,      \* how many profiles are alive on each file
          fds,       \* descriptors in use on each file
          busy       \* the file opened by the open under way, or none
fvars == <<fs, last, held, fds, busy>>

Node(is, id, to, data, p) == [is |-> is, id |-> id, to |-> to, data |-> data, rd |-> p[1], wr |-> p[2]]
Free2 == <<TRUE, TRUE>>
Absent  == Node("absent", 0, 0, Nothing, Free2)
Folder  == Node("dir", 0, 0, Nothing, Free2)
File(i, d, p) == Node("file", i, 0, d, p)
Link(n) == Node("link", 0, n, Nothing, Free2)
PermsOf(x) == <<x.rd, x.wr>>

NoProfile == [ok |-> FALSE, error |-> "", write |-> FALSE, count |-> 0, owns |-> FALSE]
Refused(e) == [NoProfile EXCEPT !.error = e]
Empty == [ok |-> TRUE, error |-> "", write |-> TRUE, count |-> 0, owns |-> TRUE]

(* where a name leads: 0 for a chain of links without end *)
RECURSIVE Chase(_, _, _)
Chase(f, n, k) == IF f[n].is # "link" THEN n ELSE IF k = 0 THEN 0 ELSE Chase(f, f[n].to, k - 1)
Follow(f, n) == Chase(f, n, 20)

(* what opening name n of file system f for reading gives to who *)
ReadOutcome(f, n, who) ==
    LET m == Follow(f, n) IN
    IF m = 0 THEN Refused("device")
    ELSE CASE f[m].is = "absent" -> Refused(IF m \in Regular THEN "NotFound" ELSE "device")
           [] f[m].is = "dir" -> Refused("device")
           [] f[m].is = "null" -> Refused("content")
           [] who # "root" /\ ~f[m].rd -> Refused("PermissionDenied")
           [] OTHER -> IF Opens(f[m].data) THEN [NoProfile EXCEPT !.ok = TRUE, !.owns = TRUE] ELSE Refused("content")
WriteOutcome(f, n, who, shut) ==
    LET m == Follow(f, n) IN
    IF m = 0 THEN Refused("device")
    ELSE IF f[m].is = "file" /\ who # "root" /\ ~f[m].wr THEN Refused("PermissionDenied")
    ELSE IF f[m].is = "absent" /\ m \in Regular /\ who # "root" /\ shut THEN Refused("PermissionDenied")
    ELSE IF f[m].is \in {"file", "null"} \/ (f[m].is = "absent" /\ m \in Regular) THEN Empty ELSE Refused("device")
(* names of the same file *)
SameFile(f, m, k) == f[m].is = "file" /\ f[k].is = "file" /\ f[m].id = f[k].id
(* after a write open of n: the file n leads to is empty, under all its names; if there was none,
   there is one now, of identity new and with permissions p *)
AfterWrite(f, n, who, shut, new, p) ==
    LET m == Follow(f, n) IN
    IF ~WriteOutcome(f, n, who, shut).ok THEN f
    ELSE IF f[m].is = "absent" THEN [f EXCEPT ![m] = File(new, Nothing, p)]
    ELSE [k \in DOMAIN f |-> IF SameFile(f, m, k) THEN File(f[k].id, Nothing, PermsOf(f[k])) ELSE f[k]]
Touched(f, n) == LET m == Follow(f, n) IN IF m = 0 THEN {} ELSE {m} \cup {k \in DOMAIN f : SameFile(f, m, k)}
(* the identity an open of n holds on to, if it succeeds: 0 for a device *)
HeldId(f, n) == f[Follow(f, n)].id

Another(bag, i) == [bag EXCEPT ![i] = @ + 1]
Less(bag, i) == [bag EXCEPT ![i] = @ - 1]
Idle == busy = 0
InUse(i) == held[i] > 0 \/ \E n \in Names : fs[n].id = i
Free == {i \in Ids : ~InUse(i)}

OpenRead(n, who) ==
                /\ Idle
                /\ LET out == ReadOutcome(fs, n, who) m == Follow(fs, n) IN
                   IF m = 0 \/ fs[m].is # "file" \/ out.error = "PermissionDenied"
                   THEN last' = [op |-> "read", at |-> n, out |-> out] /\ UNCHANGED <<fds, busy>>
                   ELSE last' = [op |-> "reading", at |-> n, out |-> NoProfile] /\ fds' = Another(fds, fs[m].id) /\ busy' = n
                /\ UNCHANGED <<fs, held>>
Examine      == /\ ~Idle
                /\ LET out == ReadOutcome(fs, busy, "root") i == HeldId(fs, busy) IN
                   /\ last' = [op |-> "read", at |-> busy, out |-> out]
                   /\ held' = IF out.ok THEN Another(held, i) ELSE held
                   /\ fds' = IF out.ok THEN fds ELSE Less(fds, i)
                /\ busy' = 0 /\ UNCHANGED fs
OpenWrite(n, who, shut) ==
                /\ Idle
                /\ \E new \in Free \cup {0}, p \in {q \in Perms : who = "root" \/ q = Free2} :
                   LET out == WriteOutcome(fs, n, who, shut) f2 == AfterWrite(fs, n, who, shut, new, p) m == Follow(fs, n) IN
                   /\ new # 0 <=> (out.ok /\ fs[m].is = "absent")
                   /\ last' = [op |-> "write", at |-> n, out |-> out]
                   /\ held' = IF out.ok /\ f2[m].id # 0 THEN Another(held, f2[m].id) ELSE held
                   /\ fds' = IF out.ok /\ f2[m].id # 0 THEN Another(fds, f2[m].id) ELSE fds
                   /\ fs' = f2
                /\ UNCHANGED busy
(* no descriptor left *)
Starved(n, op) == /\ Idle /\ last' = [op |-> op, at |-> n, out |-> Refused("device")] /\ UNCHANGED <<fs, held, fds, busy>>
Drop(i)      == /\ Idle /\ held[i] > 0 /\ held' = Less(held, i) /\ fds' = Less(fds, i)
                /\ last' = [op |-> "drop", at |-> 0, out |-> NoProfile] /\ UNCHANGED <<fs, busy>>

(* what others do: make, fill, remove, move and link files *)
Env(f) == /\ Idle /\ fs' = f /\ last' = [op |-> "put", at |-> 0, out |-> NoProfile] /\ UNCHANGED <<held, fds, busy>>
Others == \E n \in Regular :
    \/ fs[n].is # "absent" /\ Env([fs EXCEPT ![n] = Absent])
    \/ fs[n].is = "absent" /\ \E d \in Contents : \E i \in Free : \E p \in Perms : Env([fs EXCEPT ![n] = File(i, d, p)])
    \/ fs[n].is = "absent" /\ \E m \in Names : Env([fs EXCEPT ![n] = Link(m)])
    \/ fs[n].is = "file" /\ \E d \in Contents :
         Env([k \in Names |-> IF SameFile(fs, n, k) THEN File(fs[k].id, d, PermsOf(fs[k])) ELSE fs[k]])
    \/ fs[n].is = "file" /\ \E p \in Perms :
         Env([k \in Names |-> IF SameFile(fs, n, k) THEN File(fs[k].id, fs[k].data, p) ELSE fs[k]])
    \/ \E m \in Regular \ {n} : fs[n].is = "file" /\ \/ Env([fs EXCEPT ![m] = fs[n]])
                                                     \/ ~SameFile(fs, n, m) /\ Env([fs EXCEPT ![m] = fs[n], ![n] = Absent])

Init == /\ \E d \in Names \ Regular : fs = [n \in Names |-> IF n = d THEN Folder ELSE Absent]
        /\ last = [op |-> "none", at |-> 0, out |-> NoProfile]
        /\ held = [i \in Ids |-> 0] /\ fds = [i \in Ids |-> 0] /\ busy = 0
Room(n) == LET m == Follow(fs, n) IN IF m = 0 THEN TRUE ELSE IF fs[m].id = 0 THEN TRUE ELSE held[fs[m].id] < MaxHeld
Next == \/ \E n \in Names : Room(n) /\ \E who \in {"root", "user"} :
              \/ OpenRead(n, who)
              \/ \E shut \in BOOLEAN : OpenWrite(n, who, shut)
        \/ \E n \in Names : \E op \in {"read", "write"} : Starved(n, op)
        \/ \E i \in Ids : Drop(i)
        \/ Others
        \/ Examine
Spec == Init /\ [][Next]_fvars

(* C07 *)
Coherent == \A n, m \in Names : SameFile(fs, n, m) => fs[n].data = fs[m].data
ReadsChangeNothing == [][last'.op \in {"read", "reading", "drop"} => fs' = fs]_fvars
WritesTouchOneFile == [][last'.op = "write" =>
    \A n \in Names : fs'[n] # fs[n] =>
        /\ n \in Touched(fs, last'.at)
        /\ fs'[n].is = "file" /\ fs'[n].data = Nothing
        /\ fs[n].is = "file" => fs'[n].id = fs[n].id /\ PermsOf(fs'[n]) = PermsOf(fs[n])]_fvars
LinksStay == [][last'.op # "put" => \A n \in Names : fs[n].is = "link" => fs'[n] = fs[n]]_fvars
WrittenIsEmpty == last.op = "write" /\ last.out.ok =>
    /\ last.out = Empty
    /\ LET m == Follow(fs, last.at) IN IF m = 0 THEN FALSE ELSE fs[m].is = "file" => fs[m].data = Nothing
RefusedMeansUntouched == [][last'.op # "put" /\ ~last'.out.ok => fs' = fs]_fvars
OkMeansFile == last.out.ok => LET m == Follow(fs, last.at) IN IF m = 0 THEN FALSE ELSE fs[m].is \in {"file", "null"}
(* the same file opens in the same way under all its names *)
AnyName == \A n, m \in Names : LET a == Follow(fs, n) b == Follow(fs, m) IN
    a # 0 /\ b # 0 /\ SameFile(fs, a, b) => \A who \in {"root", "user"} :
        /\ ReadOutcome(fs, n, who) = ReadOutcome(fs, m, who)
        /\ \A shut \in BOOLEAN : WriteOutcome(fs, n, who, shut) = WriteOutcome(fs, m, who, shut)
(* whoever may not even read a file learns nothing about it, and more rights never mean fewer opens *)
Rights == \A n \in Names : LET m == Follow(fs, n) IN m # 0 =>
    /\ fs[m].is = "file" /\ ~fs[m].rd => ReadOutcome(fs, n, "user") = Refused("PermissionDenied")
    /\ ReadOutcome(fs, n, "user").ok => ReadOutcome(fs, n, "root").ok
    /\ WriteOutcome(fs, n, "user", TRUE).ok => WriteOutcome(fs, n, "user", FALSE).ok
    /\ WriteOutcome(fs, n, "user", FALSE).ok => WriteOutcome(fs, n, "root", TRUE).ok
(* C32: outside of opens, the descriptors in use are those of the profiles alive *)
Owned == Idle => fds = held
Bounded == \A i \in Ids : fds[i] >= held[i] /\ fds[i] <= held[i] + 1
=============================================================================

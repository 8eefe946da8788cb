----------------------------- MODULE T_Profile -----------------------------
(* Validates recorded opens of real files against the reader's rules (ProfileRules). *)
EXTENDS FileImage

VARIABLE failed       \* an open of this run has failed before

(* the fields of the header a profile keeps, most significant byte first *)
Fields(e) ==
    [class |-> Num(Bytes(e, 12, 4)), space |-> Num(Bytes(e, 16, 4)), pcs |-> Num(Bytes(e, 20, 4)),
     version |-> Num(Bytes(e, 8, 4)), intent |-> Num(Bytes(e, 64, 4)), flags |-> Num(Bytes(e, 44, 4)),
     manuf |-> Num(Bytes(e, 48, 4)), model |-> Num(Bytes(e, 52, 4)), attrs |-> Num(Bytes(e, 56, 8)),
     creator |-> Num(Bytes(e, 80, 4)), id |-> Bytes(e, 84, 16), date |-> DateOf(e) \o <<0>>]

Default == <<8224, 8224>>          \* the signature of four spaces
Bare(t) == [sig |-> t.sig, off |-> t.off, size |-> t.size]
Directory(v) == [j \in DOMAIN v.tags |-> Bare(v.tags[j])]
Linked(tags, j) == P!LinkFor(SubSeq(tags, 1, j - 1), tags[j])
Distinct(tags) == \A j, k \in DOMAIN tags : tags[j].sig = tags[k].sig => j = k

Status(out) == IF out.ok THEN "ok" ELSE out.error
Decided == {"ok", "UnexpectedEof", "InvalidData", "NotFound", "IsADirectory"}

SearchRight(tags, s) ==
    LET sig == s[1] at == s[3] want == P!Resolve(tags, sig) first == P!First(tags, sig) IN
    /\ at = want
    /\ first = 0 <=> at = 0
    /\ at # 0 => /\ at \in DOMAIN tags
                 /\ tags[at].link = <<>>
                 /\ Distinct(tags) => P!SameData(tags[at], tags[first])

Open(e) ==
    LET img == Image(e)
        out == P!Outcome(img)
        ok  == e.r = "ok"
    IN
    /\ Must("C01", "an open must end in a profile or an error", e.r # "panic")
    /\ Must("C01", "a well-formed profile must open after a failed open",
            failed /\ out.ok => ok)
    /\ Must("C02", "outcome must be " \o Status(out) \o ", not " \o e.r, e.r = Status(out))
    /\ Must("C03", "header fields must be those of the file",
            ok /\ img.full => LET f == Fields(e) IN \A k \in DOMAIN f : e.view[k] = f[k])
    /\ Must("C04", "the directory must hold exactly the entries in bounds, in order",
            ok /\ out.ok => /\ Directory(e.view) = Directory([tags |-> out.dir])
                            /\ e.view.count = Len(out.dir))
    /\ Must("C05", "a tag is linked exactly to the last earlier tag with the same data",
            ok => \A j \in DOMAIN e.view.tags : e.view.tags[j].link = Linked(e.view.tags, j))
    /\ Must("C05", "following links must lead to the tag holding the data",
            ok => \A k \in DOMAIN e.search : SearchRight(e.view.tags, e.search[k]))
    /\ Must("C06", "the signature at a position is that of the tag there, else the default",
            ok => /\ e.view.count = Len(e.view.tags)
                  /\ \A k \in DOMAIN e.at : LET n == e.at[k][1] IN
                       e.at[k][2] = P!TagAt(e.view.tags, n, Default))
    /\ Must("C06", "a plain search finds the first tag with the signature",
            ok => \A k \in DOMAIN e.search : e.search[k][2] = P!First(e.view.tags, e.search[k][1]))
    /\ Must("C08", "a rejection for content is reported exactly once to the context used, nothing else is",
            IF e.r = "InvalidData" /\ out.error = "InvalidData" /\ ~e.muted
            THEN e.signals = <<<<e.via, out.signals[1]>>>>
            ELSE e.r \in {"ok", "UnexpectedEof"} => e.signals = <<>>)
    /\ failed' = (failed \/ ~ok)

(* opening something that is not there, or not a file *)
Missing(e) ==
    /\ Must("C01", "an open must end in a profile or an error", e.r # "panic")
    /\ Must("C02", "there is nothing to open", e.r # "ok")
    /\ Must("C08", "no content, no report", e.signals = <<>>)
    /\ failed' = TRUE

(* comparing two opened profiles; `same` if they were read from the same bytes *)
Equal(e) ==
    /\ Must("C10", "comparison must not fail", Len(e.eq) = 4)
    /\ Must("C10", "profiles are equal exactly if everything kept is equal",
            e.eq[1] = (e.a = e.b))
    /\ Must("C10", "comparison is symmetric", e.eq[2] = e.eq[1])
    /\ Must("C10", "a profile equals itself", e.eq[3] /\ e.eq[4])
    /\ Must("C10", "the same bytes give equal profiles", e.same => e.eq[1])
    /\ UNCHANGED failed

Init == l = 1 /\ failed = FALSE
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "open"    -> Open(Event)
             [] Event.ev = "missing" -> Missing(Event)
             [] Event.ev = "eq"      -> Equal(Event)
Spec == Init /\ [][Next]_<<l, failed>>
=============================================================================

------------------------------ MODULE Profile ------------------------------
(* The ICC profile reader as a state machine over one file, one action per step of the reader.

   The file is given as an image: what a reader of that file can find in it.
     full     the 128 header bytes are present          magic   the signature field is 'acsp'
     date     the creation date exists in the calendar   size    size field of the header (word)
     len      real length of the file (word)
     counted  the tag count is present                  count   its value (word)
     entries  the complete directory entries present in the file, at most `count` of them
   An entry is [sig, off, size]; a tag of the directory is [sig, off, size, link] where link is a
   sequence holding the signature of the tag whose data is shared, or the empty sequence.        *)
EXTENDS ProfileRules

---------------------------------------------------------------------------
(* The reader *)
CONSTANT Images                       \* the files considered

VARIABLES img, pc, i, dir, error, signals,
          look, at                    \* a link-following search in the finished directory
vars == <<img, pc, i, dir, error, signals, look, at>>

Init == /\ img \in Images
        /\ pc = "header" /\ i = 0 /\ dir = <<>> /\ error = "" /\ signals = <<>>
        /\ look = <<>> /\ at = 0

Refuse(e, s) == /\ pc' = "refused" /\ error' = e /\ signals' = signals \o s
                /\ dir' = <<>>        \* no profile: nothing of it is visible
                /\ UNCHANGED <<img, i, look, at>>
Advance(p)   == /\ pc' = p /\ UNCHANGED <<img, i, dir, error, signals, look, at>>

ReadHeader == /\ pc = "header"
              /\ IF img.full THEN Advance("magic") ELSE Refuse("UnexpectedEof", <<>>)
CheckMagic == /\ pc = "magic"
              /\ IF img.magic THEN Advance("date") ELSE Refuse("InvalidData", <<"BadSignature">>)
CheckDate  == /\ pc = "date"
              /\ IF img.date THEN Advance("count")
                 ELSE Refuse("InvalidData", <<"CorruptionDetected">>)
ReadCount  == /\ pc = "count"
              /\ IF ~img.counted THEN Refuse("UnexpectedEof", <<>>)
                 ELSE IF TooMany(img) THEN Refuse("InvalidData", <<"Range">>)
                 ELSE Advance("entries")
ReadEntry  == /\ pc = "entries" /\ i < Count(img)
              /\ IF i + 1 > Len(img.entries) THEN Refuse("UnexpectedEof", <<>>)
                 ELSE /\ dir' = Extend(dir, img.entries[i + 1], Limit(img))
                      /\ i' = i + 1
                      /\ UNCHANGED <<img, pc, error, signals, look, at>>
Finish     == /\ pc = "entries" /\ i = Count(img) /\ Advance("open")

(* searching the open profile for a signature, following links *)
Sigs == {img.entries[k].sig : k \in 1..Len(img.entries)}
StartSearch == /\ pc = "open"
               /\ \E s \in Sigs : look' = <<s>> /\ at' = 0
               /\ pc' = "search" /\ UNCHANGED <<img, i, dir, error, signals>>
SearchStep == /\ pc = "search"
              /\ LET j == First(dir, look[1]) IN
                 IF j = 0 THEN pc' = "none" /\ UNCHANGED <<look, at>>
                 ELSE IF dir[j].link = <<>> THEN pc' = "found" /\ at' = j /\ UNCHANGED look
                 ELSE pc' = "search" /\ look' = dir[j].link /\ at' = j
              /\ UNCHANGED <<img, i, dir, error, signals>>

Next == ReadHeader \/ CheckMagic \/ CheckDate \/ ReadCount \/ ReadEntry \/ Finish
        \/ StartSearch \/ SearchStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* Properties *)
Done == pc \in {"open", "refused", "search", "found", "none"}
Opened == pc \in {"open", "search", "found", "none"}

(* C01: every file leads to a profile or an error; every search ends *)
AlwaysDecides == <>(pc \in {"open", "search", "found", "none", "refused"})
SearchEnds    == [](pc = "search" => <>(pc \in {"found", "none"}))

(* C02 *)
WellFormed == /\ img.full /\ img.magic /\ img.date /\ img.counted
              /\ ~TooMany(img) /\ Len(img.entries) = Count(img)
AcceptExact == Done => (Opened <=> WellFormed)
ErrorKind   == pc = "refused" =>
                 \/ error = "UnexpectedEof" /\ signals = <<>>
                 \/ error = "InvalidData"   /\ Len(signals) = 1
(* the steps and the closed form agree: the latter is what traces are compared with *)
ClosedForm == /\ pc = "refused" => Outcome(img) = Fail(error, signals)
              /\ Opened => Outcome(img) = Ok(dir)

(* C04, in terms of the integers the words stand for *)
End(t) == W!ToNat(t.off) + W!ToNat(t.size)
Lim    == LET a == W!ToNat(img.size) b == W!ToNat(img.len) IN IF a <= b THEN a ELSE b
DirSound == \A j \in 1..Len(dir) : End(dir[j]) <= Lim
Strip(t) == [sig |-> t.sig, off |-> t.off, size |-> t.size]
DirExact == Opened =>
    [j \in 1..Len(dir) |-> Strip(dir[j])] = SelectSeq(img.entries, LAMBDA e : End(e) <= Lim)
DirBound == Len(dir) <= MaxTags

(* C05 *)
LinksRight == \A j \in 1..Len(dir) :
    LET earlier == {k \in 1..(j - 1) : SameData(dir[k], dir[j])} IN
    IF earlier = {} THEN dir[j].link = <<>>
    ELSE dir[j].link = <<dir[CHOOSE k \in earlier : \A m \in earlier : m <= k].sig>>
Distinct == \A j, k \in 1..Len(dir) : dir[j].sig = dir[k].sig => j = k
ResolveTotal == \A s \in Sigs :
    LET r == Resolve(dir, s) IN
    /\ r # -1
    /\ r = 0 <=> First(dir, s) = 0
    /\ r > 0 => /\ dir[r].link = <<>>
                /\ Distinct => SameData(dir[r], dir[First(dir, s)])
SearchAgrees == /\ pc = "found" => dir[at].link = <<>>
                /\ pc = "search" /\ at # 0 => First(dir, look[1]) < at     \* the variant: strictly down

(* C06 *)
LookupTotal == \A n \in 0..(MaxTags + 1) :
    TagAt(dir, n, "none") = IF n < Len(dir) THEN dir[n + 1].sig ELSE "none"

(* C08 *)
OneReport == Len(signals) = IF pc = "refused" /\ error = "InvalidData" THEN 1 ELSE 0

Inv == AcceptExact /\ ErrorKind /\ ClosedForm /\ DirSound /\ DirExact /\ DirBound /\ LinksRight
       /\ ResolveTotal /\ SearchAgrees /\ LookupTotal /\ OneReport
=============================================================================

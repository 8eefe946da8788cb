---------------------------- MODULE ProfileRules ----------------------------
(* The rules an ICC profile reader follows, as operators over an image of the file (see Profile). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Base,        \* digit base of words
          MaxTags      \* limit of the directory

W == INSTANCE Words

---------------------------------------------------------------------------
(* Rules used by the reader (and by the trace specification) *)

Limit(img) == W!Min(img.size, img.len)

InBounds(e, limit) ==
    LET end == W!AddC(e.off, e.size)
    IN  end.carry = 0 /\ W!Leq(end.word, limit)

SameData(t, e) == t.off = e.off /\ t.size = e.size

(* the last earlier tag covering the same bytes, 0 if there is none *)
LastShared(dir, e) ==
    LET js == {j \in 1..Len(dir) : SameData(dir[j], e)}
    IN  IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : k <= j

LinkFor(dir, e) == LET j == LastShared(dir, e)
                   IN  IF j = 0 THEN <<>> ELSE <<dir[j].sig>>

Extend(dir, e, limit) ==
    IF InBounds(e, limit)
    THEN Append(dir, [sig |-> e.sig, off |-> e.off, size |-> e.size, link |-> LinkFor(dir, e)])
    ELSE dir

TooMany(img) == ~W!Leq(img.count, W!OfNat(MaxTags, Len(img.count)))
Count(img)   == W!ToNat(img.count)          \* only meaningful if ~TooMany(img)

(* first tag with this signature, 0 if none *)
First(dir, sig) ==
    LET js == {j \in 1..Len(dir) : dir[j].sig = sig}
    IN  IF js = {} THEN 0 ELSE CHOOSE j \in js : \A k \in js : j <= k

(* Position of the tag that holds the data of `sig`, following links. 0: no such tag,
   -1: the links go round in circles (fuel = more steps than there are tags).          *)
RECURSIVE Follow(_, _, _)
Follow(dir, sig, fuel) ==
    LET j == First(dir, sig)
    IN  IF j = 0 THEN 0
        ELSE IF dir[j].link = <<>> THEN j
        ELSE IF fuel = 0 THEN -1
        ELSE Follow(dir, dir[j].link[1], fuel - 1)
Resolve(dir, sig) == Follow(dir, sig, Len(dir))

TagAt(dir, n, default) == IF n < Len(dir) THEN dir[n + 1].sig ELSE default   \* n counts from 0

RECURSIVE ReadAll(_, _, _, _)
ReadAll(dir, entries, i, limit) ==
    IF i > Len(entries) THEN dir
    ELSE ReadAll(Extend(dir, entries[i], limit), entries, i + 1, limit)

(* The outcome of opening the file for reading *)
Ok(dir)       == [ok |-> TRUE,  error |-> "",  dir |-> dir, signals |-> <<>>]
Fail(e, sigs) == [ok |-> FALSE, error |-> e,   dir |-> <<>>, signals |-> sigs]

Outcome(img) ==
    IF ~img.full       THEN Fail("UnexpectedEof", <<>>)
    ELSE IF ~img.magic THEN Fail("InvalidData", <<"BadSignature">>)
    ELSE IF ~img.date  THEN Fail("InvalidData", <<"CorruptionDetected">>)
    ELSE IF ~img.counted THEN Fail("UnexpectedEof", <<>>)
    ELSE IF TooMany(img) THEN Fail("InvalidData", <<"Range">>)
    ELSE IF Len(img.entries) < Count(img) THEN Fail("UnexpectedEof", <<>>)
    ELSE Ok(ReadAll(<<>>, img.entries, 1, Limit(img)))
=============================================================================

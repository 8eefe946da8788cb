------------------------------ MODULE T_Values ------------------------------
(* Validates recorded conversions of values. *)
EXTENDS Tracing, Gregorian, Floats
Sg == INSTANCE Signatures
L  == INSTANCE Layout
Pr == INSTANCE Printing
Rg == INSTANCE Registry
Eq == INSTANCE Equality
VARIABLE seen       \* what has been printed in this history

Name(mod) == CASE mod = "be" -> "big" [] mod = "le" -> "little" [] OTHER -> IF Meta.little THEN "little" ELSE "big"
Adj(e) ==
    LET want == Sg!Adjust(Meta.host, Name(e.mod), e.in)
        ids == {"C18"} \cup IF e.mod = "default" THEN {"C19"} ELSE {}
    IN \A id \in ids :
       /\ Must(id, "byte-order helper for arrays", e.arr = want)
       /\ Must(id, "byte-order helper for integers", e.int = want)
       /\ Must(id, "applied twice the helper gives the value back", e.arr2 = e.in /\ e.int2 = e.in)

Sig(e) ==
    LET b == Sg!Pad(e.in) IN
    /\ Must("C21", "converting a signature must not fail", e.r = "ok")
    /\ e.r = "ok" =>
       /\ Must("C21", "number of the signature made from " \o e.how, e.num = b)
       /\ Must("C21", "bytes of the signature made from " \o e.how, e.bytes = b)
       /\ Must("C21", "text of the signature made from " \o e.how, e.text = Sg!Text(b))
       /\ Must("C21", "signature made again from its bytes, number and text",
               /\ e.again = <<TRUE, TRUE>>
               /\ (e.textagain = (Sg!Text(b) = b)))
SigEq(e) ==
    /\ Must("C21", "signatures are equal exactly if their bytes are", e.eq = (Sg!Pad(e.a) = Sg!Pad(e.b)))
    /\ Must("C21", "comparison is symmetric", e.sym = e.eq)

(* the named signatures *)
Named(e) ==
    /\ Must("C21", "a signature that the registry does not know: " \o e.name, e.name \in Rg!Names)
    /\ Must("C21", e.name \o " must be " \o Rg!Value(e.name) \o ", not " \o e.is, e.is = Rg!Value(e.name))

Date(e) == ValidDate(e.d) =>
    /\ Must("C22", "a valid date must convert", e.r = "ok")
    /\ e.r = "ok" => /\ Must("C22", "the calendar date must be the ICC date", e.to = e.d \o <<0>>)
                     /\ Must("C22", "converted back it must be the same", e.back = e.d)
(* six numbers are recognised as a date exactly if there is such a date *)
Opt(e) ==
    /\ Must("C22", "a valid date converts, anything else is recognised as no date", e.r = IF ValidDate(e.d) THEN "some" ELSE "none")
    /\ e.r = "some" => Must("C22", "the calendar date must be the ICC date", e.to = e.d \o <<0>>)
NDate(e) ==
    /\ Must("C22", "a calendar date must convert", e.r = "ok")
    /\ e.r = "ok" => Must("C22", "the ICC date must be the calendar date without fraction", e.out = SubSeq(e.in, 1, 6))

Lay(e) == IF e.what = "header" THEN L!Header ELSE L!Entry
Dec(e) == \A id \in {"C23", "C19"} :
    /\ Must(id, "decoding must not fail", e.r = "ok")
    /\ e.r = "ok" =>
       LET want == L!Decode(e.in, Lay(e), Num) IN
       /\ Must(id, "the fields must be those stored at their places",
               /\ Len(e.fields) = Len(want)
               /\ \A i \in DOMAIN want : e.fields[i] = want[i])
       /\ Must(id, "encoding what was decoded must give the same bytes", e.enc = e.in)
Enc(e) == \A id \in {"C23", "C19"} :
    /\ Must(id, "encoding must not fail", e.r = "ok")
    /\ e.r = "ok" =>
       /\ Must(id, "the bytes must hold the fields at their places", e.out = L!Encode(e.fields, Lay(e), Num))
       /\ Must(id, "decoding what was encoded must give the same fields", e.back = e.fields /\ e.same)

(* equality of values, and the order of error codes *)
Alike(e) ==
    LET want == Eq!Equal(e.what, e.a, e.b)
        self == Eq!Ordinary(e.what, e.a)
    IN
    /\ Must("C43", "comparing two of " \o e.what \o " must not fail", e.r = "ok")
    /\ e.r = "ok" => Must("C43", "two of " \o e.what \o " are equal exactly if all of their parts are: " \o ToString(e.a) \o " and " \o ToString(e.b),
                         e.is = <<want, want, ~want, self, self>>)
Code(e) ==
    LET o == Eq!Order(e.a, e.b) IN
    /\ Must("C43", "error codes are numbered as documented", e.a = e.place /\ e.a \in Eq!Codes)
    /\ Must("C43", "comparing error codes must not fail", e.r = "ok")
    /\ e.r = "ok" =>
       Must("C43", "error codes compare as their numbers " \o ToString(e.a) \o " and " \o ToString(e.b),
            /\ e.cmp = o
            /\ SubSeq(e.is, 1, 6) = <<o = "equal", o = "less", o = "greater", o # "greater", o # "less", TRUE>>
            /\ o = "equal" => e.is[7])

(* printed forms *)
Printed(e) ==
    /\ Must("C37", "printing " \o e.what \o " must not fail", e.r = "ok")
    /\ e.r = "ok" =>
       /\ e.what = "signature" => Must("C37", "printed form " \o e.shown \o " of the signature " \o ToString(e.b), Pr!ShowsSignature(e.text, e.b))
       /\ e.what = "id" => Must("C37", "printed form " \o e.shown \o " of the ID " \o ToString(e.b), Pr!ShowsId(e.text, e.b))
       /\ e.what # "profile" =>
          Must("C37", "different values must look different, equal ones the same: " \o e.shown, Pr!TellsApart(seen, e.b, e.pretty, e.shown))
    /\ seen' = IF e.what # "profile" /\ e.r = "ok" THEN Append(seen, [b |-> e.b, pretty |-> e.pretty, t |-> e.shown]) ELSE seen

Init == l = 1 /\ seen = <<>>
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "print" -> Printed(Event)
             [] Event.ev = "pnew"  -> seen' = <<>>
             [] OTHER -> /\ UNCHANGED seen
                         /\ CASE Event.ev = "adj"   -> Adj(Event)
                              [] Event.ev = "sig"   -> Sig(Event)
                              [] Event.ev = "sigeq" -> SigEq(Event)
                              [] Event.ev = "named" -> Named(Event)
                              [] Event.ev = "date"  -> Date(Event)
                              [] Event.ev = "opt"   -> Opt(Event)
                              [] Event.ev = "ndate" -> NDate(Event)
                              [] Event.ev = "dec"   -> Dec(Event)
                              [] Event.ev = "equal" -> Alike(Event)
                              [] Event.ev = "codes" -> Code(Event)
                              [] Event.ev = "enc"   -> Enc(Event)
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================

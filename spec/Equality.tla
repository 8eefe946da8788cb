------------------------------ MODULE Equality ------------------------------
(* When values of the plain types (headers, directory entries, dates, colours, signatures, IDs) are
   equal. A value is the sequence of its parts; the parts of a colour are floating point numbers, those
   of anything else sequences of bytes. Error codes are compared by their numbers.                *)
EXTENDS Integers, Sequences, Floats

SamePart(what, a, b) == IF what = "colour" THEN FEq(a, b) ELSE a = b
Equal(what, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SamePart(what, a[i], b[i])
(* a number that is none is the only thing that is not equal to itself *)
Ordinary(what, a) == what = "colour" => \A i \in DOMAIN a : ~FNaN(a[i])

Order(m, n) == IF m < n THEN "less" ELSE IF m = n THEN "equal" ELSE "greater"
Codes == 0..13
=============================================================================

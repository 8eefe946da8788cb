------------------------------ MODULE Printing ------------------------------
(* Printed forms of signatures and profile IDs. Texts are sequences of character codes (bytes of the
   UTF-8 text). A signature prints its four characters in quotes if its bytes are UTF-8, else the four
   bytes in hexadecimal; an ID prints its sixteen bytes in hexadecimal.                           *)
EXTENDS Signatures

Quote == 34
Plain(c) == c \in 32..126 /\ c # Quote /\ c # 92      \* printed as it is, without an escape
HexDigit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexValue(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

(* what is between the first and the last quote of a text; <<>> if there are not two *)
Quoted(t) ==
    LET at == {i \in DOMAIN t : t[i] = Quote} IN
    IF at = {} THEN <<>>
    ELSE LET first == CHOOSE i \in at : \A j \in at : i <= j
             last == CHOOSE i \in at : \A j \in at : i >= j
         IN  SubSeq(t, first + 1, last - 1)

(* a text of hexadecimal numbers as their values; -1 for what is not one *)
RECURSIVE NumbersFrom(_, _, _, _)
NumbersFrom(t, i, open, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF t[i] = 32 THEN NumbersFrom(t, i + 1, FALSE, acc)
    ELSE LET d == IF HexDigit(t[i]) THEN HexValue(t[i]) ELSE -1 IN
         IF open THEN NumbersFrom(t, i + 1, TRUE, [acc EXCEPT ![Len(acc)] = IF @ < 0 \/ @ > 255 \/ d < 0 THEN -1 ELSE @ * 16 + d])
         ELSE NumbersFrom(t, i + 1, TRUE, Append(acc, d))
Numbers(t) == NumbersFrom(t, 1, FALSE, <<>>)

(* does this text show the signature of these bytes? Characters that need an escape may look any way. *)
ShowsSignature(t, b) ==
    IF ~Utf8(b) THEN Numbers(Quoted(t)) = b
    ELSE (\A i \in DOMAIN b : Plain(b[i])) => Quoted(t) = b
ShowsId(t, b) == Numbers(Quoted(t)) = b

(* printed in the same form one after the other, different values look different and equal ones the same *)
TellsApart(seen, b, pretty, t) == \A i \in DOMAIN seen : seen[i].pretty = pretty => (seen[i].b = b) = (seen[i].t = t)
=============================================================================

----------------------------- MODULE Signatures -----------------------------
(* Four-byte signatures, their text form, and byte-order helpers. *)
EXTENDS Integers, Sequences

(* cut to four bytes, or padded with spaces on the right *)
Pad(b) == [i \in 1..4 |-> IF i <= Len(b) THEN b[i] ELSE 32]

(* UTF-8 (Unicode table 3-7): the length of the character starting at i, or 0 *)
In(b, i, lo, hi) == i <= Len(b) /\ b[i] \in lo..hi
CharAt(b, i) ==
    CASE In(b, i, 0, 127) -> 1
      [] In(b, i, 194, 223) /\ In(b, i + 1, 128, 191) -> 2
      [] In(b, i, 224, 224) /\ In(b, i + 1, 160, 191) /\ In(b, i + 2, 128, 191) -> 3
      [] (In(b, i, 225, 236) \/ In(b, i, 238, 239)) /\ In(b, i + 1, 128, 191) /\ In(b, i + 2, 128, 191) -> 3
      [] In(b, i, 237, 237) /\ In(b, i + 1, 128, 159) /\ In(b, i + 2, 128, 191) -> 3
      [] In(b, i, 240, 240) /\ In(b, i + 1, 144, 191) /\ In(b, i + 2, 128, 191) /\ In(b, i + 3, 128, 191) -> 4
      [] In(b, i, 241, 243) /\ In(b, i + 1, 128, 191) /\ In(b, i + 2, 128, 191) /\ In(b, i + 3, 128, 191) -> 4
      [] In(b, i, 244, 244) /\ In(b, i + 1, 128, 143) /\ In(b, i + 2, 128, 191) /\ In(b, i + 3, 128, 191) -> 4
      [] OTHER -> 0
RECURSIVE ValidFrom(_, _)
ValidFrom(b, i) == IF i > Len(b) THEN TRUE
                   ELSE LET n == CharAt(b, i) IN n # 0 /\ ValidFrom(b, i + n)
Utf8(b) == ValidFrom(b, 1)

Spaces == <<32, 32, 32, 32>>
Text(b) == IF Utf8(b) THEN b ELSE Spaces

(* Helpers between the native order of a host and an order of the wire *)
Reverse4(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Adjust(host, order, mem) == IF host = order THEN mem ELSE Reverse4(mem)
=============================================================================

---------------------------- MODULE MC_Printing ----------------------------
(* A printer that satisfies the rules exists and tells everything apart: all values over an alphabet
   with spaces, quotes, digits, letters, escapes and both sorts of high bytes.                    *)
EXTENDS Printing, FiniteSets, TLC
CONSTANT Alphabet
VARIABLE s
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
(* the library pads with a space to two places, and puts spaces around *)
Hex(c) == <<32, IF c < 16 THEN 32 ELSE Digit(c \div 16), Digit(c % 16), 32>>
RECURSIVE Hexes(_, _)
Hexes(b, i) == IF i > Len(b) THEN <<>> ELSE Hex(b[i]) \o Hexes(b, i + 1)
RECURSIVE Escaped(_, _)
Escaped(b, i) == IF i > Len(b) THEN <<>>
    ELSE (IF b[i] > 127 \/ Plain(b[i]) THEN <<b[i]>> ELSE IF b[i] = Quote THEN <<92, Quote>> ELSE IF b[i] = 92 THEN <<92, 92>>
          ELSE <<92, 120>> \o Hex(b[i])) \o Escaped(b, i + 1)
Name == <<83, 32, 123, 32, 118, 58, 32>>
PrintSig(b) == Name \o <<Quote>> \o (IF Utf8(b) THEN Escaped(b, 1) ELSE Hexes(b, 1)) \o <<Quote, 32, 125>>
PrintId(b) == Name \o <<Quote>> \o Hexes(b, 1) \o <<Quote, 32, 125>>

Init == s = <<>>
Next == Len(s) < 4 /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Inv == Len(s) = 4 => /\ ShowsSignature(PrintSig(s), s) /\ ShowsId(PrintId(s), s)
                     /\ Numbers(Hexes(s, 1)) = s
(* no two values share a form (the states are distinct values: as many forms as values) *)
Four == [1..4 -> Alphabet]
ASSUME Cardinality({PrintSig(b) : b \in Four}) = Cardinality(Four)
ASSUME Cardinality({PrintId(b) : b \in Four}) = Cardinality(Four)
ASSUME Numbers(<<49, 50, 32, 51>>) = <<18, 3>> /\ Numbers(<<103>>) = <<-1>> /\ Numbers(<<49, 50, 51, 52, 53>>) = <<-1>> /\ Numbers(<<>>) = <<>>
=============================================================================

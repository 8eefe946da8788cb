---------------------------- MODULE MC_Registry ----------------------------
(* Every name is assigned once; within a family only aliases share a signature; all are four printable
   ASCII characters; the series (colour spaces of n channels, tables of intent n) are in order.     *)
EXTENDS Registry, TLC
VARIABLE done
F == 1..Len(Families)
Printable == {" ", "*", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} \cup
    {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"} \cup
    {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
ASSUME Cardinal == Len(All) > 200
ASSUME Once == \A i, j \in DOMAIN All : All[i].name = All[j].name => i = j
ASSUME Distinct == \A f \in F : \A i, j \in DOMAIN Families[f] :
    i # j /\ Families[f][i].is = Families[f][j].is => {Families[f][i].name, Families[f][j].name} \in Aliases
ASSUME Four == \A i \in DOMAIN All : Len(All[i].is) = 4 /\ \A k \in 1..4 : SubSeq(All[i].is, k, k) \in Printable
Hex == <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
ASSUME Series == \A n \in 1..15 :
    /\ Value("color_space::COLOR" \o ToString(n)) = Hex[n] \o "CLR"
    /\ Value("color_space::MCH" \o Hex[n]) = "MCH" \o Hex[n]
ASSUME Tables == \A n \in 0..3 :
    /\ Value("tag::D_TO_B" \o ToString(n)) = "D2B" \o ToString(n) /\ Value("tag::B_TO_D" \o ToString(n)) = "B2D" \o ToString(n)
    /\ n < 3 => Value("tag::A_TO_B" \o ToString(n)) = "A2B" \o ToString(n) /\ Value("tag::B_TO_A" \o ToString(n)) = "B2A" \o ToString(n)
    /\ n < 3 => Value("tag::PREVIEW" \o ToString(n)) = "pre" \o ToString(n)
    /\ Value("tag::PS2_CRD" \o ToString(n)) = "psd" \o ToString(n)
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================

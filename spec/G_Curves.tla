------------------------------ MODULE G_Curves ------------------------------
(* Enumerates curves and inputs on, just below and just above the boundaries between their pieces.
   Numbers are integers in units of 1/1024.                                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Gammas, Slopes, Shifts, Cuts
U == 1024
Types == <<1, 2, 3, 4, 5, 6, 7, 8, 108, 109>>
SlopesDef == {-2048, -1024, 0, 512, 1024, 2048}
SlopesQ == {-1024, 0, 512, 2048}
ShiftsDef == {-1024, -256, 0, 128, 512}
ShiftsQ == {-256, 0, 512}
CutsDef == {-128, 0, 64, 512}
CutsQ == {-128, 0, 512}
Params(t) ==
    CASE t \in {1, 108, 109} -> {<<g>> : g \in Gammas}
      [] t = 2 -> {<<g, a, b>> : g \in Gammas, a \in Slopes, b \in Shifts}
      [] t \in {3, 6} -> {<<g, a, b, c>> : g \in Gammas, a \in Slopes, b \in Shifts, c \in Cuts}
      [] t = 4 -> {<<g, a, b, c, d>> : g \in Gammas, a \in Slopes, b \in Shifts, c \in Slopes, d \in Cuts}
      [] t = 5 -> {<<g, a, b, c, d, e, f>> : g \in Gammas, a \in Slopes, b \in Shifts, c \in {0, 512, 1024}, d \in Cuts,
                                             e \in {0, 128}, f \in {-128, 0, 64}}
      [] t = 7 -> {<<g, a, b, c, d>> : g \in Gammas, a \in Slopes, b \in Slopes, c \in Shifts, d \in {0, 128}}
      [] t = 8 -> {<<a, b, c, d, e>> : a \in Slopes, b \in {-2048, -1024, 0, 512, 1024, 2048}, c \in Slopes, d \in Shifts, e \in {0, 128}}
(* the input at which a * x + b vanishes, if it is one of the numbers *)
Root(a, b) == IF a # 0 /\ (b * U) % (IF a < 0 THEN 0 - a ELSE a) = 0 THEN {0 - ((b * U) \div a)} ELSE {}
Special(t, p) ==
    CASE t \in {2, 3, 6} -> Root(p[2], p[3])
      [] t \in {4, 5} -> Root(p[2], p[3]) \cup {p[5]}
      [] t = 7 -> IF p[1] = U THEN Root(p[3], p[4]) ELSE {}
      [] OTHER -> {}
Around(s) == s \cup {x - 1 : x \in s} \cup {x + 1 : x \in s}
(* values where the pieces of the reversed curve meet *)
Straight(a, x, b) == IF (a * x) % U = 0 THEN {((a * x) \div U) + b} ELSE {}
SpecialBack(t, p) ==
    CASE t \in {3, 6} -> {p[4]}
      [] t = 4 -> IF p[1] = U THEN Straight(p[2], p[5], p[3]) ELSE {}
      [] t = 5 -> {p[6]} \cup Straight(p[4], p[5], p[7])
      [] t \in {7, 8} -> {p[5]}
      [] OTHER -> {}
Values(t, p) == Around(SpecialBack(t, p) \cup {0, U}) \cup {-512, 300, 512, 2100}
Inputs(t, p) == Around(Special(t, p) \cup {0, U}) \cup {-512, 300, 512, 2100}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION {{[t |-> Types[i], p |-> p, x |-> SetToSeq(Inputs(Types[i], p)),
                                                      y |-> SetToSeq(Values(Types[i], p))] : p \in Params(Types[i])} : i \in DOMAIN Types}))
=============================================================================

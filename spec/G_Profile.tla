----------------------------- MODULE G_Profile -----------------------------
(* Enumerates files for the real reader: all directories over small sets of signatures, offsets and
   sizes chosen around the limits, for several header sizes and file lengths.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
CONSTANT Entries3     \* how many three-entry directories to draw

w(v) == IF v >= 0 THEN <<0, v>> ELSE <<65535, 65536 + v>>       \* 32-bit words; -v is 2^32 - v
Entry == [sig : {<<25701, 29539>>, <<16690, 16944>>}, off : {w(0), w(90), w(200), w(-8)},
          size : {w(0), w(8), w(110), w(111), w(-2)}]
Shapes(n) == [magic : {TRUE}, date : {TRUE}, size : {w(200), w(1000)}, count : {w(n)},
              entries : [1..n -> Entry], len : {200, 250}]
Broken == [magic : BOOLEAN, date : BOOLEAN, size : {w(200)}, count : {w(0), w(1), w(100), w(101), w(-1), <<1, 0>>},
           entries : {<<>>}, len : {36, 40, 127, 128, 131, 132, 143, 144, 200}]
Three == UNION {RandomSubset(Entries3, [magic : {TRUE}, date : {TRUE}, size : {s}, count : {w(3)},
              entries : [1..3 -> Entry], len : {200}]) : s \in {w(200), w(199), w(-1)}}
Cases == Broken \cup Shapes(0) \cup Shapes(1) \cup Shapes(2) \cup Three
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================

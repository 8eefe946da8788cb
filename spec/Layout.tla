------------------------------- MODULE Layout -------------------------------
(* The ICC header and the directory entry: fields in order with their widths. A field made of numbers
   has the width of one number; raw fields are strings of bytes.                                  *)
EXTENDS Integers, Sequences
F(name, at, width, count) == [name |-> name, at |-> at, width |-> width, count |-> count]
Header == <<F("size", 0, 4, 1), F("cmm", 4, 4, 1), F("version", 8, 4, 1), F("class", 12, 4, 1),
            F("space", 16, 4, 1), F("pcs", 20, 4, 1), F("date", 24, 2, 6), F("magic", 36, 4, 1),
            F("platform", 40, 4, 1), F("flags", 44, 4, 1), F("manuf", 48, 4, 1), F("model", 52, 4, 1),
            F("attrs", 56, 8, 1), F("intent", 64, 4, 1), F("illuminant", 68, 4, 3),
            F("creator", 80, 4, 1), F("id", 84, 1, 16), F("reserved", 100, 1, 28)>>
Entry == <<F("sig", 0, 4, 1), F("offset", 4, 4, 1), F("size", 8, 4, 1)>>

Span(f) == f.width * f.count
(* the numbers of a field, each most significant byte first; order(_) turns stored into that *)
Cut(b, f, order(_)) == [k \in 1..f.count |-> order(SubSeq(b, f.at + (k - 1) * f.width + 1, f.at + k * f.width))]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Decode(b, lay, order(_)) == [i \in DOMAIN lay |-> Flat(Cut(b, lay[i], order))]
Stored(v, f, order(_)) == Flat([k \in 1..f.count |-> order(SubSeq(v, (k - 1) * f.width + 1, k * f.width))])
Encode(vs, lay, order(_)) == Flat([i \in DOMAIN lay |-> Stored(vs[i], lay[i], order)])
=============================================================================

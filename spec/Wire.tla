-------------------------------- MODULE Wire --------------------------------
(* Typed values on the wire. A value is a sequence of elements; an element is the sequence of its
   bytes, most significant first, or for fixed-point numbers: to be written, a double (see Floats);
   read, an exact number of four digits (see Fixed).                                              *)
EXTENDS Integers, Sequences
CONSTANT Order(_)      \* bytes of one element, most significant first <-> as stored

Fx == INSTANCE Fixed WITH Base <- 65536
Rd == INSTANCE Rounding

Width == [u8 |-> 1, u16 |-> 2, u16a |-> 2, u32 |-> 4, u64 |-> 8, f32 |-> 4, s15 |-> 4, xyz |-> 4]
IsFixed(t) == t \in {"s15", "xyz"}

(* in halves, to keep the recursion flat for long arrays *)
RECURSIVE Concat(_, _, _)
Concat(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN s[i]
                   ELSE LET m == (i + j) \div 2 IN Concat(s, i, m) \o Concat(s, m + 1, j)

BytesOf(raw) == <<raw[1] \div 256, raw[1] % 256, raw[2] \div 256, raw[2] % 256>>
RawOf(b) == <<b[1] * 256 + b[2], b[3] * 256 + b[4]>>

EncodeOne(t, e) == Order(IF IsFixed(t) THEN BytesOf(Rd!Raw(e)) ELSE e)
Encode(t, v) == Concat([i \in DOMAIN v |-> EncodeOne(t, v[i])], 1, Len(v))

DecodeOne(t, b) == IF IsFixed(t) THEN Fx!Decode(RawOf(Order(b))) ELSE Order(b)
Decode(t, b) == LET k == Width[t] IN
    [i \in 1..(Len(b) \div k) |-> DecodeOne(t, SubSeq(b, (i - 1) * k + 1, i * k))]
=============================================================================

----------------------------- MODULE MC_Values -----------------------------
(* Consistency of the value rules: signatures over all strings up to five bytes from an alphabet with
   the boundaries of UTF-8, against an independent definition of UTF-8 by encoding all characters;
   the layouts tile their 128 and 12 bytes; encoding and decoding are inverse in both orders.      *)
EXTENDS Signatures, TLC
CONSTANT Alphabet
L == INSTANCE Layout
VARIABLE s

(* the encodings of the characters at the limits of the ranges, by arithmetic *)
Enc(c) == CASE c < 128 -> <<c>>
            [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
            [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111
(* b is one character: the only candidate is found by decoding, and must encode to b again *)
Dec(b) == CASE Len(b) = 1 -> b[1]
            [] Len(b) = 2 -> (b[1] % 32) * 64 + (b[2] % 64)
            [] Len(b) = 3 -> (b[1] % 16) * 4096 + (b[2] % 64) * 64 + (b[3] % 64)
            [] OTHER -> (b[1] % 8) * 262144 + (b[2] % 64) * 4096 + (b[3] % 64) * 64 + (b[4] % 64)
OneChar(b) == Scalar(Dec(b)) /\ Enc(Dec(b)) = b
RECURSIVE Splits(_)
Splits(b) == b = <<>> \/ \E n \in 1..4 : n <= Len(b) /\ OneChar(SubSeq(b, 1, n)) /\ Splits(SubSeq(b, n + 1, Len(b)))

Init == s = <<>>
Next == Len(s) < 4 /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
PadLaws == LET p == Pad(s) IN
    /\ Len(p) = 4 /\ Pad(p) = p
    /\ \A i \in DOMAIN s : i <= 4 => p[i] = s[i]
    /\ Pad(s \o <<32>>) = Pad(s) /\ (Len(s) >= 4 => Pad(s \o <<65>>) = p)
TextLaws == /\ Utf8(s) = Splits(s)
            /\ Utf8(Text(Pad(s)))
            /\ Text(Text(Pad(s))) = Text(Pad(s))
OrderLaws == \A h, o \in {"big", "little"} :
    /\ Adjust(h, o, Adjust(h, o, s)) = s
    /\ (Adjust(h, o, s) = s \/ h # o)
    /\ h # o => Adjust(h, o, s) = Reverse4(s)
Inv == PadLaws /\ TextLaws /\ OrderLaws

Id(b) == b
Tiles(lay, n) ==
    /\ lay[1].at = 0
    /\ \A i \in DOMAIN lay : lay[i].at + L!Span(lay[i]) = IF i = Len(lay) THEN n ELSE lay[i + 1].at
Inverse(lay, n) ==
    LET b == [i \in 1..n |-> i] IN
    /\ L!Encode(L!Decode(b, lay, Id), lay, Id) = b
    /\ L!Encode(L!Decode(b, lay, Reverse4), lay, Reverse4) = b
    /\ L!Decode(L!Encode(L!Decode(b, lay, Id), lay, Reverse4), lay, Reverse4) = L!Decode(b, lay, Id)
ASSUME Tiles(L!Header, 128) /\ Tiles(L!Entry, 12) /\ Inverse(L!Header, 128) /\ Inverse(L!Entry, 12)
=============================================================================

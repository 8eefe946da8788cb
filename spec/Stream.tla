------------------------------- MODULE Stream -------------------------------
(* Byte streams: one contract for all kinds of streams behind the I/O interface.

   A stream is [kind, data, used, pos, vague]:
     kind   "vec"    memory that grows          "fixed"  memory that does not
            "file"   a disk file                "null"   stores nothing
     data   the bytes (none for null)           used     length, for null only (a word)
     pos    the position (a word)
     vague  the position is only known to lie between pos and the length: after a failed transfer
   Positions and offsets are words of Width digits (see Words), bytes are 0..255.

   Step(s, op) is the set of everything that may come of an operation: records
     [st |-> stream afterwards, r |-> status, val |-> what is returned]
   where status "failed" stands for any error.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Base, Width,
          SmallMax,       \* lengths and offsets up to this are handled as numbers
          FileMax         \* a word: positions up to this must be supported by the file system

W == INSTANCE Words

w(v) == W!OfNat(v, Width)
Small(x) == W!Leq(x, w(SmallMax))

Growing == {"vec", "file"}
Storing == {"vec", "file", "fixed"}

NewStream(kind, data) == [kind |-> kind, data |-> data, used |-> W!Zero(Width),
                          pos |-> W!Zero(Width), vague |-> FALSE]
LenW(s) == IF s.kind = "null" THEN s.used ELSE w(Len(s.data))
AtPos(s, p) == [s EXCEPT !.pos = p, !.vague = FALSE]
Vague(s)  == [s EXCEPT !.vague = TRUE]
One(st, r, val) == {[st |-> st, r |-> r, val |-> val]}

Zeros(n) == [i \in 1..n |-> 0]
Pad(data, n) == IF Len(data) >= n THEN data ELSE data \o Zeros(n - Len(data))
(* data with b written at offset p (from 0), a gap being filled with zeros *)
Overlay(data, p, b) ==
    LET d == Pad(data, p) IN
    [i \in 1..(IF Len(d) >= p + Len(b) THEN Len(d) ELSE p + Len(b)) |->
        IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE d[i]]

ReadStep(s, n) ==
    IF s.kind = "null" THEN
        LET e == W!AddC(s.pos, w(n)) IN
        IF e.carry = 1 THEN One(s, "InvalidInput", <<>>)
        ELSE One(AtPos(s, e.word), "ok", Zeros(n))
    ELSE IF n = 0 THEN One(s, "ok", <<>>)
    ELSE IF Small(s.pos) /\ W!ToNat(s.pos) + n <= Len(s.data)
    THEN LET p == W!ToNat(s.pos) IN One(AtPos(s, w(p + n)), "ok", SubSeq(s.data, p + 1, p + n))
    ELSE One(Vague(s), "UnexpectedEof", <<>>)
         \cup (IF s.kind = "file" /\ ~W!Leq(s.pos, FileMax) THEN One(Vague(s), "failed", <<>>) ELSE {})

WriteStep(s, b) ==
    LET n == Len(b) IN
    IF s.kind = "null" THEN
        LET e == W!AddC(s.pos, w(n)) IN
        IF e.carry = 1 THEN One(s, "InvalidInput", <<>>)
        ELSE LET far == W!Max(s.used, e.word) IN
             One([AtPos(s, e.word) EXCEPT !.used = far], "ok", <<>>)
             \* whether writing nothing past the end extends the stream is left open
             \cup (IF n = 0 THEN One(s, "ok", <<>>) ELSE {})
    ELSE IF n = 0 THEN
        One(s, "ok", <<>>)
        \cup (IF s.kind = "vec" /\ Small(s.pos)    \* memory may be padded up to the position
              THEN One([s EXCEPT !.data = Pad(s.data, W!ToNat(s.pos))], "ok", <<>>) ELSE {})
    ELSE IF s.kind \in Growing THEN
        LET p == W!ToNat(s.pos) IN One(AtPos([s EXCEPT !.data = Overlay(s.data, p, b)], w(p + n)), "ok", <<>>)
    ELSE IF Small(s.pos) /\ W!ToNat(s.pos) + n <= Len(s.data)
    THEN LET p == W!ToNat(s.pos) IN One(AtPos([s EXCEPT !.data = Overlay(s.data, p, b)], w(p + n)), "ok", <<>>)
    ELSE \* a fixed buffer is full: some prefix of what fits may have been written
        LET p   == IF Small(s.pos) THEN W!ToNat(s.pos) ELSE Len(s.data)
            fit == IF p >= Len(s.data) THEN 0 ELSE Len(s.data) - p
        IN  {[st |-> Vague([s EXCEPT !.data = IF k = 0 THEN s.data ELSE Overlay(s.data, p, SubSeq(b, 1, k))]),
              r |-> "failed", val |-> <<>>] : k \in 0..fit}

(* off is unsigned for "start" and two's complement for "end" and "current" *)
SeekStep(s, from, off) ==
    LET t == CASE from = "start" -> [ok |-> TRUE, word |-> off]
               [] from = "end" -> W!AddSigned(LenW(s), off)
               [] OTHER -> W!AddSigned(s.pos, off)
    IN  IF s.kind = "file" THEN
            IF t.ok /\ W!Leq(t.word, FileMax) THEN One(AtPos(s, t.word), "ok", <<>>)
            ELSE IF ~t.ok /\ W!Negative(off) THEN One(s, "InvalidInput", <<>>)
            ELSE IF from = "start" /\ W!Negative(off) THEN One(s, "InvalidInput", <<>>)
            ELSE One(s, "failed", <<>>)       \* beyond what the file system is known to support
                 \cup (IF t.ok /\ ~W!Negative(t.word) THEN One(AtPos(s, t.word), "ok", <<>>) ELSE {})
        ELSE IF t.ok THEN One(AtPos(s, t.word), "ok", <<>>)
        ELSE One(s, "InvalidInput", <<>>)

TellStep(s, seen) ==          \* seen: the position observed, used only when it is vague
    IF s.vague
    THEN IF W!Leq(W!Min(s.pos, LenW(s)), seen) /\ W!Leq(seen, W!Max(s.pos, LenW(s)))
         THEN One(AtPos(s, seen), "ok", seen) ELSE {}
    ELSE One(s, "ok", s.pos)

SizeStep(s) == One(s, "ok", LenW(s))

(* an operation needs a definite position unless it only sets or asks for it *)
Enabled(s, op) ==
    /\ s.vague => (op.op \in {"tell", "size"} \/ (op.op = "seek" /\ op.from # "current"))
    /\ op.op = "write" /\ s.kind \in Growing => Small(s.pos)

Step(s, op) ==
    CASE op.op = "read"  -> ReadStep(s, op.n)
      [] op.op = "write" -> WriteStep(s, op.b)
      [] op.op = "seek"  -> SeekStep(s, op.from, op.off)
      [] op.op = "tell"  -> TellStep(s, op.seen)
      [] op.op = "size"  -> SizeStep(s)
=============================================================================

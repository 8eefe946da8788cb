------------------------------- MODULE Pieces -------------------------------
(* Streams on devices that are not disk files: pipes, sockets, character devices, full disks. They hand
   out and accept bytes in pieces and cannot tell or change a position.

   A device is
     [in        bytes on their way to the stream
      more      more may still be sent (an empty device is then one to come back to later)
      endless   bytes of zero never end
      out       bytes accepted so far and not yet taken away
      room      bytes that are certainly still accepted      most  bytes that may be accepted at most
      full      the error for bytes beyond that
      noread, nowrite     the errors for any transfer in that direction, or ""
      lost      a transfer failed: how many of the bytes in `in` were taken by it is unknown
      maybe     some prefix of these bytes may have been accepted by a write that failed           ]

   The outcome of an operation does not depend on the pieces in which the bytes come and go, nor on
   interruptions.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets

Zeros(n) == [i \in 1..n |-> 0]
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
IsSuffix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))
One(d, r, val) == {[st |-> d, r |-> r, val |-> val]}
Definite(d) == ~d.lost /\ d.maybe = <<>>

ReadStep(d, n) ==
    IF n = 0 THEN One(d, "ok", <<>>) \cup (IF d.noread = "" THEN {} ELSE One(d, d.noread, <<>>))
    ELSE IF d.noread # "" THEN One(d, d.noread, <<>>)
    ELSE IF d.endless THEN One(d, "ok", Zeros(n))
    ELSE IF n <= Len(d.in) THEN One([d EXCEPT !.in = SubSeq(d.in, n + 1, Len(d.in))], "ok", SubSeq(d.in, 1, n))
    ELSE One([d EXCEPT !.lost = TRUE], IF d.more THEN "WouldBlock" ELSE "UnexpectedEof", <<>>)

Accepted(d, b) == [d EXCEPT !.out = d.out \o b,
                            !.room = IF d.room < Len(b) THEN 0 ELSE d.room - Len(b), !.most = d.most - Len(b)]
WriteStep(d, b) ==
    IF b = <<>> THEN One(d, "ok", <<>>) \cup (IF d.nowrite = "" THEN {} ELSE One(d, d.nowrite, <<>>))
    ELSE IF d.nowrite # "" THEN One(d, d.nowrite, <<>>)
    ELSE (IF Len(b) <= d.most THEN One(Accepted(d, b), "ok", <<>>) ELSE {})
         \cup (IF Len(b) > d.room THEN One([d EXCEPT !.maybe = b], d.full, <<>>) ELSE {})

(* asking for the position or the size, or moving *)
PlaceStep(d) == One(d, "NotSeekable", <<>>)

Enabled(d, op) == Definite(d)
Step(d, op) == CASE op.op = "read" -> ReadStep(d, op.n)
                 [] op.op = "write" -> WriteStep(d, op.b)
                 [] OTHER -> PlaceStep(d)

(* what the other end may do *)
Send(d, b) == [d EXCEPT !.in = d.in \o b]
Hang(d) == [d EXCEPT !.more = FALSE]
(* all that waits to be read is taken away by somebody else *)
RestOk(d, b) == IF d.lost THEN IsSuffix(b, d.in) ELSE b = d.in
Rest(d) == [d EXCEPT !.in = <<>>, !.lost = FALSE]
(* all that was written is taken away *)
TakenOk(d, b) == IsPrefix(d.out, b) /\ IsPrefix(b, d.out \o d.maybe)
Taken(d, room, most) == [d EXCEPT !.out = <<>>, !.maybe = <<>>, !.room = room, !.most = most]
=============================================================================

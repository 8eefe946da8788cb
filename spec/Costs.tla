------------------------------- MODULE Costs -------------------------------
(* What operations may cost: bytes read from files, and memory while they run and after their results
   have been dropped. The allowances leave room for any reasonable way of doing things (buffers,
   read-ahead), but none of them grows with the length of a file or the numbers in it.             *)
EXTENDS Integers

Header == 128
Counter == 4
EntrySize == 12
MaxTags == 100
MostNeeded == Header + Counter + EntrySize * MaxTags
ReadAhead  == 65536
Fixed      == 262144          \* memory of one open, of a stream, of a context without its data
Slack      == 16384           \* kept by caches and the like, over any number of repetitions

(* what an operation handed `own` bytes (a buffer, user data, a text, the plug-ins) may cost *)
MayRead(op, own) == ReadAhead + IF op = "open" THEN MostNeeded ELSE own
(* how often anything is read: fields of two bytes and more, one by one; in blocks of 512 bytes otherwise *)
Min(a, b) == IF a < b THEN a ELSE b
MayCall(op, own, len) == 32 + IF op = "open" THEN Min(len, MostNeeded) \div 2 ELSE own \div 512
(* microseconds of processor time: far more than any of the operations needs on any machine, far less than
   anything takes that goes through the numbers of a file one by one *)
MayRun(op, own) == 200000 + own
MayTake(op, own) == Fixed + 8 * own
MayKeep(op)      == Slack
=============================================================================

------------------------------ MODULE G_Shared ------------------------------
(* Enumerates schedules. Held: the first thread opens, through the default context, a file that is
   reported and stays in the handler while the others open files of the given kinds. Crossed: the
   first thread stays in the handler of its context until the second, using another context, is done.
   Together: handlers of several contexts, at most one the default one, all stay until all of them
   are at work. Stalled and dripping: the first thread reads from a pipe that gives nothing, or no more
   than a part, until the second is done.                                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANT Kinds
Reported == {"bad", "date", "many"}
Held    == {[how |-> "held", files |-> <<a, b, c>>, ctx |-> <<0, 0, 0>>] : a \in Reported, b \in Kinds, c \in Kinds}
Crossed == {[how |-> "crossed", files |-> <<a, b>>, ctx |-> c] : a \in Reported, b \in Kinds, c \in {<<0, 1>>, <<1, 0>>, <<1, 2>>}}
MaxTogether == 12
Pipes == {"pipe-short", "pipe-bad"}
Together == {[how |-> "together", files |-> [i \in 1..n |-> a], ctx |-> [i \in 1..n |-> IF i = 1 THEN c ELSE i]] : a \in Reported, n \in 2..MaxTogether, c \in 0..1}
Piped == {[how |-> h, files |-> <<a, b>>, ctx |-> c] : h \in {"stalled", "dripping"}, a \in Pipes, b \in Kinds, c \in {<<1, 0>>, <<1, 2>>}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Held) \o SetToSeq(Crossed) \o SetToSeq(Together) \o SetToSeq(Piped))
=============================================================================

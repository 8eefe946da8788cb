------------------------------ MODULE T_Nested ------------------------------
(* Validates histories of calls of the library made by error handlers inside of other calls. *)
EXTENDS FileImage
N == INSTANCE Nested
W == INSTANCE Words WITH Base <- 65536
Newer(a, b) == W!Lt(b, a)
Known == {<<120, 102, 109, 72>>, <<105, 110, 112, 72>>, <<116, 121, 112, 72>>, <<116, 97, 103, 72>>,
          <<102, 114, 109, 72>>, <<105, 110, 116, 72>>, <<112, 97, 114, 72>>, <<109, 112, 101, 72>>,
          <<111, 112, 116, 72>>}
C == INSTANCE Contexts WITH Version <- <<0, 2131>>, MagicBytes <- <<97, 99, 112, 112>>, KnownTypes <- Known,
     Newer <- Newer, NestedText <- <<>>
VARIABLES stack,      \* calls under way
          hs, user,   \* handler and user data of every context, counted from 0
          text        \* what the handler was told, per call under way
vars == <<l, stack, hs, user, text>>

Codes == [BadSignature |-> 11, CorruptionDetected |-> 12, Range |-> 2, UnknownExtension |-> 8, Signalled |-> 3]
Alone(e) ==
    CASE e.op = "open" -> LET out == P!Outcome(Image(e)) IN
                          IF out.ok THEN <<"ok", "">> ELSE <<out.error, IF out.signals = <<>> THEN "" ELSE out.signals[1]>>
      [] e.op = "write" -> <<"ok", "">>
      [] e.op = "register" -> IF C!Acceptable(e.list) THEN <<"ok", "">> ELSE <<"err", "UnknownExtension">>
      [] e.op = "signal" -> <<"ok", "Signalled">>
Id == "C38"
Called(e) ==
    LET a == Alone(e) IN
    /\ Must(Id, "the recorded call cannot be made here", N!MayCall(stack, e.obj))
    /\ stack' = N!Push(stack, N!Frame(e.obj, a[1], a[2])) /\ text' = Append(text, "") /\ UNCHANGED <<hs, user>>
Heard(e) ==
    /\ Must(Id, "a report by " \o e.h \o " (" \o ToString(e.code) \o ") that no call had to make", N!MayHear(stack, hs))
    /\ N!MayHear(stack, hs) =>
       LET f == N!Top(stack) IN
       /\ Must(Id, "heard by the handler of the context the call was made through", e.h = hs[f.obj])
       /\ Must(Id, "the handler is called with the context the call was made through", e.user = user[f.obj])
       /\ Must(Id, "code " \o ToString(e.code) \o " instead of " \o f.report, e.code = Codes[f.report])
       /\ stack' = N!Phase(stack, "reporting") /\ text' = [text EXCEPT ![Len(text)] = e.text]
    /\ UNCHANGED <<hs, user>>
Left(e) == /\ Must(Id, "a handler ends", N!MayLeave(stack))
           /\ stack' = N!Phase(stack, IF Has(e, "threw") THEN "thrown" ELSE "done")
           /\ text' = IF Has(e, "threw") THEN [text EXCEPT ![Len(text)] = ToString(e.threw)] ELSE text
           /\ UNCHANGED <<hs, user>>
Returned(e) ==
    /\ Must(Id, "the call of " \o e.op \o " returned " \o e.r \o " without having made its report", N!MayReturn(stack, hs))
    /\ N!MayReturn(stack, hs) =>
       LET f == N!Top(stack) IN
       /\ Must(Id, e.op \o " must give " \o f.result \o ", as it does alone, not " \o e.r, f.phase # "thrown" => e.r = f.result)
       /\ Must(Id, "the panic of a handler passes to the caller, not " \o e.r, f.phase = "thrown" => e.r = "thrown")
       /\ Must(Id, "the panic of a handler passes to the caller unchanged", e.r = "thrown" => ToString(e.payload) = text[Len(text)])
       /\ Must(Id, "the profile opened must be that which is opened alone", e.r = "ok" /\ e.op = "open" => e.view = e.alone)
       /\ Must(Id, "the text reported is the one given", Has(e, "text") /\ f.phase = "done" => text[Len(text)] = e.text)
    /\ stack' = N!Pop(stack) /\ text' = SubSeq(text, 1, Len(text) - 1) /\ UNCHANGED <<hs, user>>

Put(f, o, v) == [k \in (DOMAIN f) \cup {o} |-> IF k = o THEN v ELSE f[k]]
Init == l = 1 /\ stack = <<>> /\ hs = <<>> /\ user = <<>> /\ text = <<>>
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "new"   -> /\ Must(Id, "all calls have ended", stack = <<>>)
                                      /\ hs' = [k \in 0..(Len(Event.hs) - 1) |-> Event.hs[k + 1]]
                                      /\ user' = [k \in 0..(Len(Event.user) - 1) |-> Event.user[k + 1]]
                                      /\ stack' = <<>> /\ text' = <<>>
             [] Event.ev = "call"  -> Called(Event)
             [] Event.ev = "end"   -> /\ Must(Id, "only profiles that are kept hold files open", Event.held = Event.kept /\ Event.left = 0)
                                      /\ UNCHANGED <<stack, hs, user, text>>
             [] Event.ev = "heard" -> Heard(Event)
             [] Event.ev = "left"  -> Left(Event)
             [] Event.ev = "ret"   -> Returned(Event)
             [] Event.ev = "copy"  -> hs' = Put(hs, Event.obj, hs[Event.of]) /\ user' = Put(user, Event.obj, user[Event.of]) /\ UNCHANGED <<stack, text>>
             [] Event.ev = "fresh" -> hs' = Put(hs, Event.obj, Event.h) /\ user' = Put(user, Event.obj, Event.user) /\ UNCHANGED <<stack, text>>
             [] Event.ev = "install" -> hs' = Put(hs, Event.obj, Event.h) /\ UNCHANGED <<stack, text, user>>
Spec == Init /\ [][Next]_vars
=============================================================================

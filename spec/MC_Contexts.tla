----------------------------- MODULE MC_Contexts -----------------------------
(* All short histories of a few contexts. History variables record, for every context, the handler it
   should have by the informal rule (its own last installation, or what it copied).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCtx, Depth
Newer(a, b) == a > b
C == INSTANCE Contexts WITH Version <- 2, MagicBytes <- "acpp", KnownTypes <- {"a", "b"}, Newer <- Newer, NestedText <- "nested"
Users == {"u1", "u2"}
Handlers == {C!Plain("h1"), C!Plain("h2"), C!Sorted("swap", "h3", 1), C!Sorted("nest", "h4", 3), C!Sorted("clone", "h7", 2),
            C!Sorted("swapnest", "h8", 2), C!Sorted("other", "h9", 2)}
Plugins == [magic : {"acpp", "xxxx"}, version : {1, 2, 3}, type : {"a", "z"}]
Lists == {<<>>} \cup {<<p>> : p \in Plugins} \cup {<<p, q>> : p \in Plugins, q \in Plugins}

VARIABLES ctxs, last, n
vars == <<ctxs, last, n>>
Live == {c \in DOMAIN ctxs : ctxs[c].live}
Init == ctxs = <<C!New("u1")>> /\ last = [op |-> "init"] /\ n = 0
Step(rec, new) == last' = [rec EXCEPT !.before = ctxs] /\ ctxs' = new /\ n' = n + 1
Op(op, c) == [op |-> op, c |-> c, before |-> 0, calls |-> <<>>, ok |-> TRUE, list |-> <<>>, h |-> 0]
Create == Len(ctxs) < MaxCtx /\ \E u \in Users : Step(Op("create", Len(ctxs) + 1), Append(ctxs, C!New(u)))
Copy == Len(ctxs) < MaxCtx /\ \E c \in Live : Step([Op("copy", Len(ctxs) + 1) EXCEPT !.h = c], Append(ctxs, ctxs[c]))
Install == \E c \in Live, h \in Handlers : Step([Op("install", c) EXCEPT !.h = h], C!Put(ctxs, c, [ctxs[c] EXCEPT !.handler = h]))
Signal == \E c \in Live, code \in {1, 8} : LET r == C!Signal(ctxs, c, code, "t") IN
    Step([Op("signal", c) EXCEPT !.calls = r.calls, !.h = code], r.ctxs)
Register == \E c \in Live, list \in Lists : list # <<>> /\
    LET ok == C!Acceptable(list)
        r == IF ok THEN [calls |-> <<>>, ctxs |-> ctxs] ELSE C!Signal(ctxs, c, C!UnknownExtension, "why")
    IN Step([Op("register", c) EXCEPT !.ok = ok, !.calls = r.calls, !.list = list], r.ctxs)
Drop == \E c \in Live : Step(Op("drop", c), C!Put(ctxs, c, [ctxs[c] EXCEPT !.live = FALSE]))
Next == n < Depth /\ (Create \/ Copy \/ Install \/ Signal \/ Register \/ Drop)
Spec == Init /\ [][Next]_vars

(* nothing but the context worked on changes; user data never does *)
Isolated == last.op # "init" =>
    \A c \in DOMAIN last.before : /\ c # last.c => ctxs[c] = last.before[c]
                                  /\ ctxs[c].user = last.before[c].user
CopyEqual == last.op = "copy" => ctxs[last.c] = ctxs[last.h] /\ ctxs[last.c].user = last.before[last.h].user
Fresh == last.op = "create" => ctxs[last.c].handler.sort = "none"
(* an error is heard by the handler of its context: once as it is, and by nobody else *)
Heard == last.op \in {"signal", "register"} =>
    /\ last.calls # <<>> => last.calls[1].ctx = last.c /\ last.calls[1].handler = last.before[last.c].handler.name
    /\ \A i \in DOMAIN last.calls : last.calls[i].ctx \in {0, last.c}
    /\ \A i \in 2..Len(last.calls) : last.calls[i].text = "nested"
    /\ (last.before[last.c].handler.sort = "none" \/ (last.op = "register" /\ last.ok)) <=> last.calls = <<>>
    /\ last.calls # <<>> => last.calls[1].code = IF last.op = "signal" THEN last.h ELSE 8
    /\ Cardinality({i \in DOMAIN last.calls : last.calls[i].text # "nested"}) <= 1
Quiet == last.op \in {"create", "copy", "install", "drop"} => last.calls = <<>>
(* a list is as good as all its parts *)
AllGood == last.op = "register" => (last.ok <=> \A i \in DOMAIN last.list :
    last.list[i].magic = "acpp" /\ last.list[i].version <= 2 /\ last.list[i].type \in {"a", "b"})
Inv == Isolated /\ CopyEqual /\ Fresh /\ Heard /\ Quiet /\ AllGood

(* kinds of payload: exactly one test answers yes *)
Kinds == <<"interpolation", "parametric_curves", "formatter", "tag_type", "tag", "rendering_intent",
           "multi_process_element", "optimization", "transform">>
Tests(k) == [i \in DOMAIN Kinds |-> Kinds[i] = k]
ASSUME \A i \in DOMAIN Kinds : Cardinality({j \in DOMAIN Kinds : Tests(Kinds[i])[j]}) = 1
=============================================================================

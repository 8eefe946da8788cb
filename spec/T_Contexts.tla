----------------------------- MODULE T_Contexts -----------------------------
(* Validates histories of real contexts. The first context is the shared default one. *)
EXTENDS Tracing
W == INSTANCE Words WITH Base <- 65536
Newer(a, b) == W!Lt(b, a)
Known == {<<120, 102, 109, 72>>, <<105, 110, 112, 72>>, <<116, 121, 112, 72>>, <<116, 97, 103, 72>>,
          <<102, 114, 109, 72>>, <<105, 110, 116, 72>>, <<112, 97, 114, 72>>, <<109, 112, 101, 72>>,
          <<111, 112, 116, 72>>}
C == INSTANCE Contexts WITH Version <- <<0, 2131>>, MagicBytes <- <<97, 99, 112, 112>>, KnownTypes <- Known,
     Newer <- Newer, NestedText <- <<110, 101, 115, 116, 101, 100>>

VARIABLES ctxs, prints, newprint, free
(* prints: the printed form of each context (interned); newprint: printed form of a fresh context by its
   user data; free: contexts on which plug-ins have been registered successfully: what they hold then is
   not described here                                                                            *)
vars == <<l, ctxs, prints, newprint, free>>

(* decimal notation of a word, as character codes *)
RECURSIVE DivTen(_, _, _, _)
DivTen(w, i, rem, acc) == IF i > Len(w) THEN [q |-> acc, r |-> rem]
    ELSE LET v == rem * 65536 + w[i] IN DivTen(w, i + 1, v % 10, Append(acc, v \div 10))
RECURSIVE Decimal(_)
Decimal(w) == LET d == DivTen(w, 1, 0, <<>>) IN
    (IF \A i \in DOMAIN d.q : d.q[i] = 0 THEN <<>> ELSE Decimal(d.q)) \o <<48 + d.r>>
Contains(t, s) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
Printable(b) == \A i \in DOMAIN b : b[i] \in 35..126 /\ b[i] # 39 /\ b[i] # 92

(* the message describes the defect of this plug-in and none of another kind *)
TypeWord == <<116, 121, 112, 101>>             \* "type"
VersionWord == <<118, 101, 114, 115, 105, 111, 110>>
Describes(msg, p) ==
    CASE C!Defect(p) = "magic"   -> msg # <<>> /\ ~Contains(msg, TypeWord) /\ ~Contains(msg, VersionWord)
      [] C!Defect(p) = "version" -> Contains(msg, Decimal(p.version)) /\ Contains(msg, Decimal(<<0, 2131>>)) /\ Contains(msg, VersionWord)
      [] OTHER                   -> Contains(msg, TypeWord) /\ (Printable(p.type) => Contains(msg, p.type))

Handlers == <<C!Plain("h1"), C!Plain("h2"), C!Sorted("swap", "h3", 1), C!Sorted("nest", "h4", 2), C!Sorted("nest", "h5", 3),
              C!Sorted("nest", "h6", 70), C!Sorted("clone", "h7", 2), C!Sorted("swapnest", "h8", 2), C!Sorted("other", "h9", 2)>>
Handler(i) == IF i = 0 THEN C!Sorted("none", "", 0) ELSE Handlers[i]

Outcome(op, e) ==
    CASE op.op = "create" -> [calls |-> <<>>, ctxs |-> Append(ctxs, C!New(op.user))]
      [] op.op = "copy"   -> [calls |-> <<>>, ctxs |-> Append(ctxs, ctxs[op.c])]
      [] op.op = "install" -> [calls |-> <<>>, ctxs |-> C!Put(ctxs, op.c, [ctxs[op.c] EXCEPT !.handler = Handler(op.h)])]
      [] op.op = "signal" -> C!Signal(ctxs, op.c, op.code, op.text)
      [] op.op = "register" -> IF C!Acceptable(op.list) THEN [calls |-> <<>>, ctxs |-> ctxs]
                               ELSE C!Signal(ctxs, op.c, C!UnknownExtension, e.msg)
      [] op.op = "drop"   -> [calls |-> <<>>, ctxs |-> C!Put(ctxs, op.c, [ctxs[op.c] EXCEPT !.live = FALSE])]
      [] OTHER            -> [calls |-> <<>>, ctxs |-> ctxs]

Reg(e) ==
    LET op == e.op good == C!Acceptable(op.list) IN
    /\ Must("C24", "registering must not panic", e.r # "panic")
    /\ Must("C24", "a list is accepted exactly if every plug-in in it is acceptable", (e.r = "ok") = good)
    /\ Must("C24", "the message must describe the first unacceptable plug-in: " \o e.shown,
            ~good /\ e.r = "err" => Describes(e.msg, op.list[C!FirstBad(op.list)]))

AfterOf(e, c) == e.after[CHOOSE k \in DOMAIN e.after : e.after[k].c = c]
Op(e) ==
    LET op == e.op
        o  == Outcome(op, e)
        touched == CASE op.op \in {"create", "copy"} -> Len(ctxs) + 1 [] op.op = "stir" -> 0 [] OTHER -> op.c
        live == {c \in DOMAIN o.ctxs : o.ctxs[c].live}
        good == op.op = "register" /\ C!Acceptable(op.list)
        free1 == IF op.op = "copy" /\ op.c \in free THEN free \cup {touched} ELSE IF good THEN free \cup {op.c} ELSE free
        after == [c \in live |-> AfterOf(e, c)]
    IN
    /\ Must("C26", "the recorded contexts are the live ones", {e.after[k].c : k \in DOMAIN e.after} = live)
    /\ op.op = "register" => Reg(e)
    /\ op.op = "signal" => Must("C25", "signalling must not panic", e.r = "ok")
    /\ op.op \in {"create", "copy", "drop"} => Must("C26", "a context operation must not panic", e.r = "ok")
    /\ \A id \in (IF op.op = "register" THEN {"C24", "C25"} ELSE {"C25"}) :
         Must(id, "handlers called: " \o ToString(e.calls) \o " instead of " \o ToString(o.calls),
              e.calls = o.calls)
    /\ Must("C26", "the error handler of a context is what it was, whatever happened before: " \o ToString(e.calls),
            [i \in DOMAIN e.calls |-> e.calls[i].handler] = [i \in DOMAIN o.calls |-> o.calls[i].handler])
    /\ \A c \in live :
         /\ Must("C26", "user data of a context", after[c].user = o.ctxs[c].user)
         /\ Must("C26", "a context is what it was, whatever happens to the others",
                 c # touched => after[c].print = prints[c])
         /\ Must("C26", "errors, refused plug-ins and handlers leave the rest of a context alone",
                 c = touched /\ op.op \in {"signal", "install", "register"} /\ ~good => after[c].print = prints[c])
         /\ Must("C26", "a copy equals the original", c = touched /\ op.op = "copy" => after[c].print = prints[op.c])
         /\ Must("C26", "a new context depends on its user data only",
                 c = touched /\ op.op = "create" =>
                    \A k \in DOMAIN newprint : newprint[k][1] = op.user => newprint[k][2] = after[c].print)
    /\ ctxs' = o.ctxs
    /\ prints' = [c \in DOMAIN o.ctxs |-> IF c \in live THEN after[c].print ELSE 0]
    /\ free' = free1
    /\ newprint' = IF op.op = "create" THEN Append(newprint, <<op.user, after[Len(o.ctxs)].print>>) ELSE newprint

Start(e) ==
    /\ ctxs' = <<C!New(<<>>)>>
    /\ prints' = <<e.print>>
    /\ free' = {}
    /\ newprint' = <<>>

(* the defaults of the library, and how often the printed form of each is found in that of a new context *)
Defaults(e) ==
    /\ Must("C26", "default alarm codes", e.alarm = <<32512, 32512, 32512, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
    /\ Must("C26", "default adaptation state", e.adaption = <<16368, 0, 0, 0>>)
    /\ Must("C26", "no extensions by default", \A i \in DOMAIN e.lists : e.lists[i] = 0)
    /\ Must("C26", "the default handler is silent", e.silent)
    /\ Must("C26", "a new context holds the defaults", \A i \in DOMAIN e.found : e.found[i])
    /\ UNCHANGED <<ctxs, prints, newprint, free>>

KindNames == <<"interpolation", "parametric_curves", "formatter", "tag_type", "tag", "rendering_intent",
               "multi_process_element", "optimization", "transform">>
Kind(e) ==
    /\ Must("C27", "exactly the test of its own kind must answer yes for " \o e.kind,
            e.is = [i \in DOMAIN KindNames |-> KindNames[i] = e.kind])
    /\ UNCHANGED <<ctxs, prints, newprint, free>>

Init == l = 1 /\ ctxs = <<>> /\ prints = <<>> /\ newprint = <<>> /\ free = {}
Next == /\ More
        /\ l' = l + 1
        /\ CASE Event.ev = "new"      -> Start(Event)
             [] Event.ev = "op"       -> Op(Event)
             [] Event.ev = "defaults" -> Defaults(Event)
             [] Event.ev = "kind"     -> Kind(Event)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE Contexts ------------------------------
(* Contexts: what they hold, who hears their errors, and which plug-in lists they accept.

   A context is a record [live, user, handler]. Handlers are "none" (the library default, which is
   silent) or the name of an installed one. "plain" ones only listen; "swap" ones install a plain handler
   on the context they are called with; "nest" ones signal a further error on it until they have been
   called depth times; "clone" ones signal one on a copy of it; "swapnest" ones install a plain handler
   and then signal; "other" ones signal on a new context and install a plain handler on this one.   *)
EXTENDS Integers, Sequences
CONSTANTS Version,          \* of the library, as a word
          Newer(_, _),      \* order of versions
          MagicBytes, KnownTypes,
          NestedText        \* text of the errors signalled by "nest" handlers

New(user) == [live |-> TRUE, user |-> user, handler |-> [sort |-> "none", name |-> "", depth |-> 0]]
Sorted(sort, name, depth) == [sort |-> sort, name |-> name, depth |-> depth]
Plain(name) == Sorted("plain", name, 1)
Nested == [code |-> 0, text |-> NestedText]

Put(ctxs, c, rec) == [ctxs EXCEPT ![c] = rec]

(* signalling: the calls made, in order, and the contexts afterwards *)
Signal(ctxs, c, code, text) ==
    LET h    == ctxs[c].handler
        call == [handler |-> h.name, ctx |-> c, code |-> code, text |-> text]
        more == [call EXCEPT !.code = Nested.code, !.text = Nested.text]
        away == [more EXCEPT !.ctx = 0]        \* on a context which is not one of these
        set(n) == [ctxs EXCEPT ![c].handler = Plain(n)]
    IN  CASE h.sort = "none"  -> [calls |-> <<>>, ctxs |-> ctxs]
          [] h.sort = "plain" -> [calls |-> <<call>>, ctxs |-> ctxs]
          [] h.sort = "swap"  -> [calls |-> <<call>>, ctxs |-> set("swapped")]
          [] h.sort = "nest"  -> [calls |-> <<call>> \o [i \in 1..(h.depth - 1) |-> more], ctxs |-> ctxs]
          [] h.sort = "clone" -> [calls |-> <<call, away>>, ctxs |-> ctxs]
          [] h.sort = "swapnest" -> [calls |-> <<call, [more EXCEPT !.handler = "swapped"]>>, ctxs |-> set("swapped")]
          [] h.sort = "other" -> [calls |-> <<call, [away EXCEPT !.handler = "swapped"]>>, ctxs |-> set("h1")]

(* what is wrong with one plug-in: "" if nothing; the first defect in this order counts *)
Defect(p) == IF p.magic # MagicBytes THEN "magic"
             ELSE IF Newer(p.version, Version) THEN "version"
             ELSE IF p.type \notin KnownTypes THEN "type" ELSE ""
Acceptable(list) == \A i \in DOMAIN list : Defect(list[i]) = ""
FirstBad(list) == CHOOSE i \in DOMAIN list : Defect(list[i]) # "" /\ \A j \in 1..(i - 1) : Defect(list[j]) = ""

UnknownExtension == 8
=============================================================================

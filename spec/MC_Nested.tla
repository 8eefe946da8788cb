----------------------------- MODULE MC_Nested -----------------------------
(* All short histories of nested calls over the default context, two others, and copies made on the way.
   The library keeps a lock on the default context while something runs through it.                 *)
EXTENDS Nested, FiniteSets, TLC
CONSTANTS MaxCalls, MaxObjs
Outcomes == {<<"ok", "">>, <<"InvalidData", "BadSignature">>, <<"err", "UnknownExtension">>}
VARIABLES stack, hs, lock, made, heard, last
vars == <<stack, hs, lock, made, heard, last>>
(* contexts are numbered from 0; hs is indexed by them *)
Init == /\ stack = <<>> /\ lock = FALSE /\ made = 0 /\ heard = <<>> /\ last = <<>>
        /\ hs \in [0..1 -> {"", "ha"}]
Reach(o) == MayCall(stack, o)
(* through the lock, unless the handler has been given the default context *)
Locks(o) == o = 0 /\ (IF stack = <<>> THEN TRUE ELSE Top(stack).obj # 0)
Call(o, w) == /\ made < MaxCalls /\ Reach(o) /\ (Locks(o) => ~lock)
              /\ stack' = Push(stack, Frame(o, w[1], w[2])) /\ lock' = (lock \/ o = 0)
              /\ made' = made + 1 /\ last' = <<>> /\ heard' = <<>> /\ UNCHANGED hs
Copy(o)    == /\ Cardinality(DOMAIN hs) < MaxObjs /\ Reach(o) /\ made < MaxCalls
              /\ hs' = [k \in 0..Cardinality(DOMAIN hs) |-> IF k \in DOMAIN hs THEN hs[k] ELSE hs[o]]
              /\ UNCHANGED <<stack, lock, made>> /\ last' = <<>> /\ heard' = <<>>
Install(o, h) == /\ Reach(o) /\ hs[o] # h /\ hs' = [hs EXCEPT ![o] = h] /\ UNCHANGED <<stack, lock, made>> /\ last' = <<>> /\ heard' = <<>>
Hear  == /\ MayHear(stack, hs) /\ heard' = <<Top(stack).report, hs[Top(stack).obj]>>
         /\ stack' = Phase(stack, "reporting") /\ last' = <<>> /\ UNCHANGED <<hs, lock, made>>
Leave == MayLeave(stack) /\ stack' = Phase(stack, "done") /\ last' = <<>> /\ heard' = <<>> /\ UNCHANGED <<hs, lock, made>>
(* a handler of the default context that panics leaves the lock unusable: not part of the property *)
Throw == /\ MayLeave(stack) /\ Top(stack).obj # 0 /\ stack' = Phase(stack, "thrown") /\ last' = <<>> /\ heard' = <<>> /\ UNCHANGED <<hs, lock, made>>
Return == /\ MayReturn(stack, hs) /\ stack' = Pop(stack) /\ last' = <<Top(stack)>>
          /\ lock' = (\E i \in DOMAIN Pop(stack) : stack[i].obj = 0)
          /\ heard' = <<>> /\ UNCHANGED <<hs, made>>
Next == \/ \E o \in DOMAIN hs : (\E w \in Outcomes : Call(o, w)) \/ Copy(o) \/ \E h \in {"", "hb"} : Install(o, h)
        \/ Hear \/ Leave \/ Throw \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Hear \/ Leave \/ Throw \/ Return)

(* no call waits for one further out: what may be called can be called *)
NoDeadlock == \A o \in DOMAIN hs : Reach(o) /\ Locks(o) => ~lock
LockRight == lock <=> \E i \in DOMAIN stack : stack[i].obj = 0
(* the calls under way through one context lie next to each other *)
Exclusive == \A i, j \in DOMAIN stack : i < j /\ stack[i].obj = stack[j].obj => \A k \in i..j : stack[k].obj = stack[i].obj
Waiting == \A i \in 1..(Len(stack) - 1) : stack[i].phase = "reporting"
(* whatever happens inside, calls end, with their own result *)
Ends == (stack # <<>>) ~> (stack = <<>>)
(* nobody is heard who has nothing to say; everybody heard was the innermost call *)
HeardRight == heard # <<>> => heard[1] # "" /\ heard[2] # ""
Inv == NoDeadlock /\ LockRight /\ Exclusive /\ Waiting /\ HeardRight
=============================================================================

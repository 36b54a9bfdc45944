-------------------------------- MODULE MCConc -------------------------------
(* Threads that do operations in small steps on a file, each holding one lock *)
(* for the whole of the operation.  What they get is what the operations give *)
(* one after another, in the order in which they got the lock.                *)
EXTENDS HConc
CONSTANTS Threads, Count, Locked       \* Locked FALSE: without the lock, which has to be wrong
VARIABLES f, ref, th, lock, wrong

A == [g |-> "", n |-> "a"]
B == [g |-> "g", n |-> "b"]
G == [g |-> "g", n |-> ""]
Op(op, ps, vs) == [op |-> op, ps |-> ps, vs |-> vs]
\* the operations; k is a value that is used once
Menu(k) == {Op("writes", <<A, B>>, <<k, k>>), Op("writes", <<A, B>>, <<k, 0>>), Op("reads", <<A, B>>, <<>>), Op("del", <<G>>, <<>>), Op("in", <<B>>, <<>>),
            Op("len", <<>>, <<>>), Op("close", <<>>, <<>>), Op("flush", <<>>, <<>>)}
Idle == [pc |-> "idle", o |-> Op("", <<>>, <<>>), i |-> 1, out |-> <<>>, exp |-> Ok([cl |-> FALSE, gs |-> {}, v |-> <<>>], <<>>)]
Empty == [cl |-> FALSE, gs |-> {}, v |-> [p \in {} |-> 0]]
Init == f = Empty /\ ref = Empty /\ th = [t \in Threads |-> [Idle EXCEPT !.out = <<>>] @@ [n |-> 0]] /\ lock = {} /\ wrong = {}

Call(t) == /\ th[t].pc = "idle" /\ th[t].n < Count
           /\ \E o \in Menu(10 * t + th[t].n) : th' = [th EXCEPT ![t].pc = "called", ![t].o = o, ![t].n = @ + 1]
           /\ UNCHANGED <<f, ref, lock, wrong>>
\* getting the lock: here the operation takes place
Get(t) == /\ th[t].pc = "called" /\ (Locked => lock = {})
          /\ lock' = IF Locked THEN {t} ELSE lock
          /\ LET r == Apply(ref, th[t].o)
             IN ref' = r.s /\ th' = [th EXCEPT ![t].pc = "doing", ![t].i = 1, ![t].out = <<>>, ![t].exp = [r EXCEPT !.s = Empty]]
          /\ UNCHANGED <<f, wrong>>
\* the end of an operation, by success or failure, always gives the lock back
End(t, r, g) == /\ th' = [th EXCEPT ![t].pc = "idle"] /\ lock' = lock \ {t} /\ f' = g
                /\ wrong' = IF [r EXCEPT !.s = Empty] # th[t].exp THEN wrong \cup {th[t].o.op} ELSE wrong
                /\ UNCHANGED ref
Go(t, x, g) == th' = [th EXCEPT ![t] = x] /\ f' = g /\ UNCHANGED <<ref, lock, wrong>>
Do(t) ==
  /\ th[t].pc = "doing"
  /\ LET x == th[t]
         o == x.o
     IN IF o.op = "close" THEN End(t, Ok(f, <<>>), [f EXCEPT !.cl = TRUE])
        ELSE IF f.cl THEN End(t, Bad(f, "OSError"), f)
        ELSE CASE o.op = "writes" ->
                    (IF x.i > 4 THEN End(t, Ok(f, <<>>), f)
                     ELSE LET k == (x.i + 1) \div 2
                          IN IF x.i % 2 = 1 THEN Go(t, [x EXCEPT !.i = @ + 1], Touch(f, o.ps[k]))       \* the group, then the value
                             ELSE IF o.vs[k] = 0 THEN End(t, Bad(f, "NotImplementedError"), f)
                             ELSE Go(t, [x EXCEPT !.i = @ + 1], Put(f, o.ps[k], o.vs[k])))
               [] o.op = "reads" ->
                    (IF x.i > 2 THEN End(t, Ok(f, x.out), f)
                     ELSE IF ~ParentThere(f, o.ps[x.i]) \/ Value(f, o.ps[x.i]) = 0 THEN End(t, Bad(f, "KeyError"), f)
                     ELSE Go(t, [x EXCEPT !.i = @ + 1, !.out = Append(@, Value(f, o.ps[x.i]))], f))
               [] OTHER -> LET r == Apply(f, o) IN End(t, r, r.s)
Next == \/ \E t \in Threads : Call(t) \/ Get(t) \/ Do(t)
        \/ (\A t \in Threads : th[t].pc = "idle" /\ th[t].n = Count) /\ UNCHANGED <<f, ref, th, lock, wrong>>

Sequential == wrong = {}                       \* every result is that of the sequential order
InStep     == lock = {} => f = ref             \* and so is the file, when nobody works on it
Exclusive  == Cardinality(lock) <= 1 /\ \A t \in Threads : (th[t].pc = "doing") => t \in lock
=============================================================================

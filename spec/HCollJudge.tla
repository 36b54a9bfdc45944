------------------------------ MODULE HCollJudge -----------------------------
(* Judges recorded histories of collections of marshallers.  A case has ms    *)
(* (the marshallers), bi (the builtin ones), mods and ev.  An event has op,   *)
(* x (the collection), a (its arguments), st, er, and after it ld (the        *)
(* modules imported) and df (the default collection).                         *)
EXTENDS HColl, JudgeBase

Range1(s) == {s[i] : i \in 1..Len(s)}
Err(e, es) == e.st = "err" /\ \E x \in es : Contains(e.er, x)
Outcome(e, bad) == IF bad # {} THEN (IF Err(e, bad) THEN {} ELSE {"outcome:" \o e.op}) ELSE IF e.st = "ok" THEN {} ELSE {"outcome:" \o e.op}

\* the calls of user and plugin marshallers when the elements of a list are written
RECURSIVE Elems(_, _, _, _, _, _)
Elems(M, mods, ld, c, els, acc) ==
  IF els = <<>> THEN [calls |-> acc, ok |-> TRUE, ld |-> ld]
  ELSE LET r == Look(M, mods, ld, c, "type", Head(els))
       IN IF r.m = 0 \/ ~r.has THEN [calls |-> acc, ok |-> FALSE, ld |-> r.ld]
          ELSE Elems(M, mods, r.ld, c, Tail(els), IF M[r.m].own THEN Append(acc, r.m) ELSE acc)

\* st: [cs, ld, df]; gives [st, bad]
Step(c, st, e) ==
  LET M == c.ms
      mods == c.mods
      same(b) == [st |-> st, bad |-> b]
      coll(k, n) == LET l == Changed(M, mods, st.ld, n) IN [st EXCEPT !.cs[k] = n, !.ld = l]
  IN CASE e.op \in {"new", "default"} ->
            (LET bad == ArgErrors(e.a)
                 n == NewColl(c.bi, e.a)
             IN IF bad # {} THEN same(Outcome(e, bad))
                ELSE [st |-> [cs |-> Append(st.cs, n), ld |-> Changed(M, mods, st.ld, n), df |-> IF e.op = "default" THEN Len(st.cs) + 1 ELSE st.df],
                      bad |-> Outcome(e, {}) \cup (IF e.st = "ok" /\ e.a.pr # e.pr THEN {"priority"} ELSE {})])
       [] e.op = "add" ->
            (IF e.a.mk = "bad" THEN same(Outcome(e, {"TypeError"}))
             ELSE [st |-> coll(e.x, [st.cs[e.x] EXCEPT !.us = Added(@, e.a.ms)]), bad |-> Outcome(e, {})])
       [] e.op = "remove" -> [st |-> coll(e.x, [st.cs[e.x] EXCEPT !.us = Removed(@, e.a.ms)]), bad |-> Outcome(e, {})]
       [] e.op = "clear" -> [st |-> coll(e.x, [st.cs[e.x] EXCEPT !.us = <<>>]), bad |-> Outcome(e, {})]
       [] e.op = "look" ->
            (LET r == Look(M, mods, st.ld, st.cs[e.x], e.by, e.key)
             IN [st |-> [st EXCEPT !.ld = r.ld],
                 bad |-> Outcome(e, {}) \cup (IF e.m # r.m THEN {"lookup:" \o e.by} ELSE {}) \cup (IF e.m = r.m /\ e.has # r.has THEN {"has:" \o e.by} ELSE {})])
       [] e.op = "write" ->
            (LET r == Look(M, mods, st.ld, st.cs[e.x], "type", e.key)
                 out == IF r.m = 0 \/ ~r.has THEN (IF Err(e, {"NotImplementedError"}) /\ e.calls = <<>> THEN {} ELSE {"write:refused"})
                        ELSE IF e.calls # <<[m |-> r.m, f |-> "write"]>> THEN {"write:marshaller"} ELSE {}
             IN [st |-> [st EXCEPT !.ld = r.ld], bad |-> out])
       [] e.op = "nest" ->
            (LET c1 == st.cs[e.x]
                 r == Look(M, mods, st.ld, c1, "type", "builtins.list")
                 w == IF r.m = 0 \/ ~r.has THEN [calls |-> <<>>, ok |-> FALSE, ld |-> r.ld]
                      ELSE IF M[r.m].own THEN [calls |-> <<r.m>>, ok |-> TRUE, ld |-> r.ld]
                      ELSE Elems(M, mods, r.ld, c1, e.els, <<>>)
             IN [st |-> [st EXCEPT !.ld = w.ld],
                 bad |-> (IF w.ok # (e.st = "ok") \/ (e.st = "err" /\ ~Err(e, {"NotImplementedError"})) THEN {"write:elements-outcome"} ELSE {})
                         \cup (IF e.user # w.calls THEN {"write:elements"} ELSE {})])
       [] e.op = "read" ->
            (LET r == Reads(M, mods, st.ld, st.cs[e.x], e.q)
                 f == IF r.has THEN "read" ELSE "read_approximate"
             IN [st |-> [st EXCEPT !.ld = r.ld],
                 bad |-> IF e.calls = <<>> \/ e.calls[1].m # r.m THEN {"read:marshaller"}
                         ELSE IF e.calls[1].f # f THEN {"read:approximate"}
                         ELSE IF M[r.m].own /\ ~(e.st = "ok" /\ e.same) THEN {"read:result"} ELSE {}])
       [] OTHER -> same({"undefined:" \o e.op})

RECURSIVE Walk(_, _, _, _)
Walk(c, i, st, acc) ==
  IF i > Len(c.ev) THEN acc
  ELSE LET e == c.ev[i]
           r == TLCEval(Step(c, st, e))
           ld == Range1(e.ld)
           bad == r.bad \cup (IF ld # r.st.ld THEN {"imports:" \o e.op} ELSE {}) \cup (IF e.df # r.st.df THEN {"default"} ELSE {})
           out == TLCEval(acc \cup {x \o "@" \o ToString(i) : x \in bad})
       IN IF Len(r.st.cs) # e.n THEN out
          ELSE Walk(c, i + 1, TLCEval([r.st EXCEPT !.ld = ld, !.df = e.df]), out)
Judge(c) == Walk(c, 1, [cs |-> <<NewColl(c.bi, c.first)>>, ld |-> {}, df |-> 1], {})
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

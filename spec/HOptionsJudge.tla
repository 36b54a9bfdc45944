---------------------------- MODULE HOptionsJudge ----------------------------
(* Judges recorded histories of Options.  An event has op, the number x of    *)
(* the Options it is about (the one copied), o and v, kw (a sequence of       *)
(* [o, v]), c (a collection), st, n, the number of Options there are after    *)
(* it, and d, what was then not as before: a sequence of [x, o, v].           *)
EXTENDS HOptions, JudgeBase

AsMap(seq) == TLCEval([o \in {seq[i].o : i \in 1..Len(seq)} |-> seq[CHOOSE i \in 1..Len(seq) : seq[i].o = o /\ \A j \in 1..Len(seq) : seq[j].o = o => j <= i].v])

Expect(st, e) ==     \* st: [os: the Options, c: the default collection]
  CASE e.op = "new"     -> [st EXCEPT !.os = Append(@, New(AsMap(e.kw), st.c))]
    [] e.op = "set"     -> [st EXCEPT !.os[e.x] = Set(@, e.o, e.v)]
    [] e.op = "copy"    -> [st EXCEPT !.os = Append(@, @[e.x])]
    [] e.op = "default" -> [st EXCEPT !.c = e.c]
    [] e.op = "use"     -> st                  \* a file is opened with it and used
    [] OTHER            -> st
Norm(o, v) == IF o \in {"compress_size_threshold", "gzip_compression_level"} /\ v.k = "bool" THEN I(Num(v)) ELSE v

\* the Options after the event, as seen: what was there before with the changes
Of(e, x) == SelectSeq(e.d, LAMBDA y : y.x = x)
Seen(st, e, x) == LET m == AsMap(Of(e, x))
                  IN IF x > Len(st.os) THEN [o \in DOMAIN m |-> Norm(o, m[o])]
                     ELSE [o \in Names |-> IF o \in DOMAIN m THEN Norm(o, m[o]) ELSE st.os[x][o]]
Diff(x, y) == IF DOMAIN y # Names THEN {"option:names"} ELSE {"option:" \o o : o \in {p \in Names : x[p] # y[p]}}

RECURSIVE Walk(_, _, _, _)
Walk(c, i, st, acc) ==
  IF i > Len(c.ev) THEN acc
  ELSE LET e == c.ev[i]
           w == Expect(st, e)
           seen == TLCEval([x \in 1..e.n |-> TLCEval(Seen(st, e, x))])
           d == IF e.st # "ok" THEN {"error:" \o e.op}
                ELSE IF Len(w.os) # e.n THEN {"count"}
                ELSE UNION {Diff(w.os[k], seen[k]) : k \in 1..e.n}
           coh == IF \E k \in 1..e.n : DOMAIN seen[k] = Names /\ ~Coherent(seen[k]) THEN {"coherent"} ELSE {}
           out == TLCEval(acc \cup {x \o "@" \o ToString(i) : x \in d \cup coh})
       IN IF Len(w.os) # e.n \/ (\E k \in 1..e.n : DOMAIN seen[k] # Names) THEN out
          ELSE Walk(c, i + 1, TLCEval([os |-> seen, c |-> w.c]), out)
Judge(c) == Walk(c, 1, [os |-> <<>>, c |-> 1], {})
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

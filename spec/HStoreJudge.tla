----------------------------- MODULE HStoreJudge -----------------------------
(* Judges a recorded history of operations on one file: each event must be a  *)
(* step of HStore from the file observed before it to the one observed after. *)
(* A case has obs (observed files), o (options used), ev (events).  An event  *)
(* has op, st ("ok" or "err"), er (the classes of the exception), pre and     *)
(* post (observations), qs (paths), vals (values written), res (values,       *)
(* names or number returned) and what opening was given.                      *)
EXTENDS HStore, JudgeBase

Raises(e, cls) == e.st = "err" /\ \E i \in 1..Len(e.er) : e.er[i] = cls
If(c, S) == IF c THEN S ELSE {}

Rejected(e, rs, f, g) ==
  {"reject:" \o r.why : r \in {x \in rs : e.st = "ok"}}
  \cup If(e.st = "err" /\ ~\E r \in rs : Raises(e, r.er), {"reject-error:" \o r.why : r \in rs})
  \cup If(f.tr # g.tr, {"rejected-modified:" \o r.why : r \in rs})

Unchanged(f, g, t) == If(f.tr # g.tr, {t})

\* the items of a write: what WriteFrom says, then compare
\* Items of an old value may stay if unused ones are not deleted: a later item of
\* the same batch may or may not find one in its way.
WriteEv(e, s, f, g, fresh) ==
  LET ps == SMap(e.qs, PathOf)
      w0 == WriteFrom(View(f.tr, s.R), ps, e.vals, s.o, 0)
      w == IF w0.er = "?" /\ e.st = "ok" /\ ~s.o.dele THEN WriteFrom(View(f.tr, s.R), ps, e.vals, [s.o EXCEPT !.dele = TRUE], 0) ELSE w0
  IN If((w.er = "") # (e.st = "ok"), {"outcome:" \o (IF w.er = "" THEN "ok" ELSE w.er) \o "-" \o e.st})
     \cup If(w.er \notin {"", "?"} /\ e.st = "err" /\ ~Raises(e, w.er), {"error:" \o w.er})
     \cup IF (w.er = "") # (e.st = "ok") THEN {} ELSE WriteDiff(f.tr, g.tr, ps, w, s, fresh)
\* An error was forced somewhere in the middle of a write: some number of items
\* were written before it, one was being written, and the others were not begun.
\* The canonical empty may be half written (the next write makes it again).
\* If the operation copes with the error, it has to do all it should.
FaultEv(e, s, f, g, fresh) ==
  LET ps == SMap(e.qs, PathOf)
      w == WriteFrom(View(f.tr, s.R), ps, e.vals, s.o, 0)
      last == IF w.n < Len(ps) THEN w.n ELSE Len(ps) - 1
      D == [k \in 0..last |->
              WriteDiff(f.tr, g.tr, ps, [WriteFrom(View(f.tr, s.R), SubSeq(ps, 1, k), e.vals, s.o, 0) EXCEPT !.er = "?"], s, fresh) \ {"refs:canonical"}]
  IN IF e.st = "ok" THEN WriteEv(e, s, f, g, fresh)
     ELSE IF \E k \in 0..last : D[k] = {} THEN {} ELSE Tag("fault", D[last])
ReadOne(e, s, f, p, w, known) ==
  LET r == ReadAt(f.tr, p, s) IN If(r.known /\ ~SameValue(r.v, w), {"read:value"})
ReadEv(e, s, f, g) ==
  LET ps == SMap(e.qs, PathOf)
      miss == \E i \in 1..Len(ps) : ~Exists(f.tr, ps[i])
      unsure == \E i \in 1..Len(ps) : Exists(f.tr, ps[i]) /\ ~ReadAt(f.tr, ps[i], s).known
  IN Unchanged(f, g, "read:modified")
     \cup IF miss THEN If(~Raises(e, "KeyError") /\ ~(unsure /\ e.st = "err"), {"read:missing"})
        ELSE IF unsure THEN {}
        ELSE IF e.st # "ok" THEN {"read:outcome"}
        ELSE If(Len(e.res) # Len(ps), {"read:length"})
             \cup UNION {ReadOne(e, s, f, ps[i], e.res[i], TRUE) : i \in 1..(IF Len(e.res) < Len(ps) THEN Len(e.res) ELSE Len(ps))}

\* removal of p from f gives g
DelDiff(e, s, f, g, p) ==
  LET v == Del(View(f.tr, s.R), p)
  IN Tag("del", NodeDiff(Prune(v, s.R), View(g.tr, s.R), FALSE))
     \cup RefsKept(f.tr, g.tr, {r \in s.R : ~Prefix(p, r)}) \cup RefClauses(g.tr, s.R)

NoneFresh(qs) == [i \in 1..Len(qs) |-> [t |-> "none"]]

\* a sequence of events of reading one object: get, pop, setdefault
ValueOk(e, s, f, p) == LET r == ReadAt(f.tr, p, s)
                       IN IF ~r.known THEN {} ELSE IF e.st # "ok" THEN {"map:outcome"}
                          ELSE If(e.dflt \/ Len(e.res) # 1 \/ ~SameValue(r.v, e.res[1]), {"map:value"})

MapEv(e, s, f, g) ==
  LET tops == TopNames(f.tr, s)
      rs == Rejects(s, e.qs, FALSE)
      p == IF Len(e.qs) = 1 /\ PathErr(e.qs[1]) = "" THEN PathOf(e.qs[1]) ELSE <<>>
  IN CASE e.op = "in" ->
            IF PathErr(e.qs[1]) # "" THEN If(e.st = "ok" /\ e.n # 0, {"map:in"}) \cup If(s.open /\ e.st # "ok", {"map:in"}) \cup Unchanged(f, g, "read:modified")
            ELSE IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE If(e.st # "ok" \/ e.n # (IF Exists(f.tr, p) THEN 1 ELSE 0), {"map:in"}) \cup Unchanged(f, g, "read:modified")
       [] e.op = "len" ->
            IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE If(e.st # "ok" \/ e.n # Len(tops), {"map:len"}) \cup Unchanged(f, g, "read:modified")
       [] e.op \in {"iter", "keys"} ->
            IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE If(e.st # "ok" \/ e.names # tops, {"map:iter"}) \cup Unchanged(f, g, "read:modified")
       [] e.op \in {"items", "values"} ->
            IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE Unchanged(f, g, "read:modified")
                 \cup IF \E i \in 1..Len(tops) : ~ReadAt(f.tr, <<tops[i]>>, s).known THEN {}
                    ELSE IF e.st # "ok" THEN {"map:items"}
                    ELSE If(e.op = "items" /\ e.names # tops, {"map:items"})
                         \cup If(Len(e.res) # Len(tops), {"map:items"})
                         \cup If(Len(e.res) = Len(tops) /\ \E i \in 1..Len(tops) : ~SameValue(ReadAt(f.tr, <<tops[i]>>, s).v, e.res[i]),
                                 {"map:item-values"})
       [] e.op = "get" ->
            IF rs # {} THEN Rejected(e, rs, f, g)
            ELSE Unchanged(f, g, "read:modified")
                 \cup IF Exists(f.tr, p) THEN ValueOk(e, s, f, p) ELSE If(e.st # "ok" \/ ~e.dflt, {"map:get-default"})
       [] e.op = "setdefault" ->
            IF rs # {} THEN Rejected(e, rs, f, g)
            ELSE IF Exists(f.tr, p) THEN ValueOk(e, s, f, p) \cup Unchanged(f, g, "read:modified")
            ELSE LET ws == Rejects(s, e.qs, TRUE)
                 IN IF ws # {} THEN Rejected(e, ws, f, g)
                    ELSE WriteEv(e, s, f, g, NoneFresh(e.qs)) \cup If(e.st = "ok" /\ ~e.same, {"map:setdefault-result"})
       [] e.op = "pop" ->
            IF rs # {} THEN Rejected(e, rs, f, g)
            ELSE IF ~Exists(f.tr, p)
            THEN Unchanged(f, g, "map:pop-missing-modified")
                 \cup (IF e.hasd THEN If(e.st # "ok" \/ ~e.dflt, {"map:pop-default"}) ELSE If(~Raises(e, "KeyError"), {"map:pop-missing"}))
            ELSE IF ~ReadAt(f.tr, p, s).known THEN {}
            ELSE LET ws == Rejects(s, e.qs, TRUE)
                 IN IF ws # {} THEN Rejected(e, ws, f, g)
                    ELSE IF p = <<>> THEN If(e.st = "ok", {"map:pop-root"})
                    ELSE ValueOk(e, s, f, p) \cup DelDiff(e, s, f, g, p)
       [] e.op = "del" ->
            LET ws == Rejects(s, e.qs, TRUE)
            IN IF ws # {} THEN Rejected(e, ws, f, g)
               ELSE IF p = <<>> \/ ~Exists(f.tr, p) THEN If(~Raises(e, "KeyError"), {"map:del-missing"}) \cup Unchanged(f, g, "map:del-missing-modified")
               ELSE If(e.st # "ok", {"map:del"}) \cup DelDiff(e, s, f, g, p)
       [] e.op = "popitem" ->
            IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE IF tops = <<>> THEN If(~Raises(e, "KeyError"), {"map:popitem-empty"}) \cup Unchanged(f, g, "rejected-modified:empty")
            ELSE IF ~ReadAt(f.tr, <<tops[1]>>, s).known THEN {}
            ELSE IF ~s.wr THEN Rejected(e, {Why("readonly", "OSError")}, f, g)
            ELSE IF AboveRefs(<<tops[1]>>, s.refs) THEN Rejected(e, {Why("refs", "ValueError")}, f, g)
            ELSE If(e.st # "ok" \/ e.names # <<tops[1]>>, {"map:popitem"})
                 \cup If(e.st = "ok" /\ ~SameValue(ReadAt(f.tr, <<tops[1]>>, s).v, e.res[1]), {"map:popitem-value"})
                 \cup DelDiff(e, s, f, g, <<tops[1]>>)
       [] e.op = "clear" ->
            IF ~s.open THEN Rejected(e, {Why("closed", "OSError")}, f, g)
            ELSE IF tops = <<>> THEN If(e.st # "ok", {"map:clear"}) \cup Unchanged(f, g, "map:clear-modified")
            ELSE IF \E i \in 1..Len(tops) : ~ReadAt(f.tr, <<tops[i]>>, s).known THEN {}
            ELSE IF ~s.wr THEN Rejected(e, {Why("readonly", "OSError")}, f, g)
            ELSE IF \E i \in 1..Len(tops) : AboveRefs(<<tops[i]>>, s.refs) THEN If(e.st = "ok", {"reject:refs"})
            ELSE If(e.st # "ok", {"map:clear"}) \cup If(TopNames(g.tr, s) # <<>>, {"map:clear-left"})
                 \cup RefsKept(f.tr, g.tr, {s.refs})
       [] OTHER -> {"undefined"}

RECURSIVE UpdateFrom(_, _, _, _, _)     \* update is one write after another
UpdateFrom(s, qs, vals, n, v) ==
  IF n = Len(qs) THEN [v |-> v, n |-> n, er |-> "", nds |-> <<>>]
  ELSE LET rs == Rejects(s, <<qs[n + 1]>>, TRUE)
       IN IF rs # {} THEN [v |-> v, n |-> n, er |-> (CHOOSE r \in rs : TRUE).er, nds |-> <<>>]
          ELSE LET w == WriteFrom(v, <<PathOf(qs[n + 1])>>, <<vals[n + 1]>>, s.o, 0)
                   u == UpdateFrom(s, qs, vals, n + 1, w.v)
               IN IF w.er # "" THEN [w EXCEPT !.n = n] ELSE [u EXCEPT !.nds = w.nds \o @]
UpdateEv(e, s, f, g) ==
  LET w == UpdateFrom(s, e.qs, e.vals, 0, View(f.tr, s.R))
      ps == [i \in 1..Len(e.qs) |-> IF PathErr(e.qs[i]) = "" THEN PathOf(e.qs[i]) ELSE <<<<0>>>>]
  IN IF ~s.open \/ ~s.wr THEN (IF e.qs = <<>> THEN {} ELSE Rejected(e, Rejects(s, <<e.qs[1]>>, TRUE), f, g))
     ELSE If((w.er = "") # (e.st = "ok"), {"map:update-outcome"})
          \cup IF (w.er = "") # (e.st = "ok") THEN {} ELSE WriteDiff(f.tr, g.tr, ps, w, s, NoneFresh(ps))

Options(c, k) == c.o[k]
Session(s, a) == [s EXCEPT !.open = TRUE, !.wr = a.wr, !.o = a.o, !.refs = a.refs, !.R = @ \cup {a.refs}]
Closed0 == [open |-> FALSE, wr |-> FALSE, o |-> [mc |-> FALSE], refs |-> <<>>, R |-> {}, sha |-> "", soft |-> {}]

FreshOf(e, O) == [i \in 1..Len(e.qs) |->
                    IF Len(e.fresh) < i \/ e.fresh[i] = 0 THEN [t |-> "none"]
                    ELSE LET f == O[e.fresh[i]] IN Node(View(f.tr, {e.frefs}), <<<<120>>>>)]
NoOpen == [wr |-> FALSE, trunc |-> FALSE, tinv |-> FALSE]

\* [s, cl]
Step(c, O, s, e) ==
  LET f == O[e.pre]
      g == O[e.post]
      a == [wr |-> e.a.wr, trunc |-> e.a.trunc, tinv |-> e.a.tinv, o |-> c.o[e.a.o], refs |-> e.a.refs]
      Same0(cl) == [s |-> s, cl |-> cl]
  IN CASE Raises(e, "Hang") -> Same0({"hang"})
       [] e.op = "open" ->
            LET kind == OpenKind(f, a)
                s1 == IF kind = "new" THEN [s EXCEPT !.R = {}, !.soft = {}] ELSE s
            IN IF e.a.bad # ""
               THEN Same0(If(~Raises(e, e.a.bad), {"open:arguments"}) \cup If(f.sha # g.sha \/ f.ex # g.ex, {"open:modified"}))
               ELSE IF (kind = "error") # (e.st = "err") THEN Same0({"open:outcome"})
               ELSE IF kind = "error" THEN Same0(If(~Raises(e, "OSError"), {"open:error"}) \cup OpenDiff(f, g, a, kind))
               ELSE [s |-> [Session(s1, a) EXCEPT !.sha = f.sha], cl |-> OpenDiff(f, [g EXCEPT !.sha = f.sha], a, kind)]
       [] e.op = "close" ->
            [s |-> [s EXCEPT !.open = FALSE],
             cl |-> If(e.st # "ok", {"close:error"})
                    \cup If(e.st = "ok" /\ e.n # 1, {"close:open"})
                    \cup If(~g.ex \/ ~g.h5, {"close:file"})
                    \cup If(g.ex /\ g.h5 /\ g.tr # f.tr, {"close:contents"})
                    \cup If(g.ex /\ g.h5 /\ s.open /\ s.wr /\ s.o.mc /\ g.ub >= 128 /\ ~ValidHeader(g.h128), {"close:header"})
                    \cup If(s.open /\ ~s.wr /\ s.sha # "" /\ g.sha # s.sha, {"close:readonly-modified"})
                    \cup If(f.ub # g.ub \/ f.h128 # g.h128 \/ f.hrest # g.hrest, {"close:userblock"})]
       [] e.op = "closed" -> Same0(If(e.st # "ok" \/ e.n # (IF s.open THEN 0 ELSE 1), {"life:closed"}))
       [] e.op = "flush" -> Same0(IF s.open THEN If(e.st # "ok", {"life:flush"}) ELSE If(~Raises(e, "OSError"), {"reject:closed"}))
       [] e.op \in {"write", "writes", "setitem"} ->
            LET rs == Rejects(s, e.qs, TRUE)
            IN Same0(IF rs # {} THEN Rejected(e, rs, f, g) ELSE WriteEv(e, s, f, g, FreshOf(e, O)))
       [] e.op = "fault" ->
            LET rs == Rejects(s, e.qs, TRUE)
            IN Same0(IF rs # {} THEN Rejected(e, rs, f, g) ELSE FaultEv(e, s, f, g, FreshOf(e, O)))
       [] e.op \in {"read", "reads", "getitem"} ->
            LET rs == Rejects(s, e.qs, FALSE)
            IN Same0(IF rs # {} THEN Rejected(e, rs, f, g) ELSE ReadEv(e, s, f, g))
       [] e.op = "update" -> Same0(UpdateEv(e, s, f, g))
       [] e.op \in {"owrite", "oread"} ->       \* one-shot functions: opening, the operation, closing
            LET kind == OpenKind(f, a)
                f1 == IF kind = "new" THEN [f EXCEPT !.ex = TRUE, !.h5 = TRUE, !.ub = 512, !.tr = EmptyGroup] ELSE f
                s1 == [Session(IF kind = "new" THEN [s EXCEPT !.R = {}, !.soft = {}] ELSE s, a) EXCEPT !.sha = ""]
                rs == Rejects(s1, e.qs, e.op = "owrite")
            IN IF kind = "error" THEN Same0(If(e.st # "err" \/ ~Raises(e, "OSError"), {"open:error"}) \cup If(f.sha # g.sha \/ f.ex # g.ex, {"open:modified"}))
               ELSE IF ~g.ex \/ ~g.h5 THEN Same0({"close:file"})
               ELSE [s |-> [s1 EXCEPT !.open = FALSE],
                     cl |-> (IF rs # {} THEN Rejected(e, rs, f1, g)
                             ELSE IF e.op = "owrite" THEN WriteEv(e, s1, f1, g, FreshOf(e, O)) ELSE ReadEv(e, s1, f1, g))
                            \cup OpenDiff(f, [g EXCEPT !.tr = f1.tr, !.sha = IF a.wr THEN f.sha ELSE @], a, kind)]
       [] OTHER -> Same0(MapEv(e, s, f, g))

\* the paths a failed write may have left something unreadable at
SoftAfter(s, e) ==
  IF e.op \notin {"write", "writes", "setitem", "fault", "update", "setdefault", "owrite"} THEN s.soft
  ELSE LET ps == {PathOf(e.qs[i]) : i \in {j \in 1..Len(e.qs) : PathErr(e.qs[j]) = ""}}
       IN IF e.st = "err" THEN s.soft \cup ps
          ELSE {q \in s.soft : ~\E p \in ps : Prefix(p, q) /\ p # <<>>}

RECURSIVE Walk(_, _, _, _, _)
Walk(c, O, i, s, acc) ==
  IF i > Len(c.ev) THEN acc
  ELSE LET r == Step(c, O, s, c.ev[i])
       IN Walk(c, O, i + 1, [r.s EXCEPT !.soft = SoftAfter(r.s, c.ev[i])], acc \cup {x \o "@" \o ToString(i) : x \in r.cl})

Judge(c) ==
  LET O == [k \in 1..Len(c.obs) |-> [c.obs[k] EXCEPT !.tr = CanonS(@)]]
      s0 == [Closed0 EXCEPT !.R = {c.refs0[j] : j \in 1..Len(c.refs0)}]
  IN Walk(c, O, 1, s0, {})
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

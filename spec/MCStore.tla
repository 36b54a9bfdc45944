------------------------------- MODULE MCStore -------------------------------
(* A concrete file and an abstract one side by side.  The concrete file keeps *)
(* the objects of reference Datasets in its reference Group under names that  *)
(* were not in use; the abstract one is the view of HStore.  The operations   *)
(* (IOEnv.VOPS) are done in all orders up to Depth, and the histories that    *)
(* were gone through are printed, for the real code to go through as well.    *)
EXTENDS HStore, Json, IOUtils, SequencesExt
CONSTANTS Depth

In == JsonDeserialize(IOEnv.VOPS)
Ops == In.ops         \* [op, qs, vs, o, wr]
Vals == In.vals
Opts == In.opts
Refs == <<<<35, 114, 101, 102, 115, 35>>>>

VARIABLES tree, view, open, hist, known
vars == <<tree, view, open, hist, known>>
\* open: 0 (closed), or 1 + the index of the options, negative if read only

(* ------------------------- the concrete file ------------------------------ *)
RefNames(tr) == LET g == Node(tr, Refs) IN IF g.t = "missing" THEN {} ELSE Names(g)
FreshName(tr) == LET k == CHOOSE k \in 1..60 : <<97 + k>> \notin RefNames(tr) /\ \A j \in 1..(k - 1) : <<97 + j>> \in RefNames(tr) IN <<97 + k>>
RECURSIVE Alloc(_, _)
RECURSIVE AllocEls(_, _, _)
RECURSIVE AllocItems(_, _, _)
\* puts the objects of references into the Group; the references are to them
Alloc(tr, nd) ==
  IF nd.t = "D" THEN IF nd.d.n # "ref" THEN [tr |-> tr, nd |-> nd]
                     ELSE LET r == AllocEls(tr, nd.da, <<>>) IN [tr |-> r.tr, nd |-> [nd EXCEPT !.da = r.s]]
  ELSE IF nd.t = "G" THEN LET r == AllocItems(tr, nd.it, <<>>) IN [tr |-> r.tr, nd |-> [nd EXCEPT !.it = r.s]]
  ELSE [tr |-> tr, nd |-> nd]
AllocEls(tr, s, acc) ==
  IF s = <<>> THEN [tr |-> tr, s |-> acc]
  ELSE LET x == Head(s).rf
       IN IF IsCanonical(x)
          THEN LET p == Append(Refs, Aname)
               IN AllocEls(IF Exists(tr, p) /\ IsCanonical(Node(tr, p)) THEN tr ELSE Put(tr, p, x), Tail(s), Append(acc, [rf |-> [t |-> "ref", p |-> p]]))
          ELSE LET r == Alloc(tr, x)
                   p == Append(Refs, FreshName(r.tr))
               IN AllocEls(Put(r.tr, p, r.nd), Tail(s), Append(acc, [rf |-> [t |-> "ref", p |-> p]]))
AllocItems(tr, s, acc) ==
  IF s = <<>> THEN [tr |-> tr, s |-> acc]
  ELSE LET r == Alloc(tr, Head(s).nd) IN AllocItems(r.tr, Tail(s), Append(acc, [nm |-> Head(s).nm, nd |-> r.nd]))

\* the tree with x in the place of what is at p; items of a Group that is there stay if they are not to be deleted
PutC(tr, p, x, dele) ==
  LET y == Merge(IF p = <<>> THEN DropItem(tr, Refs[1]) ELSE Node(tr, p), x, dele)
  IN IF p # <<>> THEN Put(tr, p, y)
     ELSE IF Exists(tr, Refs) THEN [y EXCEPT !.it = Append(@, [nm |-> Refs[1], nd |-> Node(tr, Refs)])] ELSE y

RECURSIVE WriteC(_, _, _, _)
WriteC(tr, ps, vs, o) ==      \* stops at the first one that cannot be written
  IF ps = <<>> THEN tr
  ELSE LET e == Encode(vs[1], o)
       IN IF (ps[1] # <<>> /\ ~CanPut(tr, ps[1])) \/ e.st = "err" \/ (ps[1] = <<>> /\ e.st = "ok" /\ e.nd.t # "G") THEN tr
          ELSE IF e.st = "none" THEN WriteC(tr, Tail(ps), Tail(vs), o)
          ELSE LET a == Alloc(tr, e.nd) IN WriteC(PutC(a.tr, ps[1], a.nd, o.dele), Tail(ps), Tail(vs), o)

(* ------------------------------ the steps --------------------------------- *)
Paths(e) == SMap(e.qs, PathOf)
ValsOf(e) == SMap(e.vs, LAMBDA i : Vals[i])
Opt == Opts[IF open < 0 THEN -open ELSE open]
Sess == [wr |-> TRUE, refs |-> Refs]
BadTarget(e) == \E i \in 1..Len(e.qs) : InRefs(Paths(e)[i], Refs) \/ AboveRefs(Paths(e)[i], Refs)

Init == tree = EmptyGroup /\ view = EmptyGroup /\ open = 0 /\ hist = <<>> /\ known = <<>>
Step(i) ==
  LET e == Ops[i]
      ps == Paths(e)
      same == UNCHANGED <<tree, view, open, known>>
  IN CASE e.op = "open" -> open = 0 /\ (e.wr \/ hist # <<>>) /\ open' = (IF e.wr THEN e.o ELSE -e.o) /\ UNCHANGED <<tree, view, known>>
       [] e.op = "close" -> open # 0 /\ open' = 0 /\ UNCHANGED <<tree, view, known>>
       [] e.op \in {"write", "writes"} ->
            IF open <= 0 \/ BadTarget(e) THEN hist # <<>> /\ same     \* refused
            ELSE LET w == WriteFrom(view, ps, ValsOf(e), Opt, 0)
                 IN /\ view' = w.v
                    /\ tree' = WriteC(tree, ps, ValsOf(e), Opt)
                    /\ known' = IF w.er = "" /\ Len(ps) = 1 THEN <<[p |-> ps[1], x |-> Encode(Vals[e.vs[1]], Opt), dele |-> Opt.dele]>> ELSE <<>>
                    /\ UNCHANGED open
       [] e.op = "del" ->
            IF open <= 0 \/ ps[1] = <<>> \/ ~Exists(view, ps[1]) \/ BadTarget(e) THEN hist # <<>> /\ same
            ELSE view' = Prune(Del(view, ps[1]), {Refs}) /\ tree' = Del(tree, ps[1]) /\ known' = <<>> /\ UNCHANGED open
       [] e.op = "fault" ->      \* an error somewhere in the middle; at most one in a history
            /\ open > 0 /\ \A j \in 1..Len(hist) : Ops[hist[j]].op # "fault"
            /\ \E k \in 0..(Len(ps) - 1), gone \in BOOLEAN :
                 LET w == WriteFrom(view, SubSeq(ps, 1, k), SubSeq(ValsOf(e), 1, k), Opt, 0)
                     tr == WriteC(tree, SubSeq(ps, 1, k), SubSeq(ValsOf(e), 1, k), Opt)
                     x == Encode(ValsOf(e)[k + 1], Opt)
                     tr2 == IF x.st = "ok" THEN Alloc(tr, x.nd).tr ELSE tr
                 IN /\ w.er = ""
                    /\ view' = IF gone THEN Del(w.v, ps[k + 1]) ELSE w.v
                    /\ tree' = IF gone THEN Del(tr2, ps[k + 1]) ELSE tr2
                    /\ known' = <<>> /\ UNCHANGED open
       [] e.op = "popitem" ->
            IF open <= 0 \/ view.it = <<>> THEN hist # <<>> /\ same
            ELSE \E n \in Names(view) : view' = Del(view, <<n>>) /\ tree' = Del(tree, <<n>>) /\ known' = <<>> /\ UNCHANGED open
       [] OTHER -> hist # <<>> /\ same
Next == Len(hist) < Depth /\ \E i \in 1..Len(Ops) : Step(i) /\ hist' = Append(hist, i)

(* ------------------------------ properties -------------------------------- *)
\* C05, C06, C08: the concrete file shows what the abstract one says
Refines == NodeDiff(view, View(tree, {Refs}), FALSE) = {}
\* C16
Sound == RefClauses(tree, {Refs}) = {}
Kept == [][RefsKept(tree, tree', {Refs}) = {}]_vars
\* C06: what is not written or deleted stays as it was
Touched(e) == IF e.op \in {"write", "writes", "del", "fault"} THEN {FirstMissing(view, Paths(e)[j], 1) : j \in 1..Len(e.qs)} ELSE {}
Frame == [][LET e == Ops[hist'[Len(hist')]]
            IN e.op = "popitem" \/ <<>> \in Touched(e) \/ NodeDiff(DelAll(view, Touched(e)), DelAll(view', Touched(e)), FALSE) = {}]_vars
\* C09: nothing changes while closed or read only
Guarded == [][open <= 0 => tree' = tree /\ view' = view]_vars
\* C05: what was written last is there
Latest == known # <<>> /\ known[1].x.st = "ok"
          => NodeDiff(known[1].x.nd, Node(view, known[1].p), ~known[1].dele) = {}
\* C08: the names are those of what was put there and not removed
Listed == {TopNames(tree, Sess)[i] : i \in 1..Len(TopNames(tree, Sess))} = Names(view)
Show == Len(hist) = Depth => PrintT("HIST " \o ToString(hist))
=============================================================================

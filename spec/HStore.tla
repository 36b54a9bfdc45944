------------------------------- MODULE HStore --------------------------------
(* A file as a tree of objects with a Group for references, and what the      *)
(* operations on an open file do to it.                                       *)
(*                                                                            *)
(* A tree is the root Group; the elements of its reference Datasets are       *)
(* [t:"ref", p: path of the object] (or [t:"null"], [t:"dangling"]).  A path  *)
(* is the sequence of the names from the root down.  The view of a tree has   *)
(* the objects in place of the references and no reference Groups.            *)
EXTENDS HDiff, HRead

Missing == [t |-> "missing"]
EmptyGroup == [t |-> "G", it |-> <<>>, at |-> {}]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Front1(p) == SubSeq(p, 1, Len(p) - 1)

(* ------------------------------ trees ------------------------------------- *)
Sub(nd, n) == IF nd.t # "G" \/ n \notin Names(nd) THEN Missing ELSE Child(nd, n)
RECURSIVE Node(_, _)
Node(nd, p) == IF nd.t = "missing" \/ p = <<>> THEN nd ELSE Node(Sub(nd, Head(p)), Tail(p))
Exists(nd, p) == Node(nd, p).t # "missing"

SetItem(g, n, x) ==
  IF n \in Names(g) THEN [g EXCEPT !.it = SMap(@, LAMBDA y : IF y.nm = n THEN [nm |-> n, nd |-> x] ELSE y)]
  ELSE [g EXCEPT !.it = Append(@, [nm |-> n, nd |-> x])]
DropItem(g, n) == [g EXCEPT !.it = SelectSeq(@, LAMBDA y : y.nm # n)]

\* removing an object (nothing happens if there is none)
RECURSIVE Del(_, _)
Del(nd, p) ==
  IF p = <<>> \/ nd.t # "G" \/ Head(p) \notin Names(nd) THEN nd
  ELSE IF Len(p) = 1 THEN DropItem(nd, p[1])
  ELSE SetItem(nd, Head(p), Del(Child(nd, Head(p)), Tail(p)))
RECURSIVE DelAll(_, _)
DelAll(nd, ps) == IF ps = {} THEN nd ELSE LET p == CHOOSE q \in ps : TRUE IN DelAll(Del(nd, p), ps \ {p})

\* whether a Group can be made at p: nothing but Groups on the way
RECURSIVE CanPut(_, _)
CanPut(nd, p) == nd.t = "missing" \/ (nd.t = "G" /\ (Len(p) <= 1 \/ CanPut(Sub(nd, Head(p)), Tail(p))))
RECURSIVE Put(_, _, _)
Put(nd, p, x) ==
  IF p = <<>> THEN x
  ELSE LET g == IF nd.t = "missing" THEN EmptyGroup ELSE nd
       IN SetItem(g, Head(p), Put(Sub(g, Head(p)), Tail(p), x))
\* the first part of a path that does not exist
RECURSIVE FirstMissing(_, _, _)
FirstMissing(nd, p, k) == IF k >= Len(p) THEN p
                          ELSE IF Exists(nd, SubSeq(p, 1, k)) THEN FirstMissing(nd, p, k + 1) ELSE SubSeq(p, 1, k)

(* -------------------------- references and views -------------------------- *)
RECURSIVE CanonS(_)     \* attributes as sets
CanonS(nd) ==
  IF nd.t = "D" THEN [nd EXCEPT !.at = {@[i] : i \in 1..Len(@)}]
  ELSE IF nd.t = "G" THEN [nd EXCEPT !.at = {@[i] : i \in 1..Len(@)}, !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> CanonS(x.nd)])]
  ELSE [t |-> nd.t]

\* R: the paths of the reference Groups
RECURSIVE Expand(_, _, _)
Expand(tree, nd, R) ==
  IF nd.t = "D"
  THEN IF nd.d.n # "ref" THEN nd
       ELSE [nd EXCEPT !.da = SMap(@, LAMBDA e :
              [rf |-> IF e.rf.t # "ref" THEN e.rf
                      ELSE IF e.rf.p = <<>> \/ Front1(e.rf.p) \notin R THEN [t |-> "outside"]
                      ELSE LET x == Node(tree, e.rf.p) IN IF x.t = "missing" THEN [t |-> "dangling"] ELSE Expand(tree, x, R)])]
  ELSE IF nd.t = "G" THEN [nd EXCEPT !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> Expand(tree, x.nd, R)])]
  ELSE nd

\* removes the reference Groups, and Groups that only hold them
RECURSIVE PruneUp(_, _)
PruneUp(nd, p) == IF p = <<>> \/ ~Exists(nd, p) THEN nd
                  ELSE LET x == Node(nd, p)
                       IN IF x.t = "G" /\ x.it = <<>> /\ x.at = {} THEN PruneUp(Del(nd, p), Front1(p)) ELSE nd
RECURSIVE Prune(_, _)
Prune(nd, R) == IF R = {} THEN nd
                ELSE LET r == CHOOSE q \in R : TRUE IN Prune(PruneUp(Del(nd, r), Front1(r)), R \ {r})
\* only the objects outside of the reference Groups are expanded
View(tree, R) == Expand(tree, Prune(tree, R), R)

\* all references: the sequence of the elements of all reference Datasets
RECURSIVE Edges(_)
Edges(nd) == IF nd.t = "D" THEN (IF nd.d.n = "ref" THEN SMap(nd.da, LAMBDA e : e.rf) ELSE <<>>)
             ELSE IF nd.t = "G" THEN SFlat(SMap(nd.it, LAMBDA x : Edges(x.nd)))
             ELSE <<>>
Aname == <<97>>
IsCanonical(nd) == /\ nd.t = "D" /\ nd.sh = <<2>>
                   /\ nd.d.n \in {"uint8", "uint16", "uint32", "uint64"}
                   /\ \A i \in 1..Len(nd.da) : AllZero(nd.da[i].x)
                   /\ StrAttr(nd.at, "MATLAB_class") = "canonical empty"
                   /\ IsOne(nd.at, "MATLAB_empty")

\* C16: the references of a tree
RefClauses(tree, R) ==
  LET es == Edges(tree)
      own == SelectSeq(es, LAMBDA e : e.t = "ref" /\ ~IsCanonical(Node(tree, e.p)))
  IN (IF \E i \in 1..Len(es) : es[i].t = "null" THEN {"ref:null"} ELSE {})
     \cup (IF \E i \in 1..Len(es) : es[i].t = "dangling" \/ (es[i].t = "ref" /\ ~Exists(tree, es[i].p)) THEN {"ref:dangling"} ELSE {})
     \cup (IF \E i \in 1..Len(es) : es[i].t = "ref" /\ (es[i].p = <<>> \/ Front1(es[i].p) \notin R) THEN {"ref:outside"} ELSE {})
     \cup (IF Cardinality({own[i] : i \in 1..Len(own)}) # Len(own) THEN {"ref:shared"} ELSE {})

\* what refers to p afterwards refers to q
RECURSIVE Moved(_, _, _)
Moved(nd, p, q) == IF nd.t = "D" THEN (IF nd.d.n # "ref" THEN nd
                                       ELSE [nd EXCEPT !.da = SMap(@, LAMBDA e : IF e.rf.t = "ref" /\ e.rf.p = p THEN [rf |-> [e.rf EXCEPT !.p = q]] ELSE e)])
                   ELSE IF nd.t = "G" THEN [nd EXCEPT !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> Moved(x.nd, p, q)])]
                   ELSE nd
\* C06, C16: what is in a reference Group stays there; only something else that
\* has the name of the canonical empty may be given another, unused, one
RefsKept(pre, post, R) ==
  UNION {LET g == Node(pre, r) h == Node(post, r)
             kept(n, m, x) == m \in Names(h) /\ Child(h, m) = x
             same == \A n \in Names(g) : kept(n, n, Child(g, n))
             away == /\ Aname \in Names(g) /\ ~IsCanonical(Child(g, Aname))
                     /\ \E m \in Names(h) \ Names(g) :
                          \A n \in Names(g) : kept(n, IF n = Aname THEN m ELSE n, Moved(Child(g, n), Append(r, Aname), Append(r, m)))
         IN IF g.t = "missing" THEN {}
            ELSE IF g.t # "G" \/ h.t # "G" THEN {"refs:group"}
            ELSE (IF same \/ away THEN {} ELSE {"refs:changed"})
                 \cup (IF h.at # g.at THEN {"refs:attributes"} ELSE {})
                 \cup (IF Aname \in Names(h) /\ Child(h, Aname) # Sub(g, Aname) /\ ~IsCanonical(Child(h, Aname)) THEN {"refs:canonical"} ELSE {})
         : r \in R}

(* -------------------------------- paths ----------------------------------- *)
InRefs(p, refs) == Prefix(refs, p)
AboveRefs(p, refs) == p # <<>> /\ Prefix(p, refs)

(* ------------------------------- sessions --------------------------------- *)
\* s: [open, wr, o, refs, R]; the reasons to reject an operation on paths qs
Why(w, e) == [why |-> w, er |-> e]
Rejects(s, qs, change) ==
  (IF ~s.open THEN {Why("closed", "OSError")} ELSE {})
  \cup (IF change /\ ~s.wr THEN {Why("readonly", "OSError")} ELSE {})
  \cup {Why("path", PathErr(qs[i])) : i \in {j \in 1..Len(qs) : PathErr(qs[j]) # ""}}
  \cup (IF \E i \in 1..Len(qs) : PathErr(qs[i]) = "" /\ (InRefs(PathOf(qs[i]), s.refs) \/ (change /\ AboveRefs(PathOf(qs[i]), s.refs)))
        THEN {Why("refs", "ValueError")} ELSE {})

\* What is stored when a new object is written over an old one: if unused items
\* are not deleted, a Group keeps the items of the old one
RECURSIVE Merge(_, _, _)
Merge(old, new, dele) ==
  IF dele \/ old.t # "G" \/ new.t # "G" THEN new
  ELSE [new EXCEPT !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> Merge(Sub(old, x.nm), x.nd, dele)])
                          \o SelectSeq(old.it, LAMBDA x : x.nm \notin Names(new))]

\* Writing the items one after another to a view: [v, n, er, nds]: the view, the
\* number of items written, the error the next one raises ("" if none, "?" for
\* any), and the objects written.  A discarded item changes nothing.
RECURSIVE WriteFrom(_, _, _, _, _)
WriteFrom(v, ps, vals, o, n) ==
  LET Stop(er) == [v |-> v, n |-> n, er |-> er, nds |-> <<>>]
  IN IF n = Len(ps) THEN Stop("")
  ELSE LET p == ps[n + 1]
           x == Encode(vals[n + 1], o)
           Go(w, nd) == LET r == WriteFrom(w, ps, vals, o, n + 1) IN [r EXCEPT !.nds = <<nd>> \o @]
       IN IF p # <<>> /\ ~CanPut(v, p) THEN Stop("?")
          ELSE IF x.st = "err" THEN Stop(x.er)
          ELSE IF x.st = "none" THEN Go(v, Node(v, p))
          ELSE IF p = <<>> /\ x.nd.t # "G" THEN Stop("?")
          ELSE Go(Put(v, p, Merge(Node(v, p), x.nd, o.dele)), x.nd)

\* items an old value had that stay because unused ones are not deleted
RECURSIVE ExtraOk(_, _, _)
ExtraOk(e, old, f) ==
  IF e.t # "G" \/ f.t # "G" THEN TRUE
  ELSE \A n \in Names(f) : IF n \in Names(e) THEN ExtraOk(Child(e, n), Sub(old, n), Child(f, n))
                           ELSE n \in Names(old) /\ NodeDiff(Child(old, n), Child(f, n), FALSE) = {}

\* the byte order of numbers is kept as given: two trees have the same
RECURSIVE OrderDiff(_, _)
OrderDiff(a, b) ==
  IF a.t = "D" /\ b.t = "D"
  THEN (IF a.d = b.d /\ a.bo # b.bo THEN {"byteorder"} ELSE {})
       \cup (IF a.d.n = "ref" /\ b.d.n = "ref" /\ Len(a.da) = Len(b.da) THEN UNION {OrderDiff(a.da[i].rf, b.da[i].rf) : i \in 1..Len(a.da)} ELSE {})
  ELSE IF a.t = "G" /\ b.t = "G" THEN UNION {OrderDiff(Child(a, n), Child(b, n)) : n \in Names(a) \cap Names(b)}
  ELSE {}

Tag(t, S) == {t \o ":" \o x : x \in S}
Overlap(ps) == \E i, j \in 1..Len(ps) : i # j /\ Prefix(ps[i], ps[j])

\* How a tree found after writing differs from what it should be.  w is the
\* result of WriteFrom; fresh[i] is what writing item i alone to a new file
\* gave ([t:"none"] if not known).
WriteDiff(pre, post, ps, w, s, fresh) ==
  LET R == s.R
      v0 == View(pre, R)
      f == View(post, R)
      done == SubSeq(ps, 1, w.n)
      tried == IF w.er = "" THEN done ELSE Append(done, ps[w.n + 1])
      gone == {FirstMissing(v0, tried[i], 1) : i \in 1..Len(tried)}
      judged == {i \in 1..Len(done) :      \* not replaced by a later one, and not holding one
                   ~\E j \in 1..Len(tried) : j # i /\ ((Prefix(tried[j], done[i]) /\ j > i) \/ Prefix(done[i], tried[j]))}
      one(i) ==
        LET e == w.nds[i]
            g == Node(f, done[i])
            old == Node(v0, done[i])
        IN IF e.t = "missing" THEN (IF g.t = "missing" THEN {} ELSE {"target:extra"})
           ELSE IF g.t = "missing" THEN {"target:missing"}
           ELSE LET d == NodeDiff(e, g, ~s.o.dele)
                    d2 == IF d # {} /\ fresh[i].t \in {"D", "G"} THEN NodeDiff(fresh[i], g, ~s.o.dele) ELSE d
                IN (IF d # {} /\ d2 = {} THEN Tag("fresh", d) ELSE Tag("target", d))
                   \cup (IF fresh[i].t # "none" THEN Tag("target", OrderDiff(fresh[i], g)) ELSE {})
                   \cup (IF ~s.o.dele /\ ~ExtraOk(e, old, g) THEN {"target:items-extra"} ELSE {})
      root == \E i \in 1..Len(tried) : tried[i] = <<>>
      deep == Len(s.refs) > 1
      \* reference Groups of other sessions are ordinary Groups, which may be overwritten
      taken == {r \in R \ {s.refs} : Exists(pre, r) /\ \E i \in 1..Len(tried) : Prefix(tried[i], r)}
  IN IF root /\ deep THEN {}
     ELSE UNION {one(i) : i \in judged}
          \cup (IF root THEN {} ELSE Tag("frame", NodeDiff(DelAll(v0, gone), DelAll(f, gone), FALSE)))
          \cup RefsKept(pre, post, R \ taken)
          \cup (IF taken = {} THEN RefClauses(post, R) ELSE {})

(* reading an object: [known, ok, v]; what reading an object that a failed   *)
(* write left behind gives is not specified                                   *)
Soft(p, s) == \E q \in s.soft : Prefix(p, q) \/ Prefix(q, p)
ReadAt(tree, p, s) ==
  LET x == IF p = <<>> THEN View(tree, {s.refs}) ELSE Expand(tree, Node(tree, p), s.R)
      d == Decode(x, s.o)
  IN IF AboveRefs(p, s.refs) \/ Soft(p, s) \/ Odd(x) THEN [known |-> FALSE, ok |-> FALSE, v |-> NoV]
     ELSE [known |-> d.ok, ok |-> d.ok, v |-> d.v]
SameValue(x, w) == Unordered(x) = Unordered(w)

\* the names iteration gives
TopNames(tree, s) == LET ns == SMap(tree.it, LAMBDA x : x.nm)
                     IN IF Len(s.refs) = 1 THEN SelectSeq(ns, LAMBDA n : n # s.refs[1]) ELSE ns

(* ------------------------------ life cycle -------------------------------- *)
\* an observed file: [ex, h5, ub, h128, hrest, sha, tr]
\* "MATLAB 7.3 MAT-file, Platform: <..>, Created on: Www Mmm dd HH:MM:SS yyyy HDF5 schema 1.00 ." + spaces, 8 nulls, 0 2 I M
StartsAt(b, i, t) == i + Len(t) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(t) - 1) = t
HeadStart == <<77,65,84,76,65,66,32,55,46,51,32,77,65,84,45,102,105,108,101,44,32,80,108,97,116,102,111,114,109,58,32>>
HeadCreated == <<44,32,67,114,101,97,116,101,100,32,111,110,58,32>>
HeadEnd == <<32,72,68,70,53,32,115,99,104,101,109,97,32,49,46,48,48,32,46>>
Digits(b, i, n) == \A j \in i..(i + n - 1) : b[j] >= 48 /\ b[j] <= 57
Days == {<<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>>, <<83,117,110>>}
Months == {<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>, <<74,117,108>>,
           <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>}
ValidHeader(b) ==
  /\ Len(b) = 128
  /\ StartsAt(b, 1, HeadStart)
  /\ \A i \in 1..116 : b[i] >= 32 /\ b[i] < 127
  /\ SubSeq(b, 117, 124) = Rep(0, 8) /\ SubSeq(b, 125, 128) = <<0, 2, 73, 77>>
  /\ \E k \in 32..70 :
       LET d == k + Len(HeadCreated)
       IN /\ StartsAt(b, k, HeadCreated)
          /\ SubSeq(b, d, d + 2) \in Days /\ b[d + 3] = 32
          /\ SubSeq(b, d + 4, d + 6) \in Months /\ b[d + 7] = 32
          /\ Digits(b, d + 8, 2) /\ b[d + 10] = 32 /\ Digits(b, d + 11, 2) /\ b[d + 13] = 58
          /\ Digits(b, d + 14, 2) /\ b[d + 16] = 58 /\ Digits(b, d + 17, 2) /\ b[d + 19] = 32 /\ Digits(b, d + 20, 4)
          /\ StartsAt(b, d + 24, HeadEnd)
          /\ \A i \in (d + 24 + Len(HeadEnd))..116 : b[i] = 32

\* what opening does: "error", "same" or "new" (an empty file)
OpenKind(f, a) ==
  IF ~a.wr THEN (IF f.ex /\ f.h5 THEN "same" ELSE "error")
  ELSE IF ~f.ex \/ a.trunc THEN "new"
  ELSE IF ~f.h5 THEN "error"
  ELSE IF a.o.mc /\ a.tinv /\ f.ub < 128 THEN "new" ELSE "same"

NewFile == [ex |-> TRUE, h5 |-> TRUE, ub |-> 512, tr |-> EmptyGroup]
OpenDiff(f, g, a, kind) ==
  IF kind = "error" THEN (IF f.sha = g.sha /\ f.ex = g.ex THEN {} ELSE {"open:modified"})
  ELSE LET b == IF kind = "new" THEN NewFile ELSE f
       IN (IF ~g.ex \/ ~g.h5 THEN {"open:file"} ELSE {})
          \cup (IF b.tr # g.tr THEN {"open:contents"} ELSE {})
          \cup (IF b.ub # g.ub THEN {"open:userblock"} ELSE {})
          \cup (IF a.wr /\ a.o.mc /\ b.ub >= 128
                THEN (IF ValidHeader(g.h128) THEN {} ELSE {"open:header"})
                     \cup (IF kind = "same" /\ f.hrest # g.hrest THEN {"open:userblock-rest"} ELSE {})
                ELSE IF kind = "same" /\ (f.h128 # g.h128 \/ f.hrest # g.hrest) THEN {"open:header-changed"} ELSE {})
          \cup (IF ~a.wr /\ f.sha # g.sha THEN {"open:modified"} ELSE {})
=============================================================================

-------------------------------- MODULE HColl --------------------------------
(* Collections of marshallers.  A marshaller declares types ty (as            *)
(* "module.name"), type strings ts and MATLAB classes mc, and needs the       *)
(* modules req, of which par have to be there.  The modules there are: a      *)
(* module has its ancestors anc (outermost first), and importing it works if  *)
(* it is good.                                                                *)
(* A collection has pr (the priority), lazy, bi, pl, us (the builtin, plugin  *)
(* and user marshallers); ld is the set of the modules imported.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Sections == {"builtin", "plugin", "user"}
Order(c) == LET sec(p) == CASE p = "builtin" -> c.bi [] p = "plugin" -> c.pl [] OTHER -> c.us
            IN sec(c.pr[1]) \o sec(c.pr[2]) \o sec(c.pr[3])

\* the marshallers that declare a key, and the one that is used (0: none)
Keys(m, by) == CASE by = "type" -> m.ty [] by = "string" -> m.ts [] OTHER -> m.mc
Find(M, c, by, key) ==
  LET o == SelectSeq(Order(c), LAMBDA i : \E j \in 1..Len(Keys(M[i], by)) : Keys(M[i], by)[j] = key)
  IN IF o = <<>> THEN 0 ELSE Head(o)

\* importing modules
Importing(mods, ld, name) ==
  LET RECURSIVE Up(_, _)
      Up(l, s) == IF s = <<>> THEN [ld |-> l, ok |-> TRUE]
                  ELSE IF Head(s) \in l THEN Up(l, Tail(s))
                  ELSE IF Head(s) \in DOMAIN mods /\ mods[Head(s)].good THEN Up(l \cup {Head(s)}, Tail(s))
                  ELSE [ld |-> l, ok |-> FALSE]
  IN Up(ld, IF name \in DOMAIN mods THEN Append(mods[name].anc, name) ELSE <<name>>)
RECURSIVE ImportAll(_, _, _)
ImportAll(mods, ld, req) ==
  IF req = <<>> THEN [ld |-> ld, ok |-> TRUE]
  ELSE LET r == Importing(mods, ld, Head(req))
       IN IF r.ok THEN ImportAll(mods, r.ld, Tail(req)) ELSE r

\* what needs to be there is there, and can be imported
Present(mods, ld, m) == \A i \in 1..Len(m.par) : m.par[i] \in ld \cup DOMAIN mods
Getting(mods, ld, m) == IF Present(mods, ld, m) THEN ImportAll(mods, ld, m.req) ELSE [ld |-> ld, ok |-> FALSE]

\* a lookup: the marshaller, whether it may be used fully, and the modules then imported
Look(M, mods, ld, c, by, key) ==
  LET m == Find(M, c, by, key)
  IN IF m = 0 THEN [m |-> 0, has |-> FALSE, ld |-> ld]
     ELSE LET g == Getting(mods, ld, M[m]) IN [m |-> m, has |-> g.ok, ld |-> g.ld]

\* any change of a collection that is not lazy imports all there is to import
RECURSIVE Eager(_, _, _, _)
Eager(M, mods, ld, o) == IF o = <<>> THEN ld ELSE Eager(M, mods, Getting(mods, ld, M[Head(o)]).ld, Tail(o))
Changed(M, mods, ld, c) == IF c.lazy THEN ld ELSE Eager(M, mods, ld, Order(c))

RECURSIVE Added(_, _)
Added(us, new) == IF new = <<>> THEN us ELSE Added(IF Contains(us, Head(new)) THEN us ELSE Append(us, Head(new)), Tail(new))
Removed(us, old) == SelectSeq(us, LAMBDA i : ~Contains(old, i))

\* what plugins give: those of a supported version of the interface that work
Supported == {"1.0"}
RECURSIVE Plugged(_)
Plugged(pg) == IF pg = <<>> THEN <<>>
               ELSE (IF Head(pg).v \in Supported /\ Head(pg).works THEN SelectSeq(Head(pg).ret, LAMBDA i : i # 0) ELSE <<>>) \o Plugged(Tail(pg))

\* the errors of the arguments of a new collection
ArgErrors(a) == (IF a.lp = "bad" \/ a.lz = "bad" \/ a.pk = "bad" \/ a.mk = "bad" THEN {"TypeError"} ELSE {})
                \cup (IF a.pk = "seq" /\ ~(Len(a.pr) = 3 /\ {a.pr[i] : i \in 1..Len(a.pr)} = Sections) THEN {"ValueError"} ELSE {})
NewColl(bi, a) == [pr |-> a.pr, lazy |-> a.lz = "T", bi |-> bi, pl |-> IF a.lp = "T" THEN Plugged(a.pg) ELSE <<>>, us |-> Added(<<>>, a.ms)]

\* what is used to read an object: its type string, or else its MATLAB class,
\* or else its HDF5 type; and what NumPy arrays use if there is nothing for that
Reads(M, mods, ld, c, q) ==
  LET r == IF q.ts # "" THEN Look(M, mods, ld, c, "string", q.ts)
           ELSE IF q.mc # "" THEN Look(M, mods, ld, c, "class", q.mc)
           ELSE IF q.dt # "" THEN Look(M, mods, ld, c, "type", q.dt)
           ELSE Look(M, mods, ld, c, "class", "struct")
  IN IF r.m # 0 THEN r ELSE Look(M, mods, r.ld, c, "type", "numpy.uint8")
=============================================================================

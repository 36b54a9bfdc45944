----------------------------- MODULE HSaveJudge ------------------------------
(* Judges a recorded history of savemat and loadmat in a directory.  A case   *)
(* has obs, o (options), keys (the keys of dicts of variables: [str, q]) and  *)
(* ev.  pre and post of an event are directories: [nm, o] for each file.      *)
EXTENDS HStoreJudge, HSave

FileOf(c, O, dir, nm) ==
  LET I == {i \in 1..Len(dir) : dir[i].nm = nm} IN IF I = {} THEN O[c.none] ELSE O[dir[CHOOSE i \in I : TRUE].o]
IndexOf(c, dir, nm) ==
  LET I == {i \in 1..Len(dir) : dir[i].nm = nm} IN IF I = {} THEN c.none ELSE dir[CHOOSE i \in I : TRUE].o
FileNames(dir) == {dir[i].nm : i \in 1..Len(dir)}
OthersKept(c, O, e, t) ==
  If(FileNames(e.pre) \ {t} # FileNames(e.post) \ {t}, {"save:files"})
  \cup If(\E n \in (FileNames(e.pre) \cap FileNames(e.post)) \ {t} : FileOf(c, O, e.pre, n).sha # FileOf(c, O, e.post, n).sha, {"save:other-file"})
DirKept(c, O, e, tag) ==
  If(FileNames(e.pre) # FileNames(e.post) \/ \E n \in FileNames(e.pre) \cap FileNames(e.post) : FileOf(c, O, e.pre, n).sha # FileOf(c, O, e.post, n).sha, {tag})

\* passed on to SciPy, or an ImportError
Dispatched(e) ==
  IF e.scipy THEN If(e.st # "ok" \/ e.disp.n # 1, {"dispatch:outcome"})
                  \cup If(e.disp.n = 1 /\ ~(e.disp.nm = e.nm /\ e.disp.app = e.app /\ e.disp.args /\ e.disp.kw), {"dispatch:arguments"})
                  \cup If(e.st = "ok" /\ e.op = "load" /\ ~e.disp.ret, {"dispatch:result"})
  ELSE If(~Raises(e, "ImportError"), {"dispatch:import"})

SaveEv(c, O, S, e) ==
  LET t == Target(e.nm, e.app)
      e2 == [op |-> "owrite", st |-> e.st, er |-> e.er, pre |-> IndexOf(c, e.pre, t), post |-> IndexOf(c, e.post, t), qs |-> e.qs, vals |-> e.vals,
             fresh |-> e.fresh, frefs |-> e.frefs, a |-> e.a]
      r == Step(c, O, S[t], e2)
  IN IF e.bad # "" THEN [s |-> S[t], cl |-> If(~Raises(e, e.bad), {"save:arguments"}) \cup DirKept(c, O, e, "save:modified")]
     ELSE IF Foreign(e.fmt) THEN [s |-> S[t], cl |-> Dispatched(e) \cup DirKept(c, O, e, "save:modified")]
     ELSE [s |-> [r.s EXCEPT !.soft = SoftAfter(r.s, e2)],
           cl |-> r.cl \cup OthersKept(c, O, e, t) \cup If(e.disp.n # 0, {"save:dispatched"})
                  \cup If(e.st = "ok" /\ e.qs # <<>> /\ e.used # e.coll, {"save:collection"})
                  \cup If(~e.same, {"save:argument-changed"})]

LoadEv(c, O, S, e) ==
  LET t == Target(e.nm, e.app)
      f == FileOf(c, O, e.pre, t)
      s == Session(S[t], [wr |-> FALSE, o |-> c.o[e.a.o], refs |-> e.a.refs])
      tr == f.tr
      K(i) == c.keys[i]
      before == {e.before[i] : i \in 1..Len(e.before)}
      after == {e.res[i].k : i \in 1..Len(e.res)}
      E(k) == e.res[CHOOSE i \in 1..Len(e.res) : e.res[i].k = k]
      \* the values by key: [t:"none"], [t:"unknown"] or [t:"value", v]
      L == LoadAll(tr, s)
      asked == {e.ks[i] : i \in 1..Len(e.ks)}
      Val(k) == IF e.all THEN IF K(k).str /\ \E j \in 1..Len(L) : L[j].k = K(k).q.u
                             THEN [t |-> "value", v |-> L[CHOOSE j \in 1..Len(L) : L[j].k = K(k).q.u].v] ELSE [t |-> "none"]
                ELSE IF k \in asked THEN LoadOne(tr, s, K(k).q) ELSE [t |-> "none"]
      One(k) == LET w == Val(k)
                IN CASE w.t = "none" -> IF k \in before THEN If(k \notin after \/ ~E(k).kept, {"load:kept"}) ELSE If(k \in after, {"load:extra"})
                     [] w.t = "value" -> If(k \notin after, {"load:missing"})
                                         \cup If(k \in after /\ (E(k).kept \/ ~SameValue(w.v, E(k).v)), {"load:value"})
                     [] OTHER -> {}
  IN DirKept(c, O, e, "load:modified")
     \cup IF ~f.ex \/ ~f.h5 THEN Dispatched(e)
     ELSE If(e.disp.n # 0, {"load:dispatched"})
          \cup IF e.all /\ ~LoadKnown(tr, s) THEN If(e.st = "err" /\ {e.res[i].k : i \in {j \in 1..Len(e.res) : e.res[j].kept}} # before, {"load:partial"})
          ELSE IF e.st # "ok" THEN {"load:outcome"}
          ELSE If(e.given /\ ~e.same, {"load:object"})
               \cup If(e.all /\ \E j \in 1..Len(L) : ~\E k \in 1..Len(c.keys) : K(k).str /\ K(k).q.u = L[j].k /\ k \in after, {"load:missing"})
               \cup UNION {One(k) : k \in before \cup after \cup asked}
               \cup If(e.used # (e.coll /\ ~e.options /\ \E k \in after : ~E(k).kept), {"load:collection"})

Walk1(c, O, i, S) == LET e == c.ev[i]
                     IN IF Raises(e, "Hang") THEN [s |-> S[Target(e.nm, e.app)], cl |-> {"hang"}]
                        ELSE IF e.op = "save" THEN SaveEv(c, O, S, e)
                        ELSE [s |-> S[Target(e.nm, e.app)], cl |-> LoadEv(c, O, S, e)]
RECURSIVE WalkDir(_, _, _, _, _)
WalkDir(c, O, i, S, acc) ==
  IF i > Len(c.ev) THEN acc
  ELSE LET e == c.ev[i]
           r == Walk1(c, O, i, S)
       IN WalkDir(c, O, i + 1, [S EXCEPT ![Target(e.nm, e.app)] = r.s], acc \cup {x \o "@" \o ToString(i) : x \in r.cl})

JudgeDir(c) ==
  LET O == [k \in 1..Len(c.obs) |-> [c.obs[k] EXCEPT !.tr = CanonS(@)]]
      N == {Target(c.ev[i].nm, c.ev[i].app) : i \in 1..Len(c.ev)}
      s0 == [Closed0 EXCEPT !.R = {c.refs0[j] : j \in 1..Len(c.refs0)}]
  IN WalkDir(c, O, 1, [n \in N |-> s0], {})
InvDir == Report(LAMBDA c : JudgeDir(c))
=============================================================================

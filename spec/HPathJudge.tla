----------------------------- MODULE HPathJudge ------------------------------
(* Judges recorded calls of the functions for paths.  A case has fn, the      *)
(* argument q (a path), st/er and out (text) or grp and tgt.                  *)
EXTENDS HPath, JudgeBase

Raised(c, cls) == c.st = "err" /\ \E i \in 1..Len(c.er) : c.er[i] = cls
\* text given as str or UTF-8 bytes
TextOf(q) == IF q.f = "text" THEN Good(q.u) ELSE IF q.f = "bytes" THEN Utf8Dec(q.b) ELSE Bad

JudgeText(c, F(_), name) ==
  IF c.q.f \notin {"text", "bytes"} THEN (IF Raised(c, "TypeError") THEN {} ELSE {name \o ":type"})
  ELSE LET t == TextOf(c.q)
           x == IF t.ok THEN F(t.u) ELSE Bad
       IN IF ~x.ok THEN (IF Raised(c, "ValueError") THEN {} ELSE {name \o ":accepted"})
          ELSE IF c.st # "ok" THEN {name \o ":refused"}
          ELSE IF c.out # x.u THEN {name \o ":result"} ELSE {}

JudgePath(c) ==
  LET er == PathErr(c.q)
      p == PathOf(c.q)
  IN IF er # "" THEN (IF Raised(c, er) THEN {} ELSE {"path:accepted"})
     ELSE IF c.st # "ok" THEN {"path:refused"}
     ELSE (IF Resolve(c.grp \o <<SLASH>> \o c.tgt) # p THEN {"path:object"} ELSE {})
          \cup (IF p # <<>> /\ (c.tgt # p[Len(p)] \/ Resolve(c.grp) # SubSeq(p, 1, Len(p) - 1)) THEN {"path:parts"} ELSE {})

Judge(c) == CASE c.fn = "escape"   -> JudgeText(c, LAMBDA u : Good(Escape(u)), "escape")
              [] c.fn = "unescape" -> JudgeText(c, Unescape, "unescape")
              [] c.fn = "path"     -> JudgePath(c)
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

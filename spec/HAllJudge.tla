------------------------------ MODULE HAllJudge ------------------------------
(* Judges one write and read of a value.  A case has v (value written), o     *)
(* (options), st/er (outcome of the write), nd (the object found in the file) *)
(* rok/w (outcome and value of the read), chk (what to judge).                *)
EXTENDS HDiff, HMatlab, JudgeBase

JudgeEnc(c, nd) ==
  LET x == Encode(c.v, c.o)
  IN IF x.st # c.st THEN {"outcome:" \o x.st \o "-" \o c.st}
     ELSE IF x.st = "err" THEN (IF x.er = c.er THEN {} ELSE {"error:" \o x.er \o "-" \o c.er})
     ELSE IF x.st = "none" THEN {}
     ELSE NodeDiff(x.nd, nd, FALSE)

JudgeRead(c, nd) ==
  LET x == Decode(nd, c.o)
  IN IF Odd(nd) THEN {}
     ELSE IF x.ok # c.rok THEN {"decode:outcome"}
     ELSE IF ~x.ok THEN {}
     ELSE IF Unordered(x.v) = Unordered(c.w) THEN {}
     \* columns of mixed byte orders are left as objects
     ELSE IF Same(x.v, c.w) THEN (IF c.swap THEN {} ELSE {"decode:form"})
     ELSE {"decode:value"}

\* a compound dataset tells the types of the fields also when it has no elements
FieldsKept(c, nd) == (nd.t = "D" /\ nd.d.n = "struct" /\ c.w.k = "arr" /\ c.w.da = <<>>) => c.w.d = c.v.d

JudgeRound(c, nd) ==
  IF ~c.rok THEN {"round:error"}
  ELSE IF Same(c.v, c.w) THEN (IF FieldsKept(c, nd) THEN {} ELSE {"round:fields"})
  ELSE IF c.v.k # c.w.k THEN {"round:type"}
  ELSE IF c.v.k # "arr" THEN {"round:value"}
  ELSE IF c.v.c # c.w.c THEN {"round:container"}
  ELSE IF c.v.sh # c.w.sh THEN {"round:shape"}
  ELSE IF c.v.d # c.w.d THEN {"round:dtype"}
  ELSE {"round:value"}

Judge(c) ==
  LET nd == Canon(c.nd)
  IN (IF c.chk.enc THEN JudgeEnc(c, nd) ELSE {})
     \cup (IF c.chk.round /\ c.st = "ok" THEN JudgeRound(c, nd) ELSE {})
     \cup (IF c.chk.dec /\ c.st = "ok" THEN JudgeRead(c, nd) ELSE {})
     \cup (IF c.chk.exact /\ c.st = "ok" /\ c.rok /\ c.v # c.w THEN {"exact"} ELSE {})
     \cup (IF c.chk.mat /\ c.st = "ok" THEN MatForm(nd, c.o) ELSE {})
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

----------------------------- MODULE HConvJudge ------------------------------
(* Judges recorded conversions: fn, the argument x, the length len (0: none), *)
(* st/er and the result v.                                                    *)
EXTENDS HConv, JudgeBase

\* text that is not valid raises some error
Raised(c, cls) == c.st = "err" /\ (cls = "ValueError" \/ \E i \in 1..Len(c.er) : c.er[i] = cls)
\* the padding of strings does not matter, nor does that of scalars
Bare(v) == IF v.k = "arr" THEN [v EXCEPT !.l = 0, !.da = IF v.d \in {"S", "U"} THEN [i \in 1..Len(@) |-> RStrip(@[i])] ELSE @]
           ELSE v
Want(c) == CASE c.fn = "str"     -> ToStr(c.x)
             [] c.fn = "npstr"   -> ToNpStr(c.x, c.len)
             [] c.fn = "npbytes" -> ToNpBytes(c.x, c.len)
             [] c.fn = "u16"     -> ToUnits16(c.x)
             [] c.fn = "u32"     -> ToUnits32(c.x)
Judge(c) ==
  LET w == Want(c)
      t == c.fn \o ":"
  IN IF ~w.ok THEN (IF Raised(c, w.er) THEN {} ELSE {t \o "accepted"})
     ELSE IF c.st # "ok" THEN {t \o "refused"}
     ELSE IF w.v.k = "empty" THEN (IF c.v.k = "arr" /\ c.v.d = w.v.d /\ SAll(Bare(c.v).da, LAMBDA u : u = <<>>) THEN {} ELSE {t \o "empty"})
     ELSE IF Bare(c.v) = Bare(w.v) THEN {}
     ELSE IF c.v.k # w.v.k THEN {t \o "form"}
     ELSE IF c.v.k = "arr" /\ (c.v.d # w.v.d \/ c.v.sh # w.v.sh) THEN {t \o "shape"}
     ELSE {t \o "text"}
Inv == Report(LAMBDA c : Judge(c))
=============================================================================

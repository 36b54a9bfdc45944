-------------------------------- MODULE HConc --------------------------------
(* What one operation does to an open file that threads share, if nothing     *)
(* else happens meanwhile.  A path is [g, n]: the item n of the group g, or   *)
(* the group itself if n is "", or an item of the root if g is "".  A value   *)
(* is a number: 0 is none, and a value that can't be stored.                  *)
(* The state has cl (closed), gs (the groups) and v (path to value).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ParentThere(s, p) == p.g = "" \/ p.g \in s.gs
Value(s, p) == IF p \in DOMAIN s.v THEN s.v[p] ELSE 0
Exists(s, p) == IF p.n = "" THEN p.g \in s.gs ELSE p \in DOMAIN s.v
Put(s, p, x) == [s EXCEPT !.v = (p :> x) @@ @]
Touch(s, p) == IF p.g = "" THEN s ELSE [s EXCEPT !.gs = @ \cup {p.g}]
Drop(s, p) == IF p.n = "" THEN [s EXCEPT !.gs = @ \ {p.g}, !.v = [q \in {q \in DOMAIN s.v : q.g # p.g} |-> s.v[q]]]
              ELSE [s EXCEPT !.v = [q \in DOMAIN s.v \ {p} |-> s.v[q]]]

Ok(s, out)  == [s |-> s, st |-> "ok", er |-> "", out |-> out]
Bad(s, e)   == [s |-> s, st |-> "err", er |-> e, out |-> <<>>]

\* a batch stops at the first value that can't be stored; what was before it is kept
RECURSIVE Writes(_, _, _)
Writes(s, ps, vs) ==
  IF ps = <<>> THEN Ok(s, <<>>)
  ELSE LET t == Touch(s, Head(ps))
       IN IF Head(vs) = 0 THEN Bad(t, "NotImplementedError") ELSE Writes(Put(t, Head(ps), Head(vs)), Tail(ps), Tail(vs))
Reads(s, ps) ==
  IF \E i \in 1..Len(ps) : ~ParentThere(s, ps[i]) \/ Value(s, ps[i]) = 0 THEN Bad(s, "KeyError")
  ELSE Ok(s, [i \in 1..Len(ps) |-> Value(s, ps[i])])

Apply(s, o) ==
  CASE o.op = "close"  -> Ok([s EXCEPT !.cl = TRUE], <<>>)
    [] o.op = "closed" -> Ok(s, <<IF s.cl THEN 1 ELSE 0>>)
    [] o.op = "dump"   -> Ok(s, [i \in 1..Len(o.ps) |-> Value(s, o.ps[i])])         \* looking into the file afterwards
    [] o.op = "badwrite" -> Bad(s, "ValueError")                                   \* a path that can't be written to
    [] s.cl            -> Bad(s, "OSError")
    [] o.op = "writes" -> Writes(s, o.ps, o.vs)
    [] o.op = "reads"  -> Reads(s, o.ps)
    [] o.op = "del"    -> IF Exists(s, o.ps[1]) THEN Ok(Drop(s, o.ps[1]), <<>>) ELSE Bad(s, "KeyError")
    [] o.op = "in"     -> Ok(s, <<IF Exists(s, o.ps[1]) THEN 1 ELSE 0>>)
    [] o.op = "len"    -> Ok(s, <<Cardinality(s.gs) + Cardinality({p \in DOMAIN s.v : p.g = ""})>>)
    [] o.op = "flush"  -> Ok(s, <<>>)
=============================================================================

------------------------------ MODULE HConcJudge -----------------------------
(* Looks for a sequential order of each recorded concurrent history.  Each    *)
(* operation of a case has when it was called, c, when it returned, r, and    *)
(* its result.  What was found is printed.                                    *)
EXTENDS HConc, Json, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.VCASES).cases
VARIABLES case, done, s
Ops == Cases[case].ops
First(c) == [cl |-> FALSE, gs |-> {}, v |-> [p \in {c.v[i].p : i \in 1..Len(c.v)} |-> (CHOOSE i \in 1..Len(c.v) : c.v[i].p = p)]]
Start(c) == [First(c) EXCEPT !.gs = {c.v[i].p.g : i \in 1..Len(c.v)} \ {""}, !.v = [p \in DOMAIN @ |-> c.v[@[p]].x]]
Init == case \in 1..Len(Cases) /\ done = {} /\ s = Start(Cases[case])
Fits(r, o) == r.st = o.st /\ (IF r.st = "ok" THEN r.out = o.out ELSE Contains(o.er, r.er))
Next == \E i \in (1..Len(Ops)) \ done :
          /\ \A j \in (1..Len(Ops)) \ done : ~(Ops[j].r < Ops[i].c)
          /\ LET r == Apply(s, Ops[i])
             IN Fits(r, Ops[i]) /\ s' = r.s /\ done' = done \cup {i} /\ case' = case
Inv == Cardinality(done) = Len(Ops) => PrintT("FOUND " \o ToString(case))
=============================================================================

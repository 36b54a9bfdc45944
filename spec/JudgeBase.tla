------------------------------ MODULE JudgeBase ------------------------------
(* Reads the recorded cases and walks through them; the module that EXTENDS   *)
(* this one defines Judge(case) (the set of violated clauses) and             *)
(*   Inv == Report(LAMBDA c : Judge(c))                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Input == JsonDeserialize(IOEnv.VCASES)
Cases == Input.cases
Skip  == {Input.skip[j] : j \in 1..Len(Input.skip)}
Stride == 16
VARIABLE case
Init == case = 0
Next == \/ case = 0 /\ case' \in 1..(IF Len(Cases) < Stride THEN Len(Cases) ELSE Stride)
        \/ case > 0 /\ case + Stride <= Len(Cases) /\ case' = case + Stride
Report(J(_)) ==
  \/ case = 0 \/ case \in Skip
  \/ LET f == J(Cases[case])
     IN \/ f = {}
        \/ PrintT("VERDICT " \o ToString(case) \o FoldSet(LAMBDA a, b : b \o " " \o a, "", f))
=============================================================================

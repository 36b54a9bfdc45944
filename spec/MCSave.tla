-------------------------------- MODULE MCSave -------------------------------
(* savemat and loadmat in a directory against a plain map from files to maps  *)
(* of variables, for all histories of up to Depth saves.                      *)
EXTENDS HSave
CONSTANTS Depth

Names0 == {<<120>>, <<120>> \o Ext, <<121>> \o Ext \o Ext}      \* x, x.mat, y.mat.mat
Keys0 == {<<97>>, <<98>>, <<46, 99>>}                           \* a, b, .c
Values0 == {PyStr(<<97>>), [k |-> "int", x |-> Hex16(7), b |-> <<>>], [k |-> "list", os |-> <<[k |-> "none"], PyStr(<<98>>)>>]}
Mat == [spm |-> TRUE, mc |-> TRUE, act |-> "error", dele |-> TRUE, strct |-> TRUE, at2d |-> TRUE, b16 |-> TRUE, s16 |-> TRUE,
        bu8 |-> TRUE, rev |-> TRUE, ssfe |-> TRUE, sd |-> FALSE, cn |-> <<<<114, 101, 97, 108>>, <<105, 109, 97, 103>>>>, oned |-> "row",
        kn |-> <<107>>, vn |-> <<118>>, comp |-> TRUE, thr |-> 8, alg |-> "gzip", lv |-> 7, shf |-> TRUE, cf32 |-> TRUE, uf32 |-> FALSE]
S0 == [open |-> TRUE, wr |-> FALSE, o |-> Mat, refs |-> <<<<35>>>>, R |-> {<<<<35>>>>}, soft |-> {}]
Targets == {Target(n, a) : n \in Names0, a \in BOOLEAN}

VARIABLES dir, want, n
Q(k) == [f |-> "text", u |-> Escape(k)]
\* the objects of references are kept in place here; MCStore is about the Group they are in
Init == dir = [t \in Targets |-> Missing] /\ want = [t \in Targets |-> <<>>] /\ n = 0
Save(nm, app, trunc, k, v) ==
  LET t == Target(nm, app)
      old == IF trunc \/ dir[t].t = "missing" THEN EmptyGroup ELSE dir[t]
      w == WriteFrom(old, <<PathOf(Q(k))>>, <<v>>, Mat, 0)
      kept == IF trunc THEN <<>> ELSE want[t]
  IN /\ w.er = ""
     /\ dir' = [dir EXCEPT ![t] = w.v]
     /\ want' = [want EXCEPT ![t] = Append(SelectSeq(kept, LAMBDA x : x.k # k), [k |-> k, v |-> v])]
Next == n < Depth /\ n' = n + 1
        /\ \E nm \in Names0, app \in BOOLEAN, trunc \in BOOLEAN, k \in Keys0, v \in Values0 : Save(nm, app, trunc, k, v)

Ending == \A nm \in Names0 : /\ EndsWith(Target(nm, TRUE), Ext) /\ Target(nm, FALSE) = nm
                             /\ Target(Target(nm, TRUE), TRUE) = Target(nm, TRUE)
\* loading gives what was saved, no more and no less
ValueAt(nd) == LET d == Decode(nd, Mat) IN IF d.ok THEN d.v ELSE NoV
Loaded == \A t \in Targets : dir[t].t # "missing" =>
            LET ns == TopNames(dir[t], S0)
            IN /\ Len(ns) = Len(want[t])
               /\ \A i \in 1..Len(want[t]) :
                    /\ \E j \in 1..Len(ns) : Unescape(ns[j]) = Good(want[t][i].k)
                    /\ Same(want[t][i].v, ValueAt(Node(dir[t], PathOf(Q(want[t][i].k)))))
\* a file that was never saved to is not there
Absent == \A t \in Targets : want[t] = <<>> <=> dir[t].t = "missing"
=============================================================================

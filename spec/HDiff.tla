-------------------------------- MODULE HDiff --------------------------------
(* Comparison of an expected HDF5 object with one found in a file: the set of *)
(* clauses that differ.  In both, at is a set of attributes.                  *)
EXTENDS HData

\* raw observations have sequences of attributes
RECURSIVE Canon(_)
Canon(nd) ==
  IF nd.t = "D"
  THEN [nd EXCEPT !.at = {@[i] : i \in 1..Len(@)},
                  !.da = IF nd.d.n = "ref" THEN SMap(@, LAMBDA e : [rf |-> Canon(e.rf)]) ELSE @]
  ELSE IF nd.t = "G"
  THEN [nd EXCEPT !.at = {@[i] : i \in 1..Len(@)}, !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> Canon(x.nd)])]
  ELSE IF nd.t = "outside" THEN [t |-> "outside"]
  ELSE [t |-> nd.t]

AttrDiff(e, f) ==
  {"attr-missing:" \o n : n \in AttrNames(e) \ AttrNames(f)}
  \cup {"attr-extra:" \o n : n \in AttrNames(f) \ AttrNames(e)}
  \cup {"attr-value:" \o n : n \in {m \in AttrNames(e) \cap AttrNames(f) : AttrOf(e, m) # AttrOf(f, m)}}

FilterDiff(e, f) == (IF e.c # f.c THEN {"filter:compression"} ELSE {})
                    \cup (IF e.lv # f.lv THEN {"filter:level"} ELSE {})
                    \cup (IF e.sf # f.sf THEN {"filter:shuffle"} ELSE {})
                    \cup (IF e.f32 # f.f32 THEN {"filter:fletcher32"} ELSE {})

Names(g) == {g.it[i].nm : i \in 1..Len(g.it)}
Child(g, n) == (CHOOSE x \in {g.it[i] : i \in 1..Len(g.it)} : x.nm = n).nd

RECURSIVE NodeDiff(_, _, _)
\* extra: the items of groups the expected object does not have are allowed
NodeDiff(e, f, extra) ==
  IF f.t = "outside" THEN {"ref:outside"}
  ELSE IF e.t # f.t THEN {"kind"}
  ELSE IF e.t = "G"
  THEN AttrDiff(e.at, f.at)
       \cup (IF Names(e) \ Names(f) # {} THEN {"items:missing"} ELSE {})
       \cup (IF ~extra /\ Names(f) \ Names(e) # {} THEN {"items:extra"} ELSE {})
       \cup UNION {NodeDiff(Child(e, n), Child(f, n), extra) : n \in Names(e) \cap Names(f)}
  ELSE IF e.t = "D"
  THEN AttrDiff(e.at, f.at) \cup FilterDiff(e.fl, f.fl)
       \cup (IF e.d # f.d THEN {"dtype"}
             ELSE IF e.sh # f.sh THEN {"shape"}
             ELSE IF Len(e.da) # Len(f.da) THEN {"length"}
             ELSE IF e.d.n = "ref" THEN UNION {NodeDiff(e.da[i].rf, f.da[i].rf, extra) : i \in 1..Len(e.da)}
             ELSE IF e.da # f.da THEN {"data"} ELSE {})
  ELSE {}
=============================================================================

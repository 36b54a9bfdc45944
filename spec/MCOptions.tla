------------------------------ MODULE MCOptions ------------------------------
(* All values an Options can get by any sequence of assignments from small    *)
(* sets of values, and the laws of every assignment.                          *)
EXTENDS HOptions
CONSTANTS Focus          \* the options assigned to
VARIABLES s, last        \* the Options, and the last assignment

BoolVals == {T, F, I(1), [k |-> "other"]}
Vals(o) == CASE o \in Bools -> BoolVals
             [] o = "complex_names" -> {RealImag, RI, [k |-> "pair", a |-> <<114>>, b |-> <<105, 109, 97, 103>>], S(<<114, 105>>), [k |-> "other"]}
             [] o = "group_for_references" -> {S(Refs), S(<<47>> \o Refs \o <<47>>), S(<<47, 120>>), S(<<120>>), S(<<47>>), S(<<47, 46, 46>>), F}
             [] o = "compression_algorithm" -> {S(Gzip), S(Lzf), S(Szip), S(<<120>>), F}
             [] o = "action_for_matlab_incompatible" -> {S(Error), S(Ignore), S(Discard), S(<<120>>), F}
             [] o = "oned_as" -> {S(Row), S(Column), S(<<120>>), F}
             [] o = "compress_size_threshold" -> {I(0), I(5), I(-1), T, S(Row)}
             [] o = "gzip_compression_level" -> {I(0), I(9), I(10), I(-1), T, S(Row)}
             [] o = "marshaller_collection" -> {[k |-> "coll", i |-> 1], [k |-> "coll", i |-> 2], F}
             [] OTHER -> {S(Keys), S(Row), F}
Kws == {<<>>} \cup UNION {{(o :> v) : v \in Vals(o)} : o \in Focus}
       \cup {(o :> v) @@ ("matlab_compatible" :> m) : o \in {"store_shape_for_empty", "complex_names"} \cap Focus, v \in {F, T, RealImag}, m \in {F, [k |-> "other"]}}
       \cup {[o \in Governed \cup {"matlab_compatible"} |-> IF o = "matlab_compatible" THEN m ELSE IF o = p THEN v ELSE Mat[o]]
             : m \in {T, F, [k |-> "other"]}, p \in Governed, v \in {F, T, RI}}
None == [o |-> "", v |-> F, b |-> [x \in {} |-> x]]
Init == \E kw \in Kws : s = New(kw, 1) /\ last = None
Next == \E o \in Focus : \E v \in Vals(o) : s' = Set(s, o, v) /\ last' = [o |-> o, v |-> v, b |-> s]

Always  == Coherent(s) /\ \A o \in Names : Valid(o, s[o]) /\ Store(o, s[o]) = s[o]
\* an assignment sets the value if it is a valid one, changes nothing unrelated ...
Takes   == last.o # "" => s[last.o] = (IF Valid(last.o, last.v) THEN Store(last.o, last.v) ELSE last.b[last.o])
Alone   == (last.o # "" /\ ~(last.o = "matlab_compatible" /\ last.v = T)) =>
             \A o \in Names \ {last.o, "matlab_compatible"} : s[o] = last.b[o]
\* ... and turns MATLAB compatibility on or off exactly when it has to
Turns   == last.o # "" =>
             s.matlab_compatible = (IF last.o = "matlab_compatible" /\ last.v.k = "bool" THEN last.v
                                    ELSE IF last.b.matlab_compatible = T /\ Coherent([s EXCEPT !.matlab_compatible = T]) THEN T ELSE F)
View == s
=============================================================================

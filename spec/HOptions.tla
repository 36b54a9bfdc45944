------------------------------- MODULE HOptions ------------------------------
(* The options.  A value is [k:"bool", b], [k:"int", n], [k:"str", u],        *)
(* [k:"pair", a, b], [k:"coll", i] or [k:"other"]; the state of an Options    *)
(* is the value of each option.                                               *)
EXTENDS HPath

T == [k |-> "bool", b |-> TRUE]
F == [k |-> "bool", b |-> FALSE]
S(u) == [k |-> "str", u |-> u]
I(n) == [k |-> "int", n |-> n]

\* texts as code points
Refs    == <<47, 35, 114, 101, 102, 115, 35>>
RealImag == [k |-> "pair", a |-> <<114, 101, 97, 108>>, b |-> <<105, 109, 97, 103>>]
RI      == [k |-> "pair", a |-> <<114>>, b |-> <<105>>]
Gzip    == <<103, 122, 105, 112>>
Lzf     == <<108, 122, 102>>
Szip    == <<115, 122, 105, 112>>
Error   == <<101, 114, 114, 111, 114>>
Ignore  == <<105, 103, 110, 111, 114, 101>>
Discard == <<100, 105, 115, 99, 97, 114, 100>>
Row     == <<114, 111, 119>>
Column  == <<99, 111, 108, 117, 109, 110>>
Keys    == <<107, 101, 121, 115>>
Values  == <<118, 97, 108, 117, 101, 115>>

BoolGoverned == {"delete_unused_variables", "structured_numpy_ndarray_as_struct", "make_atleast_2d", "convert_numpy_bytes_to_utf16",
                 "convert_numpy_str_to_utf16", "convert_bools_to_uint8", "reverse_dimension_order", "store_shape_for_empty"}
Governed == BoolGoverned \cup {"complex_names", "group_for_references", "compression_algorithm"}
Bools == BoolGoverned \cup {"matlab_compatible", "store_python_metadata", "structs_as_dicts", "compress", "shuffle_filter",
                            "compressed_fletcher32_filter", "uncompressed_fletcher32_filter"}
Texts == {"dict_like_keys_name", "dict_like_values_name"}
Others == {"action_for_matlab_incompatible", "oned_as", "compress_size_threshold", "gzip_compression_level", "marshaller_collection"}
Names == Bools \cup Governed \cup Texts \cup Others

\* what MATLAB compatibility governs, and to what
Mat == [o \in Governed |-> CASE o = "complex_names" -> RealImag
                             [] o = "group_for_references" -> S(Refs)
                             [] o = "compression_algorithm" -> S(Gzip)
                             [] OTHER -> T]
Coherent(s) == s.matlab_compatible = T => \A o \in Governed : s[o] = Mat[o]

\* the values of a new Options for what is not given
Default(c) ==
  [o \in Names |->
     CASE o \in {"store_python_metadata", "matlab_compatible", "compress", "shuffle_filter", "compressed_fletcher32_filter"} -> T
       [] o = "action_for_matlab_incompatible" -> S(Error)
       [] o = "complex_names" -> RI
       [] o = "group_for_references" -> S(Refs)
       [] o = "oned_as" -> S(Row)
       [] o = "dict_like_keys_name" -> S(Keys)
       [] o = "dict_like_values_name" -> S(Values)
       [] o = "compress_size_threshold" -> I(16384)
       [] o = "compression_algorithm" -> S(Gzip)
       [] o = "gzip_compression_level" -> I(7)
       [] o = "marshaller_collection" -> [k |-> "coll", i |-> c]
       [] OTHER -> F]

AbsPath(u) == Len(u) > 0 /\ u[1] = SLASH
Num(v) == IF v.k = "bool" THEN (IF v.b THEN 1 ELSE 0) ELSE v.n
Valid(o, v) ==
  CASE o \in Bools -> v.k = "bool"
    [] o \in Texts -> v.k = "str"
    [] o = "complex_names" -> v.k = "pair"
    [] o = "group_for_references" -> v.k = "str" /\ AbsPath(v.u) /\ Resolve(v.u) # <<>>
    [] o = "compression_algorithm" -> v.k = "str" /\ v.u \in {Gzip, Lzf, Szip}
    [] o = "action_for_matlab_incompatible" -> v.k = "str" /\ v.u \in {Error, Ignore, Discard}
    [] o = "oned_as" -> v.k = "str" /\ v.u \in {Row, Column}
    [] o = "compress_size_threshold" -> v.k \in {"int", "bool"} /\ Num(v) >= 0
    [] o = "gzip_compression_level" -> v.k \in {"int", "bool"} /\ Num(v) >= 0 /\ Num(v) <= 9
    [] o = "marshaller_collection" -> v.k = "coll"
Store(o, v) == CASE o = "group_for_references" -> S(<<SLASH>> \o JoinSlash(Resolve(v.u)))
                 [] o \in {"compress_size_threshold", "gzip_compression_level"} -> I(Num(v))
                 [] OTHER -> v

\* setting an option
Set(s, o, v) ==
  LET t == IF Valid(o, v) THEN [s EXCEPT ![o] = Store(o, v)] ELSE s
  IN IF o = "matlab_compatible" THEN (IF v = T THEN [p \in Names |-> IF p \in Governed THEN Mat[p] ELSE t[p]] ELSE t)
     ELSE IF o \in Governed /\ t[o] # Mat[o] THEN [t EXCEPT !.matlab_compatible = F]
     ELSE t

\* a new Options: kw maps some options to values; MATLAB compatibility goes last
New(kw, c) ==
  LET s == [o \in Names |-> IF o \in DOMAIN kw /\ Valid(o, kw[o]) THEN Store(o, kw[o]) ELSE Default(c)[o]]
      want == IF "matlab_compatible" \in DOMAIN kw THEN kw["matlab_compatible"] ELSE T
  IN IF want.k = "bool" THEN Set([s EXCEPT !.matlab_compatible = F], "matlab_compatible", want)
     ELSE [s EXCEPT !.matlab_compatible = [k |-> "bool", b |-> \A o \in Governed : s[o] = Mat[o]]]
=============================================================================

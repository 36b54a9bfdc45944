------------------------------- MODULE HMatlab -------------------------------
(* The form MATLAB v7.3 expects of the objects in a file, stated on the       *)
(* objects alone (not on the values stored): MatForm(node) is the set of      *)
(* clauses an object violates.                                                *)
EXTENDS HRead

IntClasses == {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"}
Classes == IntClasses \cup {"logical", "char", "cell", "struct", "single", "double", "canonical empty"}

Cl(cond, name) == IF cond THEN {} ELSE {"matlab:" \o name}
PairOfReal(d, f) == PairOf(d, <<114,101,97,108>>, <<105,109,97,103>>) /\ d.f[1].d.n = f
Decode8(nd) == IF HasAttr(nd.at, "MATLAB_int_decode") /\ "xs" \in DOMAIN AttrOf(nd.at, "MATLAB_int_decode")
               THEN HexNat(AttrOf(nd.at, "MATLAB_int_decode").xs[1]) ELSE 0
UnitsOf(nd) == SMap(nd.da, LAMBDA e : HexNat(e.x))

EmptyForm(nd) ==
  LET dims == SMap(nd.da, LAMBDA e : HexNat(e.x))
  IN Cl(nd.d.n \in {"uint64"} /\ Len(nd.sh) = 1 /\ nd.sh[1] >= 2, "empty-shape")
     \cup Cl(nd.d.n = "uint64" /\ Prod(dims) = 0, "empty-dims")

RECURSIVE MatForm(_, _)
\* an element of a cell or field: also says where it is
Inner(nd, o) ==
  IF nd.t = "outside" THEN {"matlab:ref-outside"}
  ELSE IF nd.t = "null" THEN {"matlab:ref-null"}
  ELSE IF nd.t \notin {"D", "G"} THEN {"matlab:ref-bad"}
  ELSE IF StrAttr(nd.at, "MATLAB_class") = "canonical empty"
  THEN Cl(nd.t = "D" /\ nd.d.n = "uint64" /\ nd.sh = <<2>> /\ SAll(nd.da, LAMBDA e : AllZero(e.x))
          /\ IsOne(nd.at, "MATLAB_empty"), "canonical-empty")
       \cup Cl(o.act = "discard", "canonical-empty-unasked")
  ELSE Cl(StrAttr(nd.at, "H5PATH") = "@parent", "H5PATH") \cup MatForm(nd, o)

\* a field of a structured array of several elements: references and no class
ElementsForm(nd, o) ==
  Cl(StrAttr(nd.at, "H5PATH") = "@parent", "H5PATH")
  \cup UNION {Inner(nd.da[i].rf, o) : i \in 1..Len(nd.da)}

Field(nd, o) == IF nd.t = "D" /\ nd.d.n = "ref" /\ ~HasAttr(nd.at, "MATLAB_class")
                   THEN ElementsForm(nd, o) ELSE Inner(nd, o)

MatForm(nd, o) ==
  LET c == StrAttr(nd.at, "MATLAB_class")
      empty == HasAttr(nd.at, "MATLAB_empty")
  IN IF c = "" THEN Cl(o.act = "ignore", "class-missing")
     ELSE IF nd.t = "G"
     THEN Cl(c = "struct", "group-class")
          \cup (IF HasAttr(nd.at, "MATLAB_fields")
                THEN LET f == VsAttr(nd.at, "MATLAB_fields")
                     IN Cl(\A i, j \in 1..Len(f) : i # j => f[i] # f[j], "fields-distinct")
                        \cup Cl({nd.it[i].nm : i \in 1..Len(nd.it)} \subseteq {f[i] : i \in 1..Len(f)}, "fields-incomplete")
                        \cup Cl(o.act = "discard" \/ {nd.it[i].nm : i \in 1..Len(nd.it)} = {f[i] : i \in 1..Len(f)}, "fields-extra")
                        \cup Cl(\A i \in 1..Len(f) : AsciiName(f[i]), "fields-ascii")
                ELSE Cl(nd.it = <<>> \/ ~(\A i \in 1..Len(nd.it) : AsciiName(nd.it[i].nm))
                        \/ {nd.it[i].nm : i \in 1..Len(nd.it)} \subseteq {Escape(o.kn), Escape(o.vn)}, "fields-missing"))
          \cup UNION {Field(nd.it[i].nd, o) : i \in 1..Len(nd.it)}
     ELSE Cl(c \in Classes, "class-unknown")
          \cup (IF empty THEN EmptyForm(nd) ELSE Cl(Len(nd.sh) >= 2, "dimensions"))
          \cup (IF empty THEN {}
                ELSE CASE c = "logical" -> Cl(nd.d.n = "uint8", "logical-type")
                       [] c = "char" -> Cl(nd.d.n \in {"uint16", "uint32", "bytes"}, "char-type")
                                        \cup Cl(nd.d.n = "uint32" => SAny(UnitsOf(nd), LAMBDA u : u >= 65536 \/ IsSurr(u)), "char-needless-32")
                                        \cup Cl(nd.d.n = "bytes" => SAny(nd.da, LAMBDA e : SAny(e.b, LAMBDA b : b >= 128)), "char-needless-bytes")
                                        \cup Cl(nd.d.n = "uint16" => ~SAny(UnitsOf(nd), IsSurr), "char-doublet")
                       [] c = "single" -> Cl(nd.d.n = "float32" \/ PairOfReal(nd.d, "float32"), "single-type")
                       [] c = "double" -> Cl(nd.d.n = "float64" \/ PairOfReal(nd.d, "float64"), "double-type")
                       [] c = "cell" -> Cl(nd.d.n = "ref", "cell-type")
                       [] c = "struct" -> Cl(FALSE, "struct-not-group")
                       [] OTHER -> Cl(nd.d.n = c, "class-type"))
          \cup (IF c \in {"char", "logical"}
                THEN Cl(Decode8(nd) = IF nd.d.n = "bytes" THEN 1 ELSE Item(nd.d), "int-decode")
                ELSE Cl(~HasAttr(nd.at, "MATLAB_int_decode"), "int-decode-unasked"))
          \cup (IF nd.d.n = "ref" THEN UNION {Inner(nd.da[i].rf, o) : i \in 1..Len(nd.da)} ELSE {})
=============================================================================

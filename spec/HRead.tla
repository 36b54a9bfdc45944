-------------------------------- MODULE HRead --------------------------------
(* What reading an HDF5 object gives: Decode(node, options).  The Python type *)
(* decides if it is given, then the MATLAB class, then the HDF5 type.         *)
(* Nodes have sets of attributes (see HDiff!Canon for observed ones).         *)
EXTENDS HData

OkV(v) == [ok |-> TRUE, v |-> v]
NoV == [ok |-> FALSE, v |-> [k |-> "bad"]]

(* ------------------------------ small helpers ----------------------------- *)
HexOf(s, i) == LET c == SubSeq(s, i, i)
               IN CHOOSE n \in 0..15 : HexDigit[n + 1] = c
RECURSIVE HexNatFrom(_, _, _)
HexNatFrom(s, i, acc) == IF i > Len(s) THEN acc
                         ELSE IF acc > 16777215 THEN 268435456      \* saturate: larger than anything used
                         ELSE HexNatFrom(s, i + 1, acc * 16 + HexOf(s, i))
HexNat(s) == HexNatFrom(s, 1, 0)
AllZero(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) = "0"

Dims(av) == SMap(av.xs, HexNat)
IsOne(at, nm) == HasAttr(at, nm) /\ "xs" \in DOMAIN AttrOf(at, nm)
                 /\ Len(AttrOf(at, nm).xs) = 1 /\ HexNat(AttrOf(at, nm).xs[1]) = 1
VsAttr(at, nm) == IF HasAttr(at, nm) /\ "vs" \in DOMAIN AttrOf(at, nm) THEN AttrOf(at, nm).vs ELSE <<>>

Zeros(c, d, sh) == Arr(c, d, sh, Rep(ZeroEl(d), Prod(sh)))
T(a) == Arr(a.c, a.d, Rev(a.sh), TransDa(a.sh, a.da))

(* h5py gives pairs named r and i as complex numbers *)
PairOf(d, a, b) == /\ d.n = "struct" /\ Len(d.f) = 2
                   /\ d.f[1].nm = a /\ d.f[2].nm = b
                   /\ d.f[1].sh = <<>> /\ d.f[2].sh = <<>>
                   /\ d.f[1].d = d.f[2].d
                   /\ d.f[1].d.n \in {"float32", "float64"}
ComplexName(d) == IF d.f[1].d.n = "float32" THEN "complex64" ELSE "complex128"
RECURSIVE BackType(_)
BackType(d) == IF PairOf(d, <<114>>, <<105>>) THEN DT(ComplexName(d))
               ELSE IF d.n = "struct"
               THEN [d EXCEPT !.f = [i \in 1..Len(d.f) |-> [d.f[i] EXCEPT !.d = BackType(@)]]]
               ELSE d
RECURSIVE BackEl(_, _)
BackEl(d, e) == IF PairOf(d, <<114>>, <<105>>) THEN [re |-> e.r[1][1].x, im |-> e.r[2][1].x]
                ELSE IF d.n = "struct"
                THEN [r |-> [i \in 1..Len(d.f) |-> [j \in 1..Len(e.r[i]) |-> BackEl(d.f[i].d, e.r[i][j])]]]
                ELSE e

(* ---------------------------- complex numbers ----------------------------- *)
LowerAscii(u) == SMap(u, LAMBDA c : IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c)
RealNames == {<<114>>, <<114,101>>, <<114,101,97,108>>}
ImagNames == {<<105>>, <<105,109>>, <<105,109,97,103>>, <<105,109,97,103,105,110,97,114,121>>}
\* the hex of a number as a float of 4 or 8 bytes; of integers only those below 2^23 (the others are not used)
Double(n) == n \in {"float64", "int32", "uint32", "int64", "uint64"}
Numeric == {"float16", "float32", "float64", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
FloatHex(neg, e, m, w) ==     \* the exponent (0 for 1.0, -200 for zero, 200 for inf and nan) and 23 bits
  IF w THEN LET x == (IF neg THEN 2048 ELSE 0) + (IF e = -200 THEN 0 ELSE IF e = 200 THEN 2047 ELSE e + 1023)
            IN SubSeq(Hex4(x), 2, 4) \o SubSeq(Hex8(2 * m), 3, 8) \o "0000000"
  ELSE LET x == (IF neg THEN 256 ELSE 0) + (IF e = -200 THEN 0 ELSE IF e = 200 THEN 255 ELSE e + 127)
       IN Hex4(x * 128 + m \div 65536) \o Hex4(m % 65536)
NatFloat(neg, n, w) == IF n = 0 THEN FloatHex(FALSE, -200, 0, w)
                       ELSE LET k == Log2(n) IN FloatHex(neg, k, (n - 2^k) * 2^(23 - k), w)
AsFloat(n, x, w) ==
  LET nat == HexNat(x)
      top == HexNat(SubSeq(x, 1, 4))
      neg == HexOf(x, 1) >= 8
  IN CASE n = (IF w THEN "float64" ELSE "float32") -> x
       [] n = "float32" -> LET e == (top % 32768) \div 128
                               m == (top % 128) * 65536 + HexNat(SubSeq(x, 5, 8))
                           IN FloatHex(neg, IF e = 0 THEN -200 ELSE IF e = 255 THEN 200 ELSE e - 127, m, w)
       [] n = "float16" -> LET e == (top % 32768) \div 1024
                           IN FloatHex(neg, IF e = 0 THEN -200 ELSE IF e = 31 THEN 200 ELSE e - 15, (top % 1024) * 8192, w)
       [] n \in {"int8", "int16"} /\ neg -> NatFloat(TRUE, (IF n = "int8" THEN 256 ELSE 65536) - nat, w)
       [] n \in {"int32", "int64"} /\ neg -> NatFloat(TRUE, 65536 - HexNat(SubSeq(x, Len(x) - 3, Len(x))), w)
       [] OTHER -> NatFloat(FALSE, nat, w)
DecodeComplex(a, cn) ==
  IF a.d.n # "struct" \/ Len(a.d.f) # 2 THEN a
  ELSE LET n1 == a.d.f[1].nm n2 == a.d.f[2].nm
           exact == {n1, n2} = {cn[1], cn[2]}
           re == IF exact THEN (IF n1 = cn[1] THEN 1 ELSE 2)
                 ELSE IF LowerAscii(n2) \in RealNames THEN 2 ELSE IF LowerAscii(n1) \in RealNames THEN 1 ELSE 0
           im == IF exact THEN 3 - re
                 ELSE IF LowerAscii(n2) \in ImagNames THEN 2 ELSE IF LowerAscii(n1) \in ImagNames THEN 1 ELSE 0
           w == Double(a.d.f[1].d.n) \/ Double(a.d.f[2].d.n)
       IN IF re = 0 \/ im = 0 \/ re = im
             \/ a.d.f[1].d.n \notin Numeric \/ a.d.f[2].d.n \notin Numeric \/ a.d.f[1].sh # <<>> \/ a.d.f[2].sh # <<>> THEN a
          ELSE [a EXCEPT !.d = DT(IF w THEN "complex128" ELSE "complex64"),
                         !.da = SMap(@, LAMBDA e : [re |-> AsFloat(a.d.f[re].d.n, e.r[re][1].x, w), im |-> AsFloat(a.d.f[im].d.n, e.r[im][1].x, w)])]

(* --------------------------------- text ----------------------------------- *)
IntKinds == {"uint8", "uint16", "uint32"}
\* text made of the code units of one string; n is the type of the units
TextOf(n, w) == IF n = "uint8" THEN Utf8Dec(RStrip(w))
                ELSE IF n = "uint16" THEN Utf16Dec(w)
                ELSE IF SAll(w, LAMBDA c : c <= MaxCP) THEN Good(w) ELSE Bad
\* every string is L code units of the last dimension (all of it if L = 0)
ConvToStr(a, L) ==
  IF a.d.n = "str" THEN OkV(a)
  ELSE IF a.d.n = "bytes"
  THEN LET ts == SMap(a.da, LAMBDA e : Utf8Dec(RStrip(e.b)))
           m == MaxOf({1} \cup {Len(ts[i].u) : i \in 1..Len(ts)})
       IN IF SAll(ts, LAMBDA t : t.ok)
          THEN OkV(Arr(a.c, DTL("str", m), a.sh, SMap(ts, LAMBDA t : [u |-> PadTo(t.u, m, 0)])))
          ELSE NoV
  ELSE IF a.d.n \notin IntKinds THEN NoV
  ELSE LET w == SMap(a.da, LAMBDA e : HexNat(e.x))
           l == IF L # 0 THEN L ELSE IF a.sh = <<>> THEN 1 ELSE a.sh[Len(a.sh)]
           c == IF a.sh = <<>> THEN "scalar" ELSE a.c
       IN IF Prod(a.sh) = 0 THEN OkV(Zeros(c, DTL("str", 1), a.sh))
          ELSE IF a.sh # <<>> /\ a.sh[Len(a.sh)] % l # 0 THEN NoV
          ELSE LET sh == IF a.sh = <<>> THEN <<>> ELSE SetLast(a.sh, a.sh[Len(a.sh)] \div l)
                   ch == Chunk(w, l)
                   plain == a.d.n = "uint32" \/ (a.d.n = "uint16" /\ ~SAny(w, IsSurr))
                   ts == SMap(ch, LAMBDA x : IF plain THEN (IF a.d.n = "uint32" THEN TextOf("uint32", x) ELSE Good(x))
                                             ELSE TextOf(a.d.n, x))
                   m == IF plain THEN l ELSE MaxOf({1} \cup {Len(ts[i].u) : i \in 1..Len(ts)})
               IN IF SAll(ts, LAMBDA t : t.ok)
                  THEN OkV(Arr(c, DTL("str", m), sh, SMap(ts, LAMBDA t : [u |-> PadTo(t.u, m, 0)])))
                  ELSE NoV
ConvToBytes(a, L) ==
  IF a.d.n = "bytes" THEN OkV(a)
  ELSE IF a.d.n \notin IntKinds THEN NoV
  ELSE LET w == SMap(a.da, LAMBDA e : HexNat(e.x))
           l == IF L # 0 THEN L ELSE IF a.sh = <<>> THEN 1 ELSE a.sh[Len(a.sh)]
           sh == IF a.sh = <<>> THEN <<1>> ELSE a.sh
       IN IF sh[Len(sh)] % l # 0 THEN NoV
          ELSE LET ch == Chunk(w, l)
                   ts == SMap(ch, LAMBDA x : IF a.d.n = "uint8" THEN Good(x)
                                             ELSE LET t == TextOf(a.d.n, x) IN IF t.ok THEN Good(Utf8Enc(t.u)) ELSE Bad)
               IN IF SAll(ts, LAMBDA t : t.ok)
                  THEN OkV(Arr("ndarray", DTL("bytes", l), SetLast(sh, sh[Len(sh)] \div l),
                               SMap(ts, LAMBDA t : [b |-> PadTo(SubSeq(t.u, 1, IF Len(t.u) > l THEN l ELSE Len(t.u)), l, 0)])))
                  ELSE NoV

(* -------------------------- structured arrays ----------------------------- *)
\* fs: names and object arrays of one shape; the type of a field is that of its
\* elements if these are NumPy values of one type and shape
StructField(nm, v) ==
  LET els == SMap(v.da, LAMBDA e : e.o)
      np == Len(els) > 0 /\ els[1].k = "arr"
      same == /\ np
              /\ ~(els[1].d.n \in {"bytes", "str"} /\ els[1].d.l = 0)
              /\ \A i \in 1..Len(els) : els[i].k = "arr" /\ els[i].d = els[1].d /\ els[i].sh = els[1].sh
  IN IF same /\ els[1].d.n = "object" /\ els[1].sh = <<>>
     THEN [f |-> Fld(nm, DT("object")), e |-> SMap(els, LAMBDA x : <<[o |-> x]>>)]
     ELSE IF same THEN [f |-> [nm |-> nm, d |-> els[1].d, sh |-> els[1].sh], e |-> SMap(els, LAMBDA x : x.da)]
     ELSE [f |-> Fld(nm, DT("object")), e |-> SMap(v.da, LAMBDA x : <<x>>)]
\* a zero dimensional array becomes a scalar when it is the only thing assigned
Unbox(v) == IF v.k = "arr" /\ v.sh = <<>> /\ v.c = "ndarray" /\ v.d.n \notin {"struct", "object"} THEN [v EXCEPT !.c = "scalar"] ELSE v

MakeStruct(fs) ==
  LET sh == IF fs = <<>> THEN <<1>> ELSE fs[Len(fs)].v.sh
      cols == [i \in 1..Len(fs) |-> StructField(fs[i].nm, fs[i].v)]
  IN Arr("ndarray", DTS([i \in 1..Len(fs) |-> cols[i].f]), sh,
         [j \in 1..Prod(sh) |-> [r |-> [i \in 1..Len(fs) |-> cols[i].e[j]]]])

(* ------------------------------- decoding --------------------------------- *)
RECURSIVE Decode(_, _)
RECURSIVE NumpyRead(_, _)
RECURSIVE RawDataset(_, _)
RECURSIVE GroupItems(_, _)

RawDataset(nd, o) ==
  IF nd.d.n = "ref"
  THEN LET rs == SMap(nd.da, LAMBDA e : Decode(e.rf, o))
       IN IF SAll(rs, LAMBDA r : r.ok)
          THEN OkV(Arr("ndarray", DT("object"), nd.sh, SMap(rs, LAMBDA r : [o |-> r.v]))) ELSE NoV
  ELSE IF nd.d.n = "vlen"
  THEN OkV(Arr("ndarray", DT("object"), nd.sh, SMap(nd.da, LAMBDA e : [o |-> [k |-> "pybytes", b |-> e.b]])))
  ELSE OkV(Arr("ndarray", BackType(nd.d), nd.sh, SMap(nd.da, LAMBDA e : BackEl(nd.d, e))))

\* the readable items of a group: names as stored, values
GroupItems(nd, o) ==
  LET rs == [i \in 1..Len(nd.it) |-> [nm |-> nd.it[i].nm, r |-> Decode(nd.it[i].nd, o), nd |-> nd.it[i].nd]]
  IN SelectSeq(rs, LAMBDA x : x.r.ok /\ Unescape(x.nm).ok)

KnownAttrs == {"Python.Type", "Python.Shape", "Python.numpy.UnderlyingType", "Python.numpy.Container",
               "Python.Fields", "MATLAB_class", "MATLAB_int_decode", "MATLAB_fields"}
IsElementsNode(nd) == nd.t = "D" /\ nd.d.n = "ref" /\ AttrNames(nd.at) \cap KnownAttrs = {}

StructRead(nd, o) ==
  LET its == GroupItems(nd, o)
      names == SMap(its, LAMBDA x : Unescape(x.nm).u)
      multi == \A i \in 1..Len(nd.it) : IsElementsNode(nd.it[i].nd)
      given == IF HasAttr(nd.at, "Python.Fields") THEN VsAttr(nd.at, "Python.Fields") ELSE VsAttr(nd.at, "MATLAB_fields")
      gun == SMap(given, LAMBDA u : Unescape(u).u)
      have == {names[i] : i \in 1..Len(names)}
      order == SelectSeq(gun, LAMBDA n : n \in have)
               \o SetToSortSeq(have \ {gun[i] : i \in 1..Len(gun)}, LexLess)
      Val(n) == (CHOOSE x \in {its[i] : i \in 1..Len(its)} : Unescape(x.nm).u = n).r.v
      fs == SMap(order, LAMBDA n : [nm |-> n, v |-> IF multi THEN Val(n)
                                                   ELSE Arr("ndarray", DT("object"), <<1>>, <<[o |-> Unbox(Val(n))]>>)])
  IN IF StrAttr(nd.at, "MATLAB_class") = "struct" /\ o.sd
     THEN [dict |-> TRUE, v |-> [k |-> "dict", ks |-> SMap(names, PyStr), os |-> SMap(its, LAMBDA x : x.r.v)]]
     ELSE [dict |-> FALSE, v |-> MakeStruct(fs)]

MatlabTypes == [logical |-> DT("bool"), uint8 |-> DT("uint8"), uint16 |-> DT("uint16"), uint32 |-> DT("uint32"),
                uint64 |-> DT("uint64"), int8 |-> DT("int8"), int16 |-> DT("int16"), int32 |-> DT("int32"),
                int64 |-> DT("int64"), single |-> DT("float32"), double |-> DT("float64"), char |-> DTL("str", 1),
                cell |-> DT("object")]
MatlabType(c) == IF c \in DOMAIN MatlabTypes THEN MatlabTypes[c]
                 ELSE IF c = "canonical empty" THEN DT("float64") ELSE DT("object")
IsMatlabClass(c) == c \in DOMAIN MatlabTypes \/ c \in {"canonical empty", "struct"}

Boolean(a) == IF a.d.n = "bool" THEN a
              ELSE [a EXCEPT !.c = IF a.sh = <<>> THEN "scalar" ELSE @,
                             !.d = DT("bool"), !.da = SMap(@, LAMBDA e : [x |-> IF AllZero(e.x) THEN "00" ELSE "01"])]

HasMeta(nd) == /\ HasAttr(nd.at, "Python.Type") /\ HasAttr(nd.at, "Python.Shape")
               /\ HasAttr(nd.at, "Python.numpy.UnderlyingType")

\* with Python metadata: data is the raw array
MetaRead(nd, o, data) ==
  LET un == AttrOf(nd.at, "Python.numpy.UnderlyingType")
      shape == Dims(AttrOf(nd.at, "Python.Shape"))
      cont == StrAttr(nd.at, "Python.numpy.Container")
      empty == IsOne(nd.at, "Python.Empty")
      swap == HasAttr(nd.at, "MATLAB_class") \/ o.rev
      names == IF HasAttr(nd.at, "Python.Fields") THEN VsAttr(nd.at, "Python.Fields") ELSE VsAttr(nd.at, "MATLAB_fields")
      flds == HasAttr(nd.at, "Python.Fields") \/ HasAttr(nd.at, "MATLAB_fields")
      etype == CASE un.s = "bytes" -> DTL("bytes", IF un.w = 0 THEN 1 ELSE un.w \div 8)
                 [] un.s = "str" -> DTL("str", IF un.w = 0 THEN 1 ELSE un.w \div 32)
                 [] OTHER -> IF flds /\ nd.t = "D" /\ data.d.n = "struct" THEN data.d
                             ELSE IF flds THEN DTS(SMap(names, LAMBDA n : Fld(Unescape(n).u, DT("object")))) ELSE DT(un.s)
      d0 == IF empty THEN Zeros("ndarray", etype, shape)
            ELSE LET a == IF un.s \in {"complex64", "complex128"} THEN DecodeComplex(data, o.cn) ELSE data
                     b == IF un.s = "bool" THEN Boolean(a) ELSE a
                 IN IF swap THEN T(b) ELSE b
      r == IF un.s = "bytes" THEN (IF un.w = 0 THEN OkV(BytesScal(<<>>)) ELSE ConvToBytes(d0, un.w \div 8))
           ELSE IF un.s = "str" THEN (IF un.w = 0 THEN OkV(StrScal(<<>>)) ELSE ConvToStr(d0, un.w \div 32))
           ELSE OkV(d0)
      v == r.v
      s == IF v.sh # shape /\ Prod(v.sh) = Prod(shape) THEN [v EXCEPT !.sh = shape] ELSE v
  IN IF ~r.ok THEN NoV
     ELSE IF cont = "scalar"
     THEN IF empty /\ un.s = "bytes" THEN OkV(BytesScal(<<>>))
          ELSE IF empty /\ un.s = "str" THEN OkV(StrScal(<<>>))
          ELSE IF s.da = <<>> THEN NoV
          ELSE IF s.d.n = "object" THEN OkV(s.da[1].o)
          ELSE OkV(Scal(s.d, s.da[1]))
     ELSE OkV([s EXCEPT !.c = cont])

MatRead(nd, o, data) ==
  LET cls == StrAttr(nd.at, "MATLAB_class")
      empty == IsOne(nd.at, "MATLAB_empty")
      d0 == IF ~empty THEN T(data)
            ELSE LET sh == SMap(data.da, LAMBDA e : HexNat(e.x))
                 IN Zeros("ndarray", IF HasAttr(nd.at, "MATLAB_fields")
                                     THEN DTS(SMap(VsAttr(nd.at, "MATLAB_fields"),
                                                   LAMBDA n : Fld(Unescape(n).u, DT("object"))))
                                     ELSE MatlabType(cls), sh)
      d1 == IF cls \in {"single", "double"} THEN DecodeComplex(d0, o.cn) ELSE d0
      d2 == IF cls = "logical" THEN Boolean(d1) ELSE d1
  IN IF cls = "char" /\ d2.d.n # "bytes" THEN ConvToStr(d2, 0) ELSE OkV(d2)

\* a structure whose fields are named r and i is not a complex number
Unpaired(nd, data) ==
  IF PairOf(nd.d, <<114>>, <<105>>) /\ AttrOf(nd.at, "Python.numpy.UnderlyingType").s \in {"void", "record"}
  THEN Arr("ndarray", nd.d, nd.sh, nd.da) ELSE data

NumpyRead(nd, o) ==
  LET raw == IF nd.t = "D" THEN RawDataset(nd, o) ELSE NoV
      st == StructRead(nd, o)
  IN IF nd.t = "G" /\ st.dict THEN OkV(st.v)
     ELSE IF nd.t = "D" /\ ~raw.ok THEN NoV
     ELSE LET data == IF nd.t = "D" THEN raw.v ELSE st.v
          IN IF HasMeta(nd) THEN MetaRead(nd, o, IF nd.t = "D" THEN Unpaired(nd, data) ELSE data)
             ELSE IF IsMatlabClass(StrAttr(nd.at, "MATLAB_class")) THEN MatRead(nd, o, data)
             ELSE OkV(data)

(* ------------------------------ dict-likes -------------------------------- *)
KeyOf(kind, u) == CASE kind = "b" -> [k |-> "pybytes", b |-> Utf8Enc(u)]
                    [] kind = "S" -> BytesScal(Utf8Enc(u))
                    [] kind = "U" -> StrScal(u)
                    [] OTHER -> PyStr(u)
ItemNamed(nd, n) == {i \in 1..Len(nd.it) : nd.it[i].nm = n}
\* what iterating over a value gives: the elements, or the rows of more dimensions
ElsOf(v) ==
  IF v.k # "arr" THEN v.os
  ELSE IF Len(v.sh) <= 1
  THEN SMap(v.da, LAMBDA e : IF "o" \in DOMAIN e THEN e.o
                             ELSE IF "u" \in DOMAIN e THEN StrScal(RStrip(e.u))
                             ELSE IF "b" \in DOMAIN e THEN BytesScal(RStrip(e.b)) ELSE Scal(v.d, e))
  ELSE LET n == Prod(Tail(v.sh))
       IN [i \in 1..v.sh[1] |-> Arr(v.c, v.d, Tail(v.sh), SubSeq(v.da, (i - 1) * n + 1, i * n))]

\* [ok, ks, os] of the items of a dict-like
DictItems(nd, o) ==
  LET kvn == IF Len(VsAttr(nd.at, "Python.dict.keys_values_names")) >= 2
             THEN VsAttr(nd.at, "Python.dict.keys_values_names") ELSE <<o.kn, o.vn>>
      kk == ItemNamed(nd, Escape(kvn[1]))
      vv == ItemNamed(nd, Escape(kvn[2]))
  IN IF StrAttr(nd.at, "Python.dict.StoredAs") = "keys_values" /\ kk # {} /\ vv # {}
     THEN LET a == Decode(nd.it[CHOOSE i \in kk : TRUE].nd, o)
              b == Decode(nd.it[CHOOSE i \in vv : TRUE].nd, o)
          IN IF ~a.ok \/ ~b.ok THEN [ok |-> FALSE, ks |-> <<>>, os |-> <<>>]
             ELSE LET n == IF Len(ElsOf(a.v)) < Len(ElsOf(b.v)) THEN Len(ElsOf(a.v)) ELSE Len(ElsOf(b.v))
                  IN [ok |-> TRUE, ks |-> SubSeq(ElsOf(a.v), 1, n), os |-> SubSeq(ElsOf(b.v), 1, n)]
     ELSE LET pf == VsAttr(nd.at, "Python.Fields")
              mf == VsAttr(nd.at, "MATLAB_fields")
              inp == {pf[i] : i \in 1..Len(pf)}
              f2 == pf \o SelectSeq(mf, LAMBDA u : u \notin inp)
              inf == {f2[i] : i \in 1..Len(f2)}
              rest == SelectSeq(SMap(nd.it, LAMBDA x : x.nm), LAMBDA u : u \notin inf)
              all == f2 \o rest
              kinds == StrAttr(nd.at, "Python.dict.key_str_types")
              typed == HasAttr(nd.at, "Python.Fields") /\ Len(kinds) = Len(pf)
              rows == [i \in 1..Len(all) |->
                         LET at == ItemNamed(nd, all[i])
                             r == IF at = {} THEN NoV ELSE Decode(nd.it[CHOOSE j \in at : TRUE].nd, o)
                             u == Unescape(all[i])
                         IN [ok |-> r.ok /\ u.ok, v |-> r.v,
                             key |-> KeyOf(IF typed /\ i <= Len(pf) THEN SubSeq(kinds, i, i) ELSE "t", u.u)]]
              good == SelectSeq(rows, LAMBDA x : x.ok)
          IN [ok |-> TRUE, ks |-> SMap(good, LAMBDA x : x.key), os |-> SMap(good, LAMBDA x : x.v)]

(* --------------------------- the Python types ----------------------------- *)
DictTypes == {"dict", "collections.OrderedDict", "collections.Counter"}
KindOfType == [list |-> "list", tuple |-> "tuple", set |-> "set", frozenset |-> "frozenset"]
ObjTypes == {"slice", "range", "datetime.timedelta", "datetime.timezone", "datetime.date", "datetime.time",
             "datetime.datetime", "fractions.Fraction"}
IntOfBytes(b) == [k |-> "int", x |-> "", b |-> b]
Decode(nd, o) ==
  LET ty == StrAttr(nd.at, "Python.Type")
  IN IF nd.t \notin {"D", "G"} THEN NoV
     ELSE IF ty \in {"builtins.NoneType", "builtins.ellipsis", "builtins.NotImplementedType"}
     THEN OkV([k |-> CASE ty = "builtins.NoneType" -> "none" [] ty = "builtins.ellipsis" -> "ellipsis" [] OTHER -> "notimpl"])
     ELSE IF ty \in DictTypes \cup ObjTypes
     THEN IF nd.t # "G" THEN NoV
          ELSE LET d == DictItems(nd, o)
               IN IF ~d.ok THEN NoV
                  ELSE IF ty \in ObjTypes THEN OkV([k |-> "obj", ty |-> ty, an |-> SMap(d.ks, LAMBDA x : x.u), os |-> d.os])
                  ELSE OkV([k |-> CASE ty = "dict" -> "dict" [] ty = "collections.OrderedDict" -> "odict" [] OTHER -> "counter",
                            ks |-> d.ks, os |-> d.os])
     ELSE LET r == NumpyRead(nd, o)
              v == r.v
              pl == r.ok /\ v.k = "arr"
              one == pl /\ Len(v.da) = 1
          IN IF ~r.ok THEN NoV
             ELSE IF ty \in {"bool", "int", "long", "float", "complex"}
             THEN IF ~one THEN NoV
                  ELSE CASE ty = "bool" -> OkV([k |-> "pybool", x |-> v.da[1].x])
                         [] ty \in {"int", "long"} -> IF v.d.n = "bytes" THEN OkV(IntOfBytes(v.da[1].b))
                                                      ELSE OkV([k |-> "int", x |-> v.da[1].x, b |-> <<>>])
                         [] ty = "float" -> OkV([k |-> "float", x |-> v.da[1].x])
                         [] OTHER -> IF v.d.n \in {"complex64", "complex128"} THEN OkV([k |-> "complex", re |-> v.da[1].re, im |-> v.da[1].im]) ELSE NoV
             ELSE IF ty = "str" THEN (IF one /\ v.d.n = "str" THEN OkV(PyStr(v.da[1].u)) ELSE NoV)
             ELSE IF ty \in {"bytes", "bytearray"}
             THEN IF one /\ v.d.n = "bytes" THEN OkV([k |-> IF ty = "bytes" THEN "pybytes" ELSE ty, b |-> v.da[1].b]) ELSE NoV
             ELSE IF ty = "numpy.dtype" THEN (IF one /\ v.d.n = "bytes" THEN OkV([k |-> "npdtype", b |-> v.da[1].b]) ELSE NoV)
             ELSE IF ty \in {"list", "tuple", "set", "frozenset", "collections.deque", "collections.ChainMap"}
             THEN IF ~pl \/ v.sh = <<>> THEN NoV
                  ELSE OkV([k |-> CASE ty = "collections.deque" -> "deque" [] ty = "collections.ChainMap" -> "chainmap" [] OTHER -> ty,
                            os |-> ElsOf(v)])
             ELSE r

\* A group whose items look like the fields of one structured array, but that
\* have different shapes, or several items for one name or items with names that
\* are not valid escaped names, is not a struct; what
\* reading it gives is not specified.
RECURSIVE Odd(_)
Odd(nd) ==
  CASE nd.t = "D" -> nd.d.n = "ref" /\ \E i \in 1..Len(nd.da) : Odd(nd.da[i].rf)
    [] nd.t = "G" -> \/ \E i \in 1..Len(nd.it) : Odd(nd.it[i].nd)
                     \/ /\ StrAttr(nd.at, "Python.Type") \notin DictTypes \cup ObjTypes
                        /\ \A i \in 1..Len(nd.it) : IsElementsNode(nd.it[i].nd)
                        /\ \E i, j \in 1..Len(nd.it) : nd.it[i].nd.sh # nd.it[j].nd.sh
                     \/ \E i \in 1..Len(nd.it) : ~Unescape(nd.it[i].nm).ok
                     \/ \E i, j \in 1..Len(nd.it) : i # j /\ Unescape(nd.it[i].nm) = Unescape(nd.it[j].nm)
                     \* the keys or values of a dict were replaced by something else
                     \/ /\ StrAttr(nd.at, "Python.dict.StoredAs") = "keys_values"
                        /\ \E k \in 1..Len(VsAttr(nd.at, "Python.dict.keys_values_names")) :
                             \E i \in ItemNamed(nd, Escape(VsAttr(nd.at, "Python.dict.keys_values_names")[k])) :
                               \/ nd.it[i].nd.t # "D"
                               \/ StrAttr(nd.it[i].nd.at, "Python.Type") # "tuple"
                     \* something was added to or removed from an object stored by its fields
                     \/ /\ StrAttr(nd.at, "Python.Type") \in ObjTypes
                        /\ {nd.it[i].nm : i \in 1..Len(nd.it)} # {VsAttr(nd.at, "Python.Fields")[i] : i \in 1..Len(VsAttr(nd.at, "Python.Fields"))}
    [] OTHER -> FALSE

(* ------------------------- equality of round trips ------------------------ *)
\* What is preserved: everything but the order of sets and, in structured
\* arrays, whether a field is declared with the type of its elements.
RECURSIVE Norm(_)
RECURSIVE NormField(_, _)
NormField(fd, els) ==
  LET v == FieldTerm(fd, els)
  IN IF v.k = "arr" /\ v.sh = <<>> /\ v.d.n = "str" THEN StrScal(RStrip(v.da[1].u))
     ELSE IF v.k = "arr" /\ v.sh = <<>> /\ v.d.n = "bytes" THEN BytesScal(RStrip(v.da[1].b))
     ELSE IF v.k = "arr" /\ v.d.n # "struct" /\ v.c # "scalar"
     THEN Norm([v EXCEPT !.c = IF v.sh = <<>> THEN "scalar" ELSE "ndarray"])
     ELSE IF v.k = "arr" /\ v.d.n = "struct" /\ v.c # "scalar" THEN Norm([v EXCEPT !.c = IF v.sh = <<>> THEN "scalar" ELSE "ndarray"])
     ELSE Norm(v)
Norm(v) ==
  IF v.k \in {"set", "frozenset"}
  THEN [k |-> v.k, n |-> Len(v.os), els |-> {Norm(v.os[i]) : i \in 1..Len(v.os)}]
  ELSE IF v.k \in {"list", "tuple", "deque", "chainmap"} THEN [k |-> v.k, os |-> SMap(v.os, Norm)]
  ELSE IF v.k \in DictKinds THEN [k |-> v.k, ks |-> SMap(v.ks, Norm), os |-> SMap(v.os, Norm)]
  ELSE IF v.k = "obj" THEN [v EXCEPT !.os = SMap(@, Norm)]
  ELSE IF v.k = "arr" /\ v.d.n = "object" THEN [v EXCEPT !.da = SMap(@, LAMBDA e : [o |-> Norm(e.o)])]
  ELSE IF v.k = "arr" /\ v.d.n = "struct"
  THEN [k |-> "struct", c |-> v.c, sh |-> v.sh, names |-> [i \in 1..Len(v.d.f) |-> v.d.f[i].nm],
        rows |-> [j \in 1..Len(v.da) |-> [i \in 1..Len(v.d.f) |-> NormField(v.d.f[i], v.da[j].r[i])]]]
  ELSE v
\* the same but for the order of sets
RECURSIVE Unordered(_)
RECURSIVE UnordRow(_, _)
Unordered(v) ==
  IF v.k \in {"set", "frozenset"} THEN [k |-> v.k, n |-> Len(v.os), els |-> {Unordered(v.os[i]) : i \in 1..Len(v.os)}]
  ELSE IF "os" \in DOMAIN v
  THEN LET w == [v EXCEPT !.os = SMap(@, Unordered)]
       IN IF "ks" \in DOMAIN v THEN [w EXCEPT !.ks = SMap(@, Unordered)] ELSE w
  ELSE IF v.k = "arr" /\ v.d.n = "object" THEN [v EXCEPT !.da = SMap(@, LAMBDA e : [o |-> Unordered(e.o)])]
  ELSE IF v.k = "arr" /\ v.d.n = "struct" THEN [v EXCEPT !.da = SMap(@, LAMBDA e : UnordRow(v.d, e))]
  ELSE v
UnordRow(d, e) ==
  [r |-> [i \in 1..Len(d.f) |-> [j \in 1..Len(e.r[i]) |->
     IF d.f[i].d.n = "object" THEN [o |-> Unordered(e.r[i][j].o)]
     ELSE IF d.f[i].d.n = "struct" THEN UnordRow(d.f[i].d, e.r[i][j]) ELSE e.r[i][j]]]]
Same(v, w) == Norm(v) = Norm(w)
=============================================================================

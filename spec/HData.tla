-------------------------------- MODULE HData --------------------------------
(* How Python values are stored in HDF5 and read back.                        *)
(*                                                                            *)
(* VALUES (field names always have the same type, so that any two terms can   *)
(* be compared):                                                              *)
(*   [k:"none"|"ellipsis"|"notimpl"]  [k:"pybool"|"float", x: hex]            *)
(*   [k:"int", x: hex or "" if it has no 64 bit form, b: its decimal bytes]   *)
(*   [k:"complex", re, im: hex]                                               *)
(*   [k:"pystr", u: code points]  [k:"pybytes"|"bytearray", b: bytes]         *)
(*   [k:"npdtype", b: bytes of its description]                               *)
(*   [k:"list"|"tuple"|"set"|"frozenset"|"deque"|"chainmap", os: values]      *)
(*   [k:"dict"|"odict"|"counter", ks, os: values]                             *)
(*   [k:"obj", ty: its Python.Type, an: names, os: values]  (range, date ..)  *)
(*   [k:"bad"]  any unsupported type                                          *)
(*   [k:"arr", c: array kind, d: dtype, sh: shape, da: elements in C order]   *)
(* DTYPES  [n: name, l: characters or bytes, f: fields [nm, d, sh]]           *)
(* ELEMENTS  [x] number, [re, im], [b] bytes, [u] text, [o] object,           *)
(*   [r] row of a structured array (per field a sequence of elements),        *)
(*   [rf] reference (the object referred to)                                  *)
(* NODES   [t:"D", d, sh, da, at, fl]   [t:"G", it: <<[nm, nd]..>>, at]       *)
(* ATTRIBUTES at: a set of [nm, av]; av is [s], [s, w], [vs] or [n, sh, xs]   *)
EXTENDS HPath

(* -------------------------------- shapes ---------------------------------- *)
Prod(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Unravel(_, _)
Unravel(sh, j) == IF sh = <<>> THEN <<>>
                  ELSE LET n == sh[Len(sh)]
                       IN Append(Unravel(SubSeq(sh, 1, Len(sh) - 1), j \div n), j % n)
RECURSIVE RavelTo(_, _, _, _)
RavelTo(sh, ix, i, acc) == IF i > Len(sh) THEN acc ELSE RavelTo(sh, ix, i + 1, acc * sh[i] + ix[i])
TransDa(sh, da) ==
  IF Len(sh) <= 1 \/ Len(da) <= 1 THEN da
  ELSE IF Len(sh) = 2
       THEN LET m == sh[1] n == sh[2]
            IN [j \in 1..Len(da) |-> da[((j-1) % m) * n + ((j-1) \div m) + 1]]
       ELSE [j \in 1..Len(da) |-> da[RavelTo(sh, Rev(Unravel(Rev(sh), j - 1)), 1, 0) + 1]]
SetLast(sh, n) == [sh EXCEPT ![Len(sh)] = n]
At1(sh) == IF sh = <<>> THEN <<1>> ELSE sh
Chunk(da, n) == [i \in 1..(Len(da) \div n) |-> SubSeq(da, (i-1)*n + 1, i*n)]

(* -------------------------------- dtypes ---------------------------------- *)
DT(n) == [n |-> n, l |-> 0, f |-> <<>>]
DTL(n, l) == [n |-> n, l |-> l, f |-> <<>>]
DTS(f) == [n |-> "struct", l |-> 0, f |-> f]
Fld(nm, d) == [nm |-> nm, d |-> d, sh |-> <<>>]

SizeTab == [bool |-> 1, int8 |-> 1, uint8 |-> 1, int16 |-> 2, uint16 |-> 2, int32 |-> 4, uint32 |-> 4,
            int64 |-> 8, uint64 |-> 8, float16 |-> 2, float32 |-> 4, float64 |-> 8,
            complex64 |-> 8, complex128 |-> 16, object |-> 8, ref |-> 8]
RECURSIVE Item(_)
Item(d) == IF d.n = "bytes" THEN d.l
           ELSE IF d.n = "str" THEN 4 * d.l
           ELSE IF d.n = "struct"
                THEN FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(d.f) |-> Item(d.f[i].d) * Prod(d.f[i].sh)])
           ELSE IF d.n \in DOMAIN SizeTab THEN SizeTab[d.n] ELSE 0

ZeroHex(n) == CASE n = 1 -> "00" [] n = 2 -> "0000" [] n = 4 -> "00000000" [] n = 8 -> "0000000000000000" [] OTHER -> ""

RECURSIVE ZeroEl(_)
ZeroEl(d) == IF d.n = "bytes" THEN [b |-> Rep(0, d.l)]
             ELSE IF d.n = "str" THEN [u |-> Rep(0, d.l)]
             ELSE IF d.n \in {"complex64", "complex128"} THEN [re |-> ZeroHex(Item(d) \div 2), im |-> ZeroHex(Item(d) \div 2)]
             ELSE IF d.n = "object" THEN [o |-> [k |-> "int", x |-> "0000000000000000", b |-> <<>>]]
             ELSE IF d.n = "struct" THEN [r |-> [i \in 1..Len(d.f) |-> [j \in 1..Prod(d.f[i].sh) |-> ZeroEl(d.f[i].d)]]]
             ELSE [x |-> ZeroHex(Item(d))]

RECURSIVE HasObj(_)
HasObj(d) == d.n = "object" \/ \E i \in 1..Len(d.f) : HasObj(d.f[i].d)
\* a null in a field name, or the text of its escape
NameHasNull(u) == \/ \E i \in 1..Len(u) : u[i] = 0
                  \/ \E i \in 1..(Len(u) - 3) : SubSeq(u, i, i + 3) = <<92, 120, 48, 48>>
RECURSIVE HasNull(_)
HasNull(d) == \E i \in 1..Len(d.f) : NameHasNull(d.f[i].nm) \/ HasNull(d.f[i].d)
RECURSIVE HasZeroSh(_)
HasZeroSh(d) == \E i \in 1..Len(d.f) : (\E j \in 1..Len(d.f[i].sh) : d.f[i].sh[j] = 0) \/ HasZeroSh(d.f[i].d)

StructAsGroup(d, o) == d.n = "struct" /\ (o.strct \/ HasObj(d) \/ HasNull(d) \/ HasZeroSh(d))

MClass == [bool |-> "logical", uint8 |-> "uint8", uint16 |-> "uint16", uint32 |-> "uint32", uint64 |-> "uint64",
           int8 |-> "int8", int16 |-> "int16", int32 |-> "int32", int64 |-> "int64", float32 |-> "single",
           float64 |-> "double", complex64 |-> "single", complex128 |-> "double", bytes |-> "char",
           str |-> "char", object |-> "cell"]
MCompat(d, o) == d.n \in DOMAIN MClass \/ (d.n = "struct" /\ o.strct)

(* ----------------------------- building values ---------------------------- *)
Arr(c, d, sh, da) == [k |-> "arr", c |-> c, d |-> d, sh |-> sh, da |-> da]
Scal(d, el) == Arr("scalar", d, <<>>, <<el>>)
StrScal(u) == Scal(DTL("str", Len(u)), [u |-> u])
BytesScal(b) == Scal(DTL("bytes", Len(b)), [b |-> b])
PyStr(u) == [k |-> "pystr", u |-> u]

\* what indexing a row with a field gives
FieldTerm(fd, els) ==
  IF fd.sh # <<>> THEN Arr("ndarray", fd.d, fd.sh, els)
  ELSE CASE fd.d.n = "str" -> StrScal(RStrip(els[1].u))
         [] fd.d.n = "bytes" -> BytesScal(RStrip(els[1].b))
         [] fd.d.n = "object" -> els[1].o
         [] OTHER -> Scal(fd.d, els[1])
\* what indexing an array of text gives for object arrays etc. is never needed

TypeStr == [list |-> "list", tuple |-> "tuple", set |-> "set", frozenset |-> "frozenset",
            deque |-> "collections.deque", chainmap |-> "collections.ChainMap", dict |-> "dict",
            odict |-> "collections.OrderedDict", counter |-> "collections.Counter",
            none |-> "builtins.NoneType", ellipsis |-> "builtins.ellipsis",
            notimpl |-> "builtins.NotImplementedType", pybool |-> "bool", int |-> "int",
            float |-> "float", complex |-> "complex", pystr |-> "str", pybytes |-> "bytes",
            bytearray |-> "bytearray", npdtype |-> "numpy.dtype"]
SeqKinds == {"list", "tuple", "set", "frozenset", "deque", "chainmap"}
DictKinds == {"dict", "odict", "counter"}

ArrTypeStr(v) ==
  CASE v.c = "ndarray" -> "numpy.ndarray" [] v.c = "matrix" -> "numpy.matrix"
    [] v.c = "chararray" -> "numpy.chararray" [] v.c = "recarray" -> "numpy.recarray"
    [] OTHER -> CASE v.d.n = "bool" -> "numpy.bool_" [] v.d.n = "bytes" -> "numpy.bytes_"
                  [] v.d.n = "str" -> "numpy.str_" [] v.d.n = "struct" -> "numpy.void"
                  [] v.d.n = "object" -> "numpy.object_"
                  [] OTHER -> "numpy." \o v.d.n

(* ------------------------------ attributes -------------------------------- *)
AvS(s) == [s |-> s]
AvW(s, w) == [s |-> s, w |-> w]
AvV(names) == [vs |-> names]
AvN(n, sh, xs) == [n |-> n, sh |-> sh, xs |-> xs]
At(nm, av) == [nm |-> nm, av |-> av]
AttrNames(at) == {a.nm : a \in at}
AttrOf(at, nm) == (CHOOSE a \in at : a.nm = nm).av
HasAttr(at, nm) == \E a \in at : a.nm = nm
StrAttr(at, nm) == IF HasAttr(at, nm) /\ "s" \in DOMAIN AttrOf(at, nm) THEN AttrOf(at, nm).s ELSE ""

UnderlyingAv(v) ==
  CASE v.d.n = "bytes" -> AvW("bytes", 8 * v.d.l)
    [] v.d.n = "str" -> AvW("str", 32 * v.d.l)
    [] v.d.n = "struct" -> AvW(IF v.c = "recarray" THEN "record" ELSE "void", 8 * Item(v.d))
    [] OTHER -> AvW(v.d.n, 0)

U64(n) == Hex16(n)
AsciiName(u) == SAll(u, LAMBDA c : c < 128)

(* -------------------------------- results --------------------------------- *)
NoNode == [t |-> "none"]
Ok(nd) == [st |-> "ok", nd |-> nd, er |-> ""]
Err(e) == [st |-> "err", nd |-> NoNode, er |-> e]
Discarded == [st |-> "none", nd |-> NoNode, er |-> ""]

NoFilter == [c |-> "none", lv |-> -1, sf |-> FALSE, f32 |-> FALSE]
FilterOf(sh, nbytes, o) ==
  IF sh = <<>> THEN NoFilter
  ELSE IF o.comp /\ nbytes >= o.thr
       THEN [c |-> o.alg, lv |-> IF o.alg = "gzip" THEN o.lv ELSE -1, sf |-> o.shf, f32 |-> o.cf32]
  ELSE [NoFilter EXCEPT !.f32 = o.uf32]

CanonicalEmpty ==
  [t |-> "D", d |-> DT("uint64"), sh |-> <<2>>, da |-> Rep([x |-> U64(0)], 2), fl |-> NoFilter,
   at |-> {At("MATLAB_class", AvS("canonical empty")), At("MATLAB_empty", AvN("uint8", <<>>, <<"01">>))}]

WithAttr(nd, a) == [nd EXCEPT !.at = {b \in @ : b.nm # a.nm} \cup {a}]
H5PathAttr == At("H5PATH", AvS("@parent"))     \* the path of the group holding the object

(* ----------------------- conversions of array data ------------------------ *)
\* s is [d, sh, da]
ConvBytes16(v) ==
  IF Prod(v.sh) * v.d.l = 0 THEN [d |-> DT("uint16"), sh |-> <<0>>, da |-> <<>>]
  ELSE IF \A i \in 1..Len(v.da) : SAll(v.da[i].b, LAMBDA c : c < 128)
       THEN LET sh1 == At1(v.sh)
            IN [d |-> DT("uint16"), sh |-> SetLast(sh1, sh1[Len(sh1)] * v.d.l),
                da |-> SFlat([i \in 1..Len(v.da) |-> SMap(v.da[i].b, LAMBDA c : [x |-> Hex4(c)])])]
       ELSE [d |-> v.d, sh |-> v.sh, da |-> v.da]
ConvStr(v, want16) ==
  LET fits == want16 /\ \A i \in 1..Len(v.da) : SAll(v.da[i].u, LAMBDA c : c < 65536 /\ ~IsSurr(c))
      dt == IF fits THEN DT("uint16") ELSE DT("uint32")
      sh1 == At1(v.sh)
  IN IF Prod(v.sh) * v.d.l = 0 THEN [d |-> IF want16 THEN DT("uint16") ELSE DT("uint32"), sh |-> <<0>>, da |-> <<>>]
     ELSE [d |-> dt, sh |-> SetLast(sh1, sh1[Len(sh1)] * v.d.l),
           da |-> SFlat([i \in 1..Len(v.da) |->
                     SMap(v.da[i].u, LAMBDA c : [x |-> IF fits THEN Hex4(c) ELSE Hex8(c)])])]

FloatOf(n) == IF n = "complex64" THEN "float32" ELSE "float64"

IsEmpty(v) == Prod(v.sh) = 0 \/ (v.d.n \in {"bytes", "str"} /\ v.d.l = 0)

\* the array after all conversions other than that of objects and structs
Converted(v, o) ==
  LET s0 == IF v.d.n = "bytes" /\ o.b16 THEN ConvBytes16(v)
            ELSE IF v.d.n = "str" THEN ConvStr(v, o.s16)
            ELSE [d |-> v.d, sh |-> v.sh, da |-> v.da]
      sh2 == IF ~o.at2d THEN s0.sh
             ELSE IF Len(v.sh) = 1 /\ o.oned = "column"
                  THEN IF Prod(s0.sh) = 0 THEN Rev(IF Len(s0.sh) = 1 THEN <<1>> \o s0.sh ELSE s0.sh)
                       ELSE <<v.sh[1], Prod(s0.sh) \div v.sh[1]>>
             ELSE IF Len(s0.sh) = 0 THEN <<1, 1>>
             ELSE IF Len(s0.sh) = 1 THEN <<1>> \o s0.sh
             ELSE s0.sh
      s3 == IF o.rev THEN [d |-> s0.d, sh |-> Rev(sh2), da |-> TransDa(sh2, s0.da)]
            ELSE [d |-> s0.d, sh |-> sh2, da |-> s0.da]
      s4 == IF s3.d.n = "bool" /\ o.bu8 THEN [s3 EXCEPT !.d = DT("uint8")] ELSE s3
      s5 == IF o.ssfe /\ IsEmpty(v)
            THEN [d |-> DT("uint64"), sh |-> <<Len(sh2)>>, da |-> SMap(sh2, LAMBDA n : [x |-> U64(n)])]
            ELSE s4
  IN IF s5.d.n \in {"complex64", "complex128"}
     THEN LET fn == FloatOf(s5.d.n)
          IN [s5 EXCEPT !.d = DTS(<<Fld(o.cn[1], DT(fn)), Fld(o.cn[2], DT(fn))>>),
                        !.da = SMap(@, LAMBDA e : [r |-> <<<<[x |-> e.re]>>, <<[x |-> e.im]>>>>])]
     ELSE s5

\* HDF5 has no text of length zero (it gets a null) and no complex numbers: inside of structured datasets they are pairs named r and i
RECURSIVE H5Type(_)
H5Type(d) == IF d.n \in {"complex64", "complex128"}
             THEN DTS(<<Fld(<<114>>, DT(FloatOf(d.n))), Fld(<<105>>, DT(FloatOf(d.n)))>>)
             ELSE IF d.n = "bytes" /\ d.l = 0 THEN DTL("bytes", 1)
             ELSE IF d.n = "struct"
             THEN [d EXCEPT !.f = [i \in 1..Len(d.f) |-> [d.f[i] EXCEPT !.d = H5Type(@)]]]
             ELSE d
RECURSIVE H5El(_, _)
H5El(d, e) == IF d.n \in {"complex64", "complex128"} THEN [r |-> <<<<[x |-> e.re]>>, <<[x |-> e.im]>>>>]
              ELSE IF d.n = "bytes" /\ d.l = 0 THEN [b |-> <<0>>]
              ELSE IF d.n = "struct"
              THEN [r |-> [i \in 1..Len(d.f) |-> [j \in 1..Len(e.r[i]) |-> H5El(d.f[i].d, e.r[i][j])]]]
              ELSE e
RECURSIVE HasStr(_)
HasStr(d) == d.n = "str" \/ \E i \in 1..Len(d.f) : HasStr(d.f[i].d)

\* HDF5 keeps the items of a group sorted by name
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Sorted(items) == SetToSortSeq(items, LAMBDA a, b : LexLess(a.nm, b.nm))

(* ------------------------------- encoding --------------------------------- *)
RECURSIVE FirstErr(_)
FirstErr(rs) == IF rs = <<>> THEN "" ELSE IF rs[1].st = "err" THEN rs[1].er ELSE FirstErr(Tail(rs))

RECURSIVE Encode(_, _)
RECURSIVE EncArr(_, _, _)
RECURSIVE EncDict(_, _, _, _)

\* the references to the elements of an object array
EncRefs(els, o) ==
  LET rs == [i \in 1..Len(els) |-> Encode(els[i].o, o)]
  IN [er |-> FirstErr(rs),
      da |-> [i \in 1..Len(rs) |->
                [rf |-> IF rs[i].st = "none" THEN CanonicalEmpty
                        ELSE IF rs[i].st = "ok" /\ o.mc THEN WithAttr(rs[i].nd, H5PathAttr) ELSE rs[i].nd]]]

ArrAttrs(v, o, ts, asGroup, dstored) ==
  LET isS == v.d.n = "struct"
      names == [i \in 1..Len(v.d.f) |-> Escape(v.d.f[i].nm)]
      flds == asGroup \/ (isS /\ (o.strct \/ HasObj(v.d) \/ HasNull(v.d) \/ Prod(v.sh) = 0 \/ HasZeroSh(v.d)))
  IN (IF o.spm
      THEN {At("Python.Type", AvS(ts)),
            At("Python.Shape", AvN("uint64", <<Len(v.sh)>>, SMap(v.sh, U64))),
            At("Python.numpy.UnderlyingType", UnderlyingAv(v)),
            At("Python.numpy.Container", AvS(v.c))}
           \cup (IF flds THEN {At("Python.Fields", AvV(names))} ELSE {})
           \cup (IF IsEmpty(v) THEN {At("Python.Empty", AvN("uint8", <<>>, <<"01">>))} ELSE {})
      ELSE {})
     \cup
     (IF o.mc
      THEN (IF flds /\ SAll(names, AsciiName) THEN {At("MATLAB_fields", AvV(names))} ELSE {})
           \cup (IF IsEmpty(v) THEN {At("MATLAB_empty", AvN("uint8", <<>>, <<"01">>))} ELSE {})
           \cup (IF isS /\ o.strct THEN {At("MATLAB_class", AvS("struct"))}
                 ELSE IF v.d.n \in DOMAIN MClass
                      THEN {At("MATLAB_class", AvS(MClass[v.d.n]))}
                           \cup (IF v.d.n \in {"bytes", "str", "bool"}
                                 THEN {At("MATLAB_int_decode", AvN("int64", <<>>,
                                        <<U64(IF dstored.n = "bytes" THEN 1 ELSE Item(dstored))>>))}
                                 ELSE {})
                      ELSE {})
      ELSE {})

EncArr(v, o, ts) ==
  IF o.mc /\ ~MCompat(v.d, o) /\ o.act = "error" THEN Err("TypeNotMatlabCompatibleError")
  ELSE IF o.mc /\ ~MCompat(v.d, o) /\ o.act = "discard" THEN Discarded
  ELSE
  LET c == Converted(v, o)
  IN IF c.d.n = "object"
     THEN LET rf == EncRefs(c.da, o)
          IN IF rf.er # "" THEN Err(rf.er)
             ELSE Ok([t |-> "D", d |-> DT("ref"), sh |-> c.sh, da |-> rf.da,
                      at |-> ArrAttrs(v, o, ts, FALSE, DT("ref")), fl |-> FilterOf(c.sh, 8 * Prod(c.sh), o)])
     ELSE IF v.d.n = "struct" /\ StructAsGroup(c.d, o)
     THEN LET fsh == IF o.rev THEN Rev(c.sh) ELSE c.sh
              single == Prod(c.sh) = 1
              FieldVal(i) ==
                IF single THEN FieldTerm(v.d.f[i], c.da[1].r[i])
                ELSE LET els == [j \in 1..Len(c.da) |-> [o |-> FieldTerm(v.d.f[i], c.da[j].r[i])]]
                     IN Arr("ndarray", DT("object"), fsh, IF o.rev THEN TransDa(c.sh, els) ELSE els)
              rs == [i \in 1..Len(v.d.f) |-> Encode(FieldVal(i), o)]
              fin(nd) == LET base == IF single THEN nd ELSE [nd EXCEPT !.at = {}]
                         IN IF o.mc THEN WithAttr(base, H5PathAttr) ELSE base
              items == {[nm |-> Escape(v.d.f[i].nm), nd |-> fin(rs[i].nd)] :
                          i \in {j \in 1..Len(rs) : rs[j].st = "ok"}}
          IN IF FirstErr(rs) # "" THEN Err(FirstErr(rs))
             ELSE Ok([t |-> "G", it |-> Sorted(items), at |-> ArrAttrs(v, o, ts, TRUE, DT("struct"))])
     ELSE IF v.d.n = "struct" /\ c.d.n = "struct" /\ HasStr(c.d) THEN Err("TypeError")
     ELSE Ok([t |-> "D", d |-> H5Type(c.d), sh |-> c.sh, da |-> SMap(c.da, LAMBDA e : H5El(c.d, e)),
              at |-> ArrAttrs(v, o, ts, FALSE, c.d),
              fl |-> FilterOf(c.sh, Prod(c.sh) * Item(H5Type(c.d)), o)])

\* the text of a key, if it is one that can be a name
KeyText(k) ==
  IF k.k = "pystr" THEN (IF Encodable(k.u) THEN Good(k.u) ELSE Bad)
  ELSE IF k.k = "pybytes" THEN Utf8Dec(k.b)
  ELSE IF k.k = "arr" /\ k.c = "scalar" /\ k.d.n = "str"
       THEN (IF Encodable(k.da[1].u) THEN Good(k.da[1].u) ELSE Bad)
  ELSE IF k.k = "arr" /\ k.c = "scalar" /\ k.d.n = "bytes" THEN Utf8Dec(k.da[1].b)
  ELSE Bad
KeyKind(k) == IF k.k = "pystr" THEN "t" ELSE IF k.k = "pybytes" THEN "b" ELSE IF k.d.n = "str" THEN "U" ELSE "S"
KeyTexts(ks) == [i \in 1..Len(ks) |-> KeyText(ks[i]).u]
StoredIndividually(ks) ==
  /\ \A i \in 1..Len(ks) : KeyText(ks[i]).ok /\ KeyText(ks[i]).u # <<>>
  /\ \A i, j \in 1..Len(ks) : i # j => KeyTexts(ks)[i] # KeyTexts(ks)[j]

EncDict(ks, os, o, ts) ==
  LET ind == StoredIndividually(ks)
      names == IF ind THEN [i \in 1..Len(ks) |-> Escape(KeyTexts(ks)[i])]
               ELSE <<Escape(o.kn), Escape(o.vn)>>
      vals == IF ind THEN os ELSE <<[k |-> "tuple", os |-> ks], [k |-> "tuple", os |-> os]>>
      kinds == FoldLeft(LAMBDA a, b : a \o b, "", [i \in 1..Len(ks) |-> IF ind THEN KeyKind(ks[i]) ELSE ""])
      at == (IF o.spm
             THEN {At("Python.Type", AvS(ts))} \cup
                  (IF ind THEN {At("Python.dict.StoredAs", AvS("individually")),
                                At("Python.Fields", AvV(names)),
                                At("Python.dict.key_str_types", AvS(kinds))}
                   ELSE {At("Python.dict.StoredAs", AvS("keys_values")),
                         At("Python.dict.keys_values_names", AvV(<<o.kn, o.vn>>))})
             ELSE {})
            \cup
            (IF o.mc THEN {At("MATLAB_class", AvS("struct"))} \cup
                          (IF ind /\ SAll(names, AsciiName) THEN {At("MATLAB_fields", AvV(names))} ELSE {})
             ELSE {})
      rs == [i \in 1..Len(vals) |-> Encode(vals[i], o)]
      items == {[nm |-> names[i], nd |-> IF o.mc THEN WithAttr(rs[i].nd, H5PathAttr) ELSE rs[i].nd] :
                  i \in {j \in 1..Len(rs) : rs[j].st = "ok"}}
  IN IF FirstErr(rs) # "" THEN Err(FirstErr(rs)) ELSE Ok([t |-> "G", it |-> Sorted(items), at |-> at])

Encode(v, o) ==
  CASE v.k = "arr" -> EncArr(v, o, ArrTypeStr(v))
    [] v.k \in {"none", "ellipsis", "notimpl"} ->
         EncArr(Arr("ndarray", DT("float64"), <<0>>, <<>>), o, TypeStr[v.k])
    [] v.k = "pybool" -> EncArr(Scal(DT("bool"), [x |-> v.x]), o, "bool")
    [] v.k = "float" -> EncArr(Scal(DT("float64"), [x |-> v.x]), o, "float")
    [] v.k = "int" -> EncArr(IF v.x # "" THEN Scal(DT("int64"), [x |-> v.x]) ELSE BytesScal(v.b), o, "int")
    [] v.k = "complex" -> EncArr(Scal(DT("complex128"), [re |-> v.re, im |-> v.im]), o, "complex")
    [] v.k = "pystr" -> EncArr(StrScal(v.u), o, "str")
    [] v.k \in {"pybytes", "bytearray"} -> EncArr(BytesScal(v.b), o, TypeStr[v.k])
    [] v.k = "npdtype" -> EncArr(BytesScal(v.b), o, "numpy.dtype")
    [] v.k \in SeqKinds ->
         EncArr(Arr("ndarray", DT("object"), <<Len(v.os)>>, SMap(v.os, LAMBDA e : [o |-> e])), o, TypeStr[v.k])
    [] v.k \in DictKinds -> EncDict(v.ks, v.os, o, TypeStr[v.k])
    [] v.k = "obj" -> EncDict(SMap(v.an, PyStr), v.os, o, v.ty)
    [] OTHER -> Err("NotImplementedError")
=============================================================================

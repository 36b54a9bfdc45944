------------------------------- MODULE MCData --------------------------------
(* Exhaustive check of the storage format (HData, HRead, HMatlab) over all    *)
(* values of a small universe and the settings of the options: what is        *)
(* written can be read back, has the MATLAB form, and the Python metadata is  *)
(* only added to what is written without it.  The two steps of a case are     *)
(* writing (Write) and reading (Read).                                        *)
EXTENDS HMatlab

CONSTANTS Part,       \* "text", "arrays", "containers", "dicts", "incompatible"
          Wide        \* all settings of the options, or only some

VARIABLES val, opt, node, back, pc
vars == <<val, opt, node, back, pc>>

Chars == {97, 0, 233, 55357, 56832, 128512, 65279}
Texts == {<<>>} \cup {<<a>> : a \in Chars} \cup {<<a, b>> : a, b \in Chars}
Bytes == {0, 97, 127, 255}
Datas == {<<>>} \cup {<<a>> : a \in Bytes} \cup {<<a, b>> : a, b \in Bytes}

TextValues == {PyStr(u) : u \in Texts}
              \cup {StrScal(u) : u \in {t \in Texts : Len(t) < 2}}
              \cup {[k |-> c, b |-> b] : c \in {"pybytes", "bytearray"}, b \in Datas}
              \cup {BytesScal(b) : b \in {t \in Datas : Len(t) < 2}}
              \cup {Arr("ndarray", DTL("str", 2), sh, [i \in 1..Prod(sh) |-> [u |-> <<a, b>>]])
                       : sh \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<0>>}, a \in {97, 128512}, b \in {0, 55357}}
              \cup {Arr("ndarray", DTL("bytes", 2), sh, [i \in 1..Prod(sh) |-> [b |-> <<a, b>>]])
                       : sh \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<0>>}, a \in {97, 255}, b \in {0, 98}}

Shapes == {<<>>, <<0>>, <<1>>, <<3>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<0, 2>>, <<2, 0>>, <<2, 1, 2>>, <<1, 0, 3>>}
Elem(n, i) ==
  CASE n = "bool" -> [x |-> IF i % 2 = 1 THEN "01" ELSE "00"]
    [] n = "int8" -> [x |-> Hex2(i)]
    [] n = "uint16" -> [x |-> Hex4(i)]
    [] n = "float64" -> [x |-> Hex16(i)]
    [] n = "complex64" -> [re |-> Hex8(i), im |-> Hex8(100 + i)]
    [] n = "object" -> [o |-> IF i % 2 = 0 THEN [k |-> "pybool", x |-> "01"] ELSE PyStr(<<96 + i>>)]
    [] OTHER -> [r |-> <<<<[x |-> Hex16(i)]>>, <<[re |-> Hex8(i), im |-> Hex8(0)]>>, <<[x |-> Hex2(i)], [x |-> Hex2(9)]>>>>]
SType == DTS(<<Fld(<<98>>, DT("int64")), Fld(<<97, 47>>, DT("complex64")), [nm |-> <<99>>, d |-> DT("int8"), sh |-> <<2>>]>>)
TypeOf(n) == IF n = "struct" THEN SType ELSE DT(n)
ArrayValues == {Arr(c, TypeOf(n), sh, [i \in 1..Prod(sh) |-> Elem(n, i)]) :
                  c \in {"ndarray"}, sh \in Shapes, n \in {"bool", "int8", "uint16", "float64", "complex64", "object", "struct"}}
               \cup {Arr("recarray", SType, sh, [i \in 1..Prod(sh) |-> Elem("struct", i)]) : sh \in {<<1>>, <<2>>}}
               \cup {Scal(TypeOf(n), Elem(n, 3)) : n \in {"bool", "int8", "uint16", "float64", "complex64", "struct"}}

Leaf == {[k |-> "none"], [k |-> "pybool", x |-> "01"], [k |-> "int", x |-> Hex16(7), b |-> <<>>],
         [k |-> "int", x |-> "", b |-> <<49, 50>>], PyStr(<<>>), PyStr(<<97>>), [k |-> "pybytes", b |-> <<0>>],
         Scal(DT("int8"), [x |-> "05"]), Arr("ndarray", DT("float64"), <<0, 2>>, <<>>)}
Boxes(S) == {[k |-> c, os |-> s] : c \in {"list", "tuple", "deque"}, s \in {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}}
SmallLeaf == {[k |-> "none"], PyStr(<<97>>), Scal(DT("int8"), [x |-> "05"])}
OneObj(a) == Arr("ndarray", DTS(<<Fld(<<97>>, DT("object"))>>), <<1>>, <<[r |-> <<<<[o |-> a]>>>>]>>)
TwoObj(a, b) == Arr("ndarray", DTS(<<Fld(<<97>>, DT("object"))>>), <<2>>, <<[r |-> <<<<[o |-> a]>>>>], [r |-> <<<<[o |-> b]>>>>]>>)
ContainerValues == Boxes(Leaf)
                   \cup {[k |-> "list", os |-> <<a>>] : a \in Boxes(SmallLeaf)}
                   \cup {[k |-> "set", os |-> <<a>>] : a \in SmallLeaf}
                   \cup {OneObj(a) : a \in Leaf} \cup {TwoObj(a, b) : a, b \in SmallLeaf}
                   \cup {[k |-> "obj", ty |-> "slice", an |-> <<<<115>>, <<116>>>>, os |-> <<a, b>>] : a, b \in SmallLeaf}

Keys == {PyStr(<<97>>), PyStr(<<98>>), PyStr(<<>>), PyStr(<<46, 47>>), PyStr(<<92>>), PyStr(<<0>>), PyStr(<<233>>), PyStr(<<55357>>),
         [k |-> "pybytes", b |-> <<97>>], [k |-> "pybytes", b |-> <<255>>], StrScal(<<99>>), BytesScal(<<97>>),
         [k |-> "int", x |-> Hex16(1), b |-> <<>>], [k |-> "tuple", os |-> <<PyStr(<<97>>)>>]}
DictValues == {[k |-> c, ks |-> <<>>, os |-> <<>>] : c \in DictKinds}
              \cup {[k |-> "dict", ks |-> <<a>>, os |-> <<v>>] : a \in Keys, v \in SmallLeaf}
              \cup {[k |-> c, ks |-> <<p[1], p[2]>>, os |-> <<[k |-> "int", x |-> Hex16(1), b |-> <<>>], PyStr(<<98>>)>>] :
                      c \in {"dict", "odict"}, p \in {q \in Keys \X Keys : q[1] # q[2]}}
              \cup {[k |-> "dict", ks |-> <<PyStr(<<97>>)>>, os |-> <<[k |-> "dict", ks |-> <<a>>, os |-> <<PyStr(<<>>)>>]>>] : a \in Keys}

F16 == Scal(DT("float16"), [x |-> "3c00"])
BadV == [k |-> "bad"]
Wrap(v) == {v, [k |-> "list", os |-> <<v, PyStr(<<97>>)>>], [k |-> "dict", ks |-> <<PyStr(<<97>>), PyStr(<<98>>)>>, os |-> <<v, PyStr(<<97>>)>>],
            OneObj(v), TwoObj(v, PyStr(<<97>>)), Arr("ndarray", DT("object"), <<1, 2>>, <<[o |-> PyStr(<<97>>)], [o |-> v]>>)}
IncompatibleValues == UNION {Wrap(w) : w \in Wrap(F16) \cup Wrap(BadV)}

Values == CASE Part = "text" -> TextValues [] Part = "arrays" -> ArrayValues [] Part = "containers" -> ContainerValues
            [] Part = "dicts" -> DictValues [] OTHER -> IncompatibleValues

Base == [spm |-> TRUE, mc |-> FALSE, act |-> "error", dele |-> TRUE, strct |-> TRUE, at2d |-> TRUE, b16 |-> TRUE, s16 |-> TRUE,
         bu8 |-> TRUE, rev |-> TRUE, ssfe |-> TRUE, sd |-> FALSE, cn |-> <<<<114>>, <<105>>>>, oned |-> "row",
         kn |-> <<107>>, vn |-> <<118, 47>>, comp |-> TRUE, thr |-> 8, alg |-> "gzip", lv |-> 7, shf |-> TRUE, cf32 |-> TRUE, uf32 |-> FALSE]
Matlab == [Base EXCEPT !.mc = TRUE, !.cn = <<<<114, 101, 97, 108>>, <<105, 109, 97, 103>>>>]
Acts == {"error", "ignore", "discard"}
Plain == IF Wide
         THEN {[Base EXCEPT !.strct = s, !.at2d = a, !.b16 = t, !.s16 = t2, !.bu8 = u, !.rev = r, !.ssfe = e, !.oned = d] :
                 s, a, t, t2, u, r, e \in BOOLEAN, d \in {"row", "column"}}
         ELSE {[Base EXCEPT !.strct = s, !.at2d = a, !.b16 = t, !.s16 = t, !.bu8 = s, !.rev = r, !.ssfe = e, !.oned = IF t THEN "row" ELSE "column",
                            !.cn = IF e THEN @ ELSE <<<<120>>, <<121>>>>] : s, a, t, r, e \in BOOLEAN}
Opts == Plain \cup {[Matlab EXCEPT !.act = a, !.oned = d, !.spm = m] : a \in Acts, d \in {"row", "column"}, m \in BOOLEAN}

None == [t |-> "unwritten"]
Init == val \in Values /\ opt \in Opts /\ node = Discarded /\ back = NoV /\ pc = "start"
Write == /\ pc = "start"
         /\ node' = Encode(val, opt) /\ pc' = "written"
         /\ UNCHANGED <<val, opt, back>>
Read == /\ pc = "written" /\ node.st = "ok"
        /\ back' = Decode(node.nd, opt) /\ pc' = "read"
        /\ UNCHANGED <<val, opt, node>>
Next == Write \/ Read

(* ------------------------------ properties -------------------------------- *)
RECURSIVE Lossy(_)      \* holds something that is left out or cannot be written
Lossy(v) == v.k = "bad" \/ (v.k = "arr" /\ v.d.n = "float16")
            \/ ("os" \in DOMAIN v /\ \E i \in 1..Len(v.os) : Lossy(v.os[i]))
            \/ ("ks" \in DOMAIN v /\ \E i \in 1..Len(v.ks) : Lossy(v.ks[i]))
            \/ (v.k = "arr" /\ v.d.n = "object" /\ \E i \in 1..Len(v.da) : Lossy(v.da[i].o))
            \/ (v.k = "arr" /\ v.d.n = "struct" /\ \E i \in 1..Len(v.da), j \in 1..Len(v.d.f) :
                  v.d.f[j].d.n = "object" /\ \E m \in 1..Len(v.da[i].r[j]) : Lossy(v.da[i].r[j][m].o))

\* C01
RoundTrip == pc = "read" /\ opt.spm /\ (opt.mc /\ opt.act = "discard" => ~Lossy(val))
             => back.ok /\ Same(val, back.v)
\* C04: whatever was written can be read
Readable == pc = "read" => back.ok
\* C02
MatlabForm == pc # "start" /\ node.st = "ok" /\ opt.mc => MatForm(node.nd, opt) = {}
\* C03: the metadata only adds attributes
RECURSIVE Strip(_)
StripAt(at) == {a \in at : ~(Len(a.nm) > 6 /\ SubSeq(a.nm, 1, 7) = "Python.")}
Strip(nd) == IF nd.t = "D"
             THEN [nd EXCEPT !.at = StripAt(@), !.da = IF nd.d.n = "ref" THEN SMap(@, LAMBDA e : [rf |-> Strip(e.rf)]) ELSE @]
             ELSE [nd EXCEPT !.at = StripAt(@), !.it = SMap(@, LAMBDA x : [nm |-> x.nm, nd |-> Strip(x.nd)])]
MetadataOnlyAdds == pc # "start" /\ node.st = "ok" /\ opt.spm
                    => LET x == Encode(val, [opt EXCEPT !.spm = FALSE])
                       IN x.st = "ok" /\ x.nd = Strip(node.nd)
\* C07
Policy == pc # "start" =>
          /\ (node.st = "none" => opt.mc /\ opt.act = "discard" /\ Lossy(val))
          /\ (node.st = "err" => Lossy(val))
          /\ (node.st = "err" /\ node.er = "TypeNotMatlabCompatibleError" => opt.mc /\ opt.act = "error")
          /\ (~Lossy(val) => node.st = "ok")
\* C15
KeysKept == pc # "start" /\ node.st = "ok" /\ val.k \in DictKinds /\ ~(opt.mc /\ opt.act = "discard")
            => Len(node.nd.it) = IF StoredIndividually(val.ks) THEN Len(val.ks) ELSE 2
\* C17
RECURSIVE Filtered(_)
Filtered(nd) == IF nd.t = "G" THEN \A i \in 1..Len(nd.it) : Filtered(nd.it[i].nd)
                ELSE (nd.sh = <<>> => nd.fl = NoFilter)
                     /\ (nd.d.n = "ref" => \A i \in 1..Len(nd.da) : nd.da[i].rf = CanonicalEmpty \/ Filtered(nd.da[i].rf))
FilterForm == pc # "start" /\ node.st = "ok" => Filtered(node.nd)
=============================================================================

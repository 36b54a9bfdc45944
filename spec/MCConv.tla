-------------------------------- MODULE MCConv -------------------------------
(* The laws of the conversions, for all short arrays of short texts.          *)
EXTENDS HConv
CONSTANTS Bound
VARIABLES es      \* a sequence of texts

Chars == {0, 97, 128, 233, 2048, 19968, 55296, 56320, 57344, 65279, 65535, 65536, 1114111}
Init == es = <<>>
Size == FoldLeft(LAMBDA a, b : a + 1 + Len(b), 0, es)
Next == /\ Size < Bound
        /\ \/ es' = Append(es, <<>>)
           \/ Len(es) > 0 /\ \E c \in Chars : es' = [es EXCEPT ![Len(es)] = Append(@, c)]

L == MaxOf({Len(es[i]) : i \in 1..Len(es)} \cup {1})
Shapes == {<<Len(es)>>} \cup {<<1, Len(es)>>, <<Len(es), 1>>} \cup (IF Len(es) = 1 THEN {<<>>} ELSE {})
          \cup (IF Len(es) > 0 /\ (Len(es) % 2) = 0 THEN {<<2, Len(es) \div 2>>, <<Len(es) \div 2, 2>>} ELSE {})
Arr(sh) == [k |-> "arr", d |-> "U", l |-> L, sh |-> sh, da |-> [i \in 1..Len(es) |-> PadTo(es[i], L, 0)]]
Back(sh) == IF sh = <<>> THEN <<1>> ELSE sh
AllEnc == \A i \in 1..Len(es) : Encodable(es[i])
Same(v, sh) == v.ok /\ v.v.sh = sh /\ v.v.d = "U" /\ v.v.da = [i \in 1..Len(es) |-> RStrip(es[i])]
\* each form of an array of texts gives the array back
Via32 == Len(es) > 0 => \A sh \in Shapes : LET x == ToUnits32(Arr(sh)) IN x.ok /\ Same(ToNpStr(x.v, L), Back(sh))
Via16 == Len(es) > 0 => \A sh \in Shapes :
           LET x == ToUnits16(Arr(sh))
               n == Len(x.v.da) \div Len(es)
           IN x.ok = AllEnc /\ (x.ok => Same(ToNpStr(x.v, n), Back(sh)))
ViaBytes == Len(es) > 0 => \A sh \in Shapes :
           LET x == ToNpBytes(Arr(sh), 0) IN x.ok = \A i \in 1..Len(es) : Encodable(es[i])
                                             /\ (x.ok => Same(ToNpStr(x.v, 0), sh))
\* single texts
One(u) == /\ ToStr(NStr(u)) = Res(Str(u)) /\ ToNpStr(Str(u), 0) = Res(NStr(u))
          /\ LET b == ToNpBytes(Str(u), 0)
             IN b.ok = Encodable(u) /\ (b.ok => ToStr(b.v) = Res(Str(u)) /\ ToStr([k |-> "bytes", b |-> b.v.b]) = Res(Str(u)))
          /\ (Encodable(u) /\ Len(u) > 0) =>
               /\ ToStr([k |-> "arr", d |-> "u16", l |-> 0, sh |-> <<Len(Utf16Enc(u))>>, da |-> Utf16Enc(u)]) = Res(Str(u))
               /\ ToStr([k |-> "arr", d |-> "u32", l |-> 0, sh |-> <<Len(u)>>, da |-> u]) = Res(Str(u))
               /\ ToStr([k |-> "arr", d |-> "u8", l |-> 0, sh |-> <<Len(Utf8Enc(u))>>, da |-> Utf8Enc(u)]) = Res(Str(u))
Singles == \A i \in 1..Len(es) : One(es[i])
\* code units that are not text are refused; all others give text that encodes to them
Exact == \A i \in 1..Len(es) : LET d == Utf16Dec(es[i]) e == Utf32Dec(es[i])
                               IN SAll(es[i], LAMBDA c : c < 65536) => (d.ok => Utf16Enc(d.u) = es[i]) /\ (e.ok <=> Encodable(es[i]))
=============================================================================

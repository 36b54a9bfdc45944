-------------------------------- MODULE HConv --------------------------------
(* The conversions of text between its forms.  A form is                      *)
(*   [k:"str", u]  Python text            [k:"bytes", b]   Python bytes       *)
(*   [k:"npstr", u], [k:"npbytes", b]     NumPy scalars                       *)
(*   [k:"uint", n, x]                     NumPy unsigned integer of n bits    *)
(*   [k:"arr", d, l, sh, da]              array of "u8","u16","u32","S","U";  *)
(*        da: numbers, or bytes or text padded to length l                    *)
(*   [k:"other"]                          anything else                       *)
(* Results have ok and a form v, or er: the error.                            *)
EXTENDS HText

Prod(sh) == FoldLeft(LAMBDA a, b : a * b, 1, sh)
Err(e) == [ok |-> FALSE, er |-> e, v |-> [k |-> "other"]]
Res(v) == [ok |-> TRUE, er |-> "", v |-> v]
TextRes(d, V(_)) == IF d.ok THEN Res(V(d.u)) ELSE Err("ValueError")
Str(u) == [k |-> "str", u |-> u]
NStr(u) == [k |-> "npstr", u |-> u]
NBytes(b) == [k |-> "npbytes", b |-> b]

\* integers of n bits that are the codes of text, with as many nulls as there are
DecBits(n, xs) == CASE n = 8 -> Utf8Dec(xs) [] n = 16 -> Utf16Dec(xs) [] n = 32 -> Utf32Dec(xs)
Bits(d) == CASE d = "u8" -> 8 [] d = "u16" -> 16 [] d = "u32" -> 32

(* ------------------------------- to Python text --------------------------- *)
ToStr(x) ==
  CASE x.k = "str"     -> Res(x)
    [] x.k = "npstr"   -> Res(Str(x.u))
    [] x.k \in {"bytes", "npbytes"} -> TextRes(Utf8Dec(x.b), Str)
    [] x.k = "uint" /\ x.n <= 32 -> TextRes(DecBits(x.n, <<x.x>>), Str)
    [] x.k = "arr" /\ x.d = "S" -> TextRes(Utf8Dec(SFlat(x.da)), Str)
    [] x.k = "arr" /\ x.d = "U" -> TextRes(Utf32Dec(SFlat(x.da)), Str)
    [] x.k = "arr" /\ x.d \in {"u8", "u16", "u32"} -> TextRes(DecBits(Bits(x.d), x.da), Str)
    [] OTHER -> Err("TypeError")

(* --------------------------- arrays of code units ------------------------- *)
\* length 0: the whole row
RowLen(x, len) == IF len > 0 THEN len ELSE x.sh[Len(x.sh)]
Groupable(x, len) == Len(x.sh) > 0 /\ Prod(x.sh) > 0 /\ (len = 0 \/ (x.sh[Len(x.sh)] % len) = 0)
GroupShape(x, len) == [i \in 1..Len(x.sh) |-> IF i = Len(x.sh) THEN x.sh[i] \div RowLen(x, len) ELSE x.sh[i]]
GroupsOf(x, len) == LET n == RowLen(x, len) IN [i \in 1..(Len(x.da) \div n) |-> SubSeq(x.da, (i - 1) * n + 1, i * n)]

\* an array of decoded elements es ([ok, u])
ArrOf(d, sh, es) == IF \A i \in 1..Len(es) : es[i].ok
                    THEN Res([k |-> "arr", d |-> d, l |-> 0, sh |-> sh, da |-> [i \in 1..Len(es) |-> RStrip(es[i].u)]])
                    ELSE Err("ValueError")
\* UTF-32 may hold lone surrogates
Dec32(xs) == IF SAny(xs, LAMBDA c : c > MaxCP) THEN Bad ELSE Good(xs)
DecArr(d, xs) == IF d = "u32" THEN Dec32(xs) ELSE DecBits(Bits(d), xs)
EncB(u) == IF Encodable(u) THEN Good(Utf8Enc(u)) ELSE Bad

\* an array without dimensions is its element
Scalar(x) == IF x.k = "arr" /\ x.d \in {"u8", "u16", "u32"} /\ x.sh = <<>> THEN [k |-> "uint", n |-> Bits(x.d), x |-> x.da[1]] ELSE x
Anything(d) == Res([k |-> "empty", d |-> d])     \* nothing converted is any array without text

ToNpStr(y, len) ==
 LET x == Scalar(y) IN
  CASE x.k = "str" -> Res(NStr(x.u))
    [] x.k = "npstr" -> Res(x)
    [] x.k \in {"bytes", "npbytes"} -> TextRes(Utf8Dec(x.b), NStr)
    [] x.k = "uint" /\ x.n <= 16 -> TextRes(DecBits(x.n, <<x.x>>), LAMBDA u : NStr(RStrip(u)))
    [] x.k = "uint" /\ x.n = 32 -> TextRes(Dec32(<<x.x>>), LAMBDA u : NStr(RStrip(u)))
    [] x.k = "arr" /\ x.d = "U" -> ArrOf("U", x.sh, [i \in 1..Len(x.da) |-> Good(x.da[i])])
    [] x.k = "arr" /\ x.d = "S" -> ArrOf("U", x.sh, [i \in 1..Len(x.da) |-> Utf8Dec(RStrip(x.da[i]))])
    [] x.k = "arr" /\ x.d \in {"u8", "u16", "u32"} ->
         IF Prod(x.sh) = 0 THEN Anything("U")
         ELSE ArrOf("U", GroupShape(x, len), [i \in 1..Len(GroupsOf(x, len)) |-> DecArr(x.d, GroupsOf(x, len)[i])])
    [] OTHER -> Err("TypeError")

ToNpBytes(y, len) ==
 LET x == Scalar(y) IN
  CASE x.k \in {"str", "npstr"} -> TextRes(EncB(x.u), NBytes)
    [] x.k = "bytes" -> Res(NBytes(x.b))
    [] x.k = "npbytes" -> Res(x)
    [] x.k = "uint" /\ x.n = 8 -> Res(NBytes(RStrip(<<x.x>>)))
    [] x.k = "uint" /\ x.n \in {16, 32} -> LET d == DecBits(x.n, <<x.x>>) IN IF d.ok THEN Res(NBytes(Utf8Enc(d.u))) ELSE Err("ValueError")
    [] x.k = "arr" /\ x.d = "S" -> ArrOf("S", x.sh, [i \in 1..Len(x.da) |-> Good(x.da[i])])
    [] x.k = "arr" /\ x.d = "U" -> ArrOf("S", x.sh, [i \in 1..Len(x.da) |-> EncB(RStrip(x.da[i]))])
    [] x.k = "arr" /\ x.d = "u8" ->
         IF Prod(x.sh) = 0 THEN Anything("S")
         ELSE ArrOf("S", GroupShape(x, len), [i \in 1..Len(GroupsOf(x, len)) |-> Good(GroupsOf(x, len)[i])])
    [] x.k = "arr" /\ x.d \in {"u16", "u32"} ->
         IF Prod(x.sh) = 0 THEN Anything("S")
         ELSE ArrOf("S", GroupShape(x, len), [i \in 1..Len(GroupsOf(x, len)) |->
                LET d == DecBits(Bits(x.d), GroupsOf(x, len)[i]) IN IF d.ok THEN Good(Utf8Enc(d.u)) ELSE Bad])
    [] OTHER -> Err("TypeError")

(* --------------------------- to code units -------------------------------- *)
\* NumPy strings laid out along the rows, each as long as the longest one and
\* at least the length of the strings
Units(d, n, sh, es) ==
  [k |-> "arr", d |-> d, l |-> 0,
   sh |-> IF sh = <<>> THEN <<n>> ELSE [i \in 1..Len(sh) |-> IF i = Len(sh) THEN sh[i] * n ELSE sh[i]],
   da |-> SFlat([i \in 1..Len(es) |-> PadTo(es[i], n, 0)])]
EmptyUnits(d) == [k |-> "arr", d |-> d, l |-> 0, sh |-> <<0>>, da |-> <<>>]
ToUnits16(x) ==
  LET es == IF x.k = "npstr" THEN <<x.u>> ELSE x.da
      sh == IF x.k = "npstr" THEN <<>> ELSE x.sh
      l  == IF x.k = "npstr" THEN Len(x.u) ELSE x.l
      ws == [i \in 1..Len(es) |-> Utf16Enc(RStrip(es[i]))]
      n == MaxOf({Len(ws[i]) : i \in 1..Len(ws)} \cup {l})
  IN IF Len(es) = 0 \/ l = 0 THEN Res(EmptyUnits("u16"))
     ELSE IF SAny(es, LAMBDA u : ~Encodable(u)) THEN Err("ValueError")
     ELSE Res(Units("u16", n, sh, ws))
ToUnits32(x) ==
  LET es == IF x.k = "npstr" THEN <<x.u>> ELSE x.da
      sh == IF x.k = "npstr" THEN <<>> ELSE x.sh
      l  == IF x.k = "npstr" THEN Len(x.u) ELSE x.l
  IN IF Len(es) = 0 \/ l = 0 THEN Res(EmptyUnits("u32")) ELSE Res(Units("u32", l, sh, es))
=============================================================================

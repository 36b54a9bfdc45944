-------------------------------- MODULE HText --------------------------------
(* Text: code points, UTF-8, UTF-16 and UTF-32.  Text is a sequence of code   *)
(* points, bytes are a sequence of 0..255, code units a sequence of numbers.  *)
(* Python allows lone surrogates in text but refuses to encode them.          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

IsSurr(c)   == c >= 55296 /\ c <= 57343       \* D800..DFFF
IsHiSurr(c) == c >= 55296 /\ c <= 56319
IsLoSurr(c) == c >= 56320 /\ c <= 57343
MaxCP == 1114111

SAll(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
SAny(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
SMap(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
SFlat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Rep(c, n) == [i \in 1..n |-> c]
PadTo(s, n, z) == IF Len(s) >= n THEN s ELSE s \o Rep(z, n - Len(s))

RECURSIVE RStrip(_)                            \* drop trailing nulls
RStrip(s) == IF Len(s) = 0 \/ s[Len(s)] # 0 THEN s ELSE RStrip(SubSeq(s, 1, Len(s) - 1))

MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* ------------------------------ encoding ---------------------------------- *)
Encodable(u) == ~SAny(u, IsSurr)

Utf8One(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Enc(u) == SFlat(SMap(u, Utf8One))

Utf16One(c) == IF c < 65536 THEN <<c>>
               ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Utf16Enc(u) == SFlat(SMap(u, Utf16One))

(* ------------------------------ decoding ---------------------------------- *)
Bad == [ok |-> FALSE, u |-> <<>>]
Good(u) == [ok |-> TRUE, u |-> u]

Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] <= 191
Utf8Step(b, i) ==            \* [n, c]: length and code point at i, n = 0 if invalid
  LET x == b[i] IN
  IF x < 128 THEN [n |-> 1, c |-> x]
  ELSE IF x >= 194 /\ x <= 223 /\ Cont(b, i+1)
       THEN [n |-> 2, c |-> (x - 192) * 64 + b[i+1] - 128]
  ELSE IF x >= 224 /\ x <= 239 /\ Cont(b, i+1) /\ Cont(b, i+2)
       THEN LET c == (x - 224) * 4096 + (b[i+1] - 128) * 64 + b[i+2] - 128
            IN IF c < 2048 \/ IsSurr(c) THEN [n |-> 0, c |-> 0] ELSE [n |-> 3, c |-> c]
  ELSE IF x >= 240 /\ x <= 244 /\ Cont(b, i+1) /\ Cont(b, i+2) /\ Cont(b, i+3)
       THEN LET c == (x - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + b[i+3] - 128
            IN IF c < 65536 \/ c > MaxCP THEN [n |-> 0, c |-> 0] ELSE [n |-> 4, c |-> c]
  ELSE [n |-> 0, c |-> 0]

RECURSIVE Utf8DecFrom(_, _, _)
Utf8DecFrom(b, i, acc) ==
  IF i > Len(b) THEN Good(acc)
  ELSE LET s == Utf8Step(b, i)
       IN IF s.n = 0 THEN Bad ELSE Utf8DecFrom(b, i + s.n, Append(acc, s.c))
Utf8Dec(b) == Utf8DecFrom(b, 1, <<>>)

RECURSIVE Utf16DecFrom(_, _, _)
Utf16DecFrom(w, i, acc) ==
  IF i > Len(w) THEN Good(acc)
  ELSE IF IsHiSurr(w[i])
       THEN IF i < Len(w) /\ IsLoSurr(w[i+1])
            THEN Utf16DecFrom(w, i + 2,
                   Append(acc, 65536 + (w[i] - 55296) * 1024 + (w[i+1] - 56320)))
            ELSE Bad
       ELSE IF IsLoSurr(w[i]) THEN Bad
       ELSE Utf16DecFrom(w, i + 1, Append(acc, w[i]))
Utf16Dec(w) == Utf16DecFrom(w, 1, <<>>)

Utf32Dec(w) == IF SAny(w, LAMBDA c : c > MaxCP \/ IsSurr(c)) THEN Bad ELSE Good(w)

(* ----------------------------- hexadecimal -------------------------------- *)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex2(n) == HexDigit[((n \div 16) % 16) + 1] \o HexDigit[(n % 16) + 1]
Hex4(n) == Hex2(n \div 256) \o Hex2(n % 256)
Hex8(n) == Hex4(n \div 65536) \o Hex4(n % 65536)
Hex16(n) == "00000000" \o Hex8(n)
=============================================================================

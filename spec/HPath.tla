-------------------------------- MODULE HPath --------------------------------
(* Escaping of names and the forms of paths.  All text is code points.        *)
EXTENDS HText, TLC

NUL == 0   DOT == 46   SLASH == 47   BSL == 92

IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexChr(n) == IF n < 10 THEN 48 + n ELSE 87 + n

(* ------------------------------- escaping --------------------------------- *)
RECURSIVE LeadDots(_)
LeadDots(u) == IF Len(u) = 0 \/ u[1] # DOT THEN 0 ELSE 1 + LeadDots(Tail(u))

EscChar(c) == IF c = NUL   THEN <<BSL, 120, 48, 48>>          \* \x00
              ELSE IF c = SLASH THEN <<BSL, 120, 50, 102>>    \* \x2f
              ELSE IF c = BSL   THEN <<BSL, BSL>>
              ELSE <<c>>
Escape(u) == LET k == LeadDots(u)
             IN SFlat(Rep(<<BSL, 120, 50, 101>>, k)) \o SFlat(SMap(SubSeq(u, k + 1, Len(u)), EscChar))

EscLen(c) == IF c = 120 THEN 2 ELSE IF c = 117 THEN 4 ELSE IF c = 85 THEN 8 ELSE 0

\* the value is checked digit by digit as TLC integers have 32 bits
RECURSIVE HexRun(_, _, _, _)
HexRun(u, i, n, acc) == IF n = 0 THEN acc
                        ELSE HexRun(u, i + 1, n - 1, IF acc > MaxCP THEN acc ELSE acc * 16 + HexVal(u[i]))

RECURSIVE UnescFrom(_, _, _)
UnescFrom(u, i, acc) ==
  IF i > Len(u) THEN Good(acc)
  ELSE IF u[i] # BSL THEN UnescFrom(u, i + 1, Append(acc, u[i]))
  ELSE IF i = Len(u) THEN Bad
  ELSE IF u[i+1] = BSL THEN UnescFrom(u, i + 2, Append(acc, BSL))
  ELSE LET n == EscLen(u[i+1])
       IN IF n = 0 \/ i + 1 + n > Len(u) \/ \E j \in (i+2)..(i+1+n) : ~IsHex(u[j])
          THEN Bad
          ELSE LET c == HexRun(u, i + 2, n, 0)
               IN IF c > MaxCP THEN Bad ELSE UnescFrom(u, i + 2 + n, Append(acc, c))
Unescape(u) == UnescFrom(u, 1, <<>>)

(* ------------------------------- POSIX paths ------------------------------ *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(u, i, cur, acc) ==
  IF i > Len(u) THEN Append(acc, cur)
  ELSE IF u[i] = SLASH THEN SplitFrom(u, i + 1, <<>>, Append(acc, cur))
  ELSE SplitFrom(u, i + 1, Append(cur, u[i]), acc)
Split(u) == SplitFrom(u, 1, <<>>, <<>>)

\* components of a path after removal of empty ones, '.' and '..', taken from the root
RECURSIVE NormComps(_, _)
NormComps(cs, acc) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs) IN
       IF c = <<>> \/ c = <<DOT>> THEN NormComps(Tail(cs), acc)
       ELSE IF c = <<DOT, DOT>>
            THEN NormComps(Tail(cs), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
       ELSE NormComps(Tail(cs), Append(acc, c))

\* What a path names: the sequence of names of nested groups down from the root.
\* A relative path that goes above its start (leading '..') is taken from the root too.
Resolve(u) == NormComps(Split(u), <<>>)

JoinSlash(cs) == IF cs = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA a, b : a \o <<SLASH>> \o b, Head(cs), Tail(cs))

\* the components of a separated path are literal; empty ones are nothing
ResolveSep(comps) == SelectSeq([i \in 1..Len(comps) |-> Escape(comps[i])], LAMBDA c : c # <<>>)

(* ------------------------------ path forms -------------------------------- *)
\* the forms of a path: [f:"text", u], [f:"bytes", b], [f:"sep", cs], [f:"bad"]
TextErr(u) == SAny(u, IsSurr) \/ SAny(u, LAMBDA c : c = NUL)
PathErr(q) ==     \* the error a path raises, or ""
  CASE q.f = "text" -> IF TextErr(q.u) THEN "ValueError" ELSE ""
    [] q.f = "bytes" -> LET d == Utf8Dec(q.b) IN IF ~d.ok \/ TextErr(d.u) THEN "ValueError" ELSE ""
    [] q.f = "sep" -> IF q.cs = <<>> THEN "TypeError" ELSE IF SAny(q.cs, LAMBDA u : SAny(u, IsSurr)) THEN "ValueError" ELSE ""
    [] q.f = "undec" -> "ValueError"      \* bytes in it are not text
    [] OTHER -> "TypeError"
PathOf(q) == CASE q.f = "text" -> Resolve(q.u)
               [] q.f = "bytes" -> Resolve(Utf8Dec(q.b).u)
               [] OTHER -> ResolveSep(q.cs)
=============================================================================

-------------------------------- MODULE HSave --------------------------------
(* savemat and loadmat: variables kept in the MAT files of a directory.       *)
EXTENDS HStore

\* ".mat"
Ext == <<46, 109, 97, 116>>
EndsWith(u, x) == Len(u) >= Len(x) /\ SubSeq(u, Len(u) - Len(x) + 1, Len(u)) = x
Target(nm, app) == IF app /\ ~EndsWith(nm, Ext) THEN nm \o Ext ELSE nm

\* the format decides who does it: SciPy writes 4 and 5
Foreign(fmt) == fmt \in {"4", "5"}

\* the variables loading gives: a sequence of [k, v]; keys are the texts of the names
LoadKnown(tree, s) == LET ns == TopNames(tree, s) IN \A i \in 1..Len(ns) : ReadAt(tree, <<ns[i]>>, s).known /\ Unescape(ns[i]).ok
LoadAll(tree, s) ==
  LET ns == TopNames(tree, s)
      last(i) == ~\E m \in (i + 1)..Len(ns) : Unescape(ns[m]).u = Unescape(ns[i]).u
      I == SelectSeq([i \in 1..Len(ns) |-> i], last)
  IN SMap(I, LAMBDA i : [k |-> Unescape(ns[i]).u, v |-> ReadAt(tree, <<ns[i]>>, s).v])

\* one of the variables asked for: what is not there or cannot be read is left out
LoadOne(tree, s, q) ==
  IF PathErr(q) # "" THEN [t |-> "none"]
  ELSE IF Rejects(s, <<q>>, FALSE) # {} \/ ~Exists(tree, PathOf(q)) THEN [t |-> "none"]
  ELSE LET r == ReadAt(tree, PathOf(q), s) IN IF r.known THEN [t |-> "value", v |-> r.v] ELSE [t |-> "unknown"]
=============================================================================

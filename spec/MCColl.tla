-------------------------------- MODULE MCColl -------------------------------
(* Histories of one collection, kept as tables that are made anew with every  *)
(* change and looked into by lookups, give what HColl says.                   *)
EXTENDS HColl
CONSTANTS Depth           \* how many operations
VARIABLES c, ld, tab, last, n

\* modules: "g" and "h" can be imported, "b" breaks; "x" is not there
Mods == [g |-> [anc |-> <<>>, good |-> TRUE], b |-> [anc |-> <<>>, good |-> FALSE], s |-> [anc |-> <<"g">>, good |-> TRUE]]
M == <<[ty |-> <<"t", "u">>, ts |-> <<"t">>, mc |-> <<>>, par |-> <<>>, req |-> <<>>],                    \* builtin
       [ty |-> <<"t", "v">>, ts |-> <<"v">>, mc |-> <<>>, par |-> <<"g">>, req |-> <<"g", "s">>],         \* plugin
       [ty |-> <<"v", "t">>, ts |-> <<"t", "v">>, mc |-> <<>>, par |-> <<"b">>, req |-> <<"s", "b">>],    \* user
       [ty |-> <<"w", "t">>, ts |-> <<>>, mc |-> <<>>, par |-> <<"x">>, req |-> <<"x">>],
       [ty |-> <<"w", "v">>, ts |-> <<"w">>, mc |-> <<>>, par |-> <<"g">>, req |-> <<"g", "b">>]>>
User == {3, 4, 5}
Kinds == {"type", "string"}
Things == {"t", "u", "v", "w", "z"}

\* the tables: for each key the first position that has it; what is known of the modules of each position
Table(o, l) == [first |-> [k \in Kinds |-> [t \in Things |->
                             LET s == {i \in 1..Len(o) : Contains(Keys(M[o[i]], k), t)}
                             IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j]],
                have  |-> [i \in 1..Len(o) |-> Present(Mods, l, M[o[i]])],
                got   |-> [i \in 1..Len(o) |-> Present(Mods, l, M[o[i]]) /\ \A j \in 1..Len(M[o[i]].req) : M[o[i]].req[j] \in l],
                o     |-> o]
\* one after another, for collections that are not lazy
RECURSIVE Load(_, _, _, _)
Load(o, l, i, t) == IF i > Len(o) THEN [t |-> t, l |-> l]
                    ELSE IF ~t.have[i] \/ t.got[i] THEN Load(o, l, i + 1, t)
                    ELSE LET r == ImportAll(Mods, l, M[o[i]].req)
                         IN Load(o, r.ld, i + 1, [t EXCEPT !.have[i] = r.ok, !.got[i] = r.ok])
Make(x, l) == LET t == Table(Order(x), l) IN IF x.lazy THEN [t |-> t, l |-> l] ELSE Load(Order(x), l, 1, t)

Prs == {p \in [1..3 -> Sections] : {p[i] : i \in 1..3} = Sections}
None == [op |-> "", by |-> "type", key |-> "z", m |-> 0, has |-> FALSE, ld |-> {}, c |-> <<>>]
Init == \E p \in Prs, z \in BOOLEAN :
          LET x == [pr |-> p, lazy |-> z, bi |-> <<1>>, pl |-> <<2>>, us |-> <<>>]
              m == Make(x, {})
          IN c = x /\ ld = m.l /\ tab = m.t /\ last = None /\ n = 0
Change(x, op) == LET m == Make(x, ld)
                 IN c' = x /\ ld' = m.l /\ tab' = m.t /\ last' = [None EXCEPT !.op = op, !.ld = ld, !.c = <<c>>]
Lookup(by, key) ==
  LET i == tab.first[by][key]
  IN /\ c' = c
     /\ IF i = 0 THEN ld' = ld /\ tab' = tab /\ last' = [None EXCEPT !.op = "look", !.by = by, !.key = key, !.ld = ld, !.c = <<c>>]
        ELSE LET r == IF tab.got[i] THEN [ok |-> TRUE, ld |-> ld]
                      ELSE IF ~tab.have[i] THEN [ok |-> FALSE, ld |-> ld]
                      ELSE ImportAll(Mods, ld, M[tab.o[i]].req)
             IN /\ ld' = r.ld
                /\ tab' = IF tab.got[i] \/ ~tab.have[i] THEN tab ELSE [tab EXCEPT !.have[i] = r.ok, !.got[i] = r.ok]
                /\ last' = [op |-> "look", by |-> by, key |-> key, m |-> tab.o[i], has |-> r.ok, ld |-> ld, c |-> <<c>>]
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E u \in User : Change([c EXCEPT !.us = Added(@, <<u>>)], "add")
           \/ \E u, v \in User : Change([c EXCEPT !.us = Added(@, <<u, v>>)], "add")
           \/ \E u \in User : Change([c EXCEPT !.us = Removed(@, <<u>>)], "remove")
           \/ Change([c EXCEPT !.us = <<>>], "clear")
           \/ \E by \in Kinds, key \in Things : Lookup(by, key)

Same     == last.op = "look" => LET r == Look(M, Mods, last.ld, c, last.by, last.key)
                                IN last.m = r.m /\ last.has = r.has /\ ld = r.ld
Imports  == last.op \notin {"", "look"} => ld = Changed(M, Mods, last.ld, c)
\* what a lookup finds is the first that declares the key, and only lookups import if lazy
First    == last.op = "look" =>
              LET o == Order(c)
                  has(i) == Contains(Keys(M[o[i]], last.by), last.key)
              IN IF last.m = 0 THEN \A i \in 1..Len(o) : ~has(i)
                 ELSE \E i \in 1..Len(o) : o[i] = last.m /\ has(i) /\ \A j \in 1..(i-1) : ~has(j)
Lazy     == (c.lazy /\ last.op \notin {"", "look"}) => ld = last.ld
Sorted   == \A i, j \in 1..Len(c.us) : c.us[i] = c.us[j] => i = j
=============================================================================

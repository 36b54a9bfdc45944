-------------------------------- MODULE MCPath -------------------------------
(* The laws of names and paths, for all short strings of special characters.  *)
(* A state is a string u and, if it was put together from escapes, the string *)
(* w that they stand for (Part "tokens").                                     *)
EXTENDS HPath
CONSTANTS Part, Bound
VARIABLES u, w

Chars == CASE Part = "escape" -> {NUL, DOT, SLASH, BSL, 120, 50, 102, 233, 97}
           [] Part = "paths"  -> {DOT, SLASH, BSL, 97, 98}
           [] OTHER           -> {}
\* escapes and what they stand for; 2^21 and beyond are not characters
Tokens == {[t |-> <<c>>, c |-> <<c>>] : c \in {NUL, DOT, SLASH, 120, 117, 50, 102, 71}}
          \cup {[t |-> <<BSL, BSL>>, c |-> <<BSL>>],
                [t |-> <<BSL, 120, 48, 48>>, c |-> <<0>>], [t |-> <<BSL, 120, 50, 70>>, c |-> <<47>>], [t |-> <<BSL, 120, 53, 99>>, c |-> <<92>>],
                [t |-> <<BSL, 117, 48, 48, 50, 101>>, c |-> <<46>>], [t |-> <<BSL, 117, 68, 56, 48, 48>>, c |-> <<55296>>],
                [t |-> <<BSL, 85, 48, 48, 49, 48, 102, 102, 70, 70>>, c |-> <<1114111>>]}
Wrong == {<<BSL, 120, 50, 71>>, <<BSL, 97>>, <<BSL, 47>>, <<BSL, 117, 48, 48, 50, 120>>, <<BSL, 120, BSL, BSL>>,
          <<BSL, 85, 48, 48, 49, 49, 48, 48, 48, 48>>, <<BSL, 85, 102, 102, 102, 102, 102, 102, 102, 102>>, <<BSL, 88, 48, 48>>}

Init == u = <<>> /\ w = <<>>
Next == \/ Part # "tokens" /\ Len(u) < Bound /\ \E c \in Chars : u' = Append(u, c) /\ w' = w
        \/ Part = "tokens" /\ Len(w) < Bound /\ \E t \in Tokens : u' = u \o t.t /\ w' = w \o t.c

\* C13
Plain(x) == ~SAny(x, LAMBDA c : c = SLASH \/ c = NUL) /\ x # <<DOT>> /\ x # <<DOT, DOT>>
Lossless == Part = "escape" => Unescape(Escape(u)) = Good(u)
Safe     == Part = "escape" => Plain(Escape(u)) /\ (u = <<>> <=> Escape(u) = <<>>)
Decodes  == Part = "tokens" => Unescape(u) = Good(w)
\* something wrong makes all of it wrong, whatever is before and after it
Refuses  == Part = "tokens" => \A x \in Wrong : ~Unescape(u \o x).ok /\ ~Unescape(x \o u).ok

\* C14
Txt(x) == PathOf([f |-> "text", u |-> x])
Sep(cs) == PathOf([f |-> "sep", cs |-> cs])
Literal == Part = "escape" => /\ Sep(<<u>>) = (IF u = <<>> THEN <<>> ELSE <<Escape(u)>>)
                              /\ Txt(Escape(u)) = Sep(<<u>>)
                              /\ Sep(<<<<97>>, u>>) = Txt(<<97, SLASH>> \o Escape(u))
Redundant == Part = "paths" =>
  /\ Txt(<<SLASH>> \o u) = Txt(u) /\ Txt(<<DOT, SLASH>> \o u) = Txt(u) /\ Txt(u \o <<SLASH>>) = Txt(u)
  /\ Txt(<<DOT, DOT, SLASH>> \o u) = Txt(u) /\ Txt(<<99, SLASH, DOT, DOT, SLASH>> \o u) = Txt(u)
  /\ Txt(u \o <<SLASH, DOT>>) = Txt(u) /\ Txt(u \o <<SLASH, 99, SLASH, DOT, DOT>>) = Txt(u)
  /\ Txt(JoinSlash(Txt(u))) = Txt(u)
  /\ Txt(u \o <<SLASH, DOT, DOT>>) = (IF Txt(u) = <<>> THEN <<>> ELSE SubSeq(Txt(u), 1, Len(Txt(u)) - 1))
  /\ \A i \in 1..Len(Txt(u)) : Plain(Txt(u)[i]) /\ Txt(u)[i] # <<>>
=============================================================================

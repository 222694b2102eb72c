----------------------------- MODULE MCAudience -----------------------------
(***************************************************************************)
(* Audience comparison over all strings of up to MAX pieces (C06).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Pieces, MAX, EMIT
A == INSTANCE Audience

RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE LET W == Words(n - 1) IN W \cup {w \o p : w \in W, p \in Pieces}
Strs == Words(MAX)

VARIABLES s, t, set
vars == <<s, t, set>>
Init == s \in Strs /\ t = "" /\ set = FALSE
Next == ~set /\ set' = TRUE /\ t' \in Strs /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

Spellings(u) == {p \o u \o q : p \in {"", "http://", "https://"}, q \in {"", "/"}}
Bare(u) == ~A!Starts(u, "http://") /\ ~A!Starts(u, "https://") /\ ~A!Ends(u, "/")

\* the code's way gives the same core
SameCore == A!Norm(s) = A!NormByPositions(s)
\* nothing but one scheme and one slash is removed
OnlyThese == s \in Spellings(A!Norm(s))
\* and these always are
Always == (set /\ Bare(s)) => (A!Norm(t) = s) = (t \in Spellings(s))
\* one configured, one presented
OneOne == set => /\ A!Allowed(<<s>>, <<t>>) = (A!Norm(s) = A!Norm(t))
                 /\ A!Allowed(<<s>>, <<t>>) = A!Allowed(<<t>>, <<s>>)
                 /\ A!Allowed(<<s>>, <<t>>) = A!AllowedBySet(<<s>>, <<t>>)
                 /\ A!Allowed(<<s>>, <<s>>)
\* lists: some pair decides, in any place
Lists == set => /\ A!Allowed(<<>>, <<s, t>>) /\ A!Allowed(<<>>, <<>>)
                /\ ~A!Allowed(<<s, t>>, <<>>)
                /\ A!Allowed(<<s, "zz">>, <<"yy", t>>) = A!Allowed(<<s>>, <<t>>)
                /\ A!Allowed(<<"zz", s>>, <<t, "yy">>) = A!Allowed(<<s>>, <<t>>)
                /\ A!AllowedBySet(<<"zz", s>>, <<t, "yy">>) = A!Allowed(<<s>>, <<t>>)
Emitted == (EMIT /\ ~set) => PrintT("@C " \o ToJson([s |-> s]))
=============================================================================

------------------------------ MODULE MCHolder ------------------------------
(***************************************************************************)
(* A status holder (C16): the first failure stays until it is reset.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MAX
St == {"Ok", "A", "B"}
VARIABLES s, h
vars == <<s, h>>
Init == s = "Ok" /\ h = <<>>
Update(x) == s' = (IF s = "Ok" THEN x ELSE s) /\ h' = Append(h, <<"u", x>>)
Reset(x)  == s' = x /\ h' = Append(h, <<"r", x>>)
Next == Len(h) < MAX /\ \E x \in St : Update(x) \/ Reset(x)
Spec == Init /\ [][Next]_vars
\* the history says it: the first failure since the last reset, reset included
LastReset == LET R == {n \in 1..Len(h) : h[n][1] = "r"} IN IF R = {} THEN 0 ELSE CHOOSE n \in R : \A m \in R : m <= n
Since == {n \in (IF LastReset = 0 THEN 1 ELSE LastReset)..Len(h) : h[n][2] # "Ok"}
FirstFailure == s = (IF Since = {} THEN "Ok" ELSE h[CHOOSE n \in Since : \A m \in Since : n <= m][2])
Emitted == Len(h) = MAX => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================

----------------------------- MODULE MCKeyList ------------------------------
(***************************************************************************)
(* Lists of key entries, good, bad and no entries at all, in every order   *)
(* up to length MAX (C11), and the loading loop as the code runs it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX
K == INSTANCE JwkSet

Classes == {"g1", "g2", "g3", "b1", "b2", "non"}
None == [t |-> "none", v |-> ""]
Str(x) == [t |-> "str", v |-> x]
P(t) == [t |-> t, b64 |-> t = "str", len |-> IF t = "str" THEN 32 ELSE 0]
Blank == [obj |-> TRUE, kty |-> None, kid |-> None, alg |-> None, crv |-> None, n |-> P("none"), e |-> P("none"),
          x |-> P("none"), y |-> P("none"), k |-> P("none"),
          ec |-> [u \in {"P-256", "P-384", "P-521"} |-> ""], rsa |-> "", eok |-> FALSE, okp |-> "", oct |-> ""]
Fact(c) == CASE c = "g1" -> [Blank EXCEPT !.kty = Str("oct"), !.k = P("str"), !.oct = "one"]
             [] c = "g2" -> [Blank EXCEPT !.kty = Str("RSA"), !.n = P("str"), !.e = P("str"), !.rsa = "two", !.eok = TRUE, !.kid = Str("k")]
             [] c = "g3" -> [Blank EXCEPT !.kty = Str("OKP"), !.crv = Str("Ed25519"), !.x = P("str"), !.okp = "three", !.alg = Str("EdDSA")]
             [] c = "b1" -> Blank
             [] c = "b2" -> [Blank EXCEPT !.kty = Str("oct"), !.k = P("str"), !.oct = "x", !.alg = Str("RS256")]
             [] OTHER    -> [obj |-> FALSE]
\* the loop of the code: keys so far, reason of the first bad entry
VARIABLES list, keys, bad
vars == <<list, keys, bad>>
Init == list = <<>> /\ keys = <<>> /\ bad = "Ok"
Take(c) == LET e == Fact(c)
           IN IF ~e.obj THEN UNCHANGED <<keys, bad>>
              ELSE IF K!EntryStatus(e) = "Ok" THEN keys' = Append(keys, K!EntryKey(e)) /\ UNCHANGED bad
              ELSE UNCHANGED keys /\ bad' = IF bad = "Ok" THEN K!EntryStatus(e) ELSE bad
Next == /\ Len(list) < MAX
        /\ \E c \in Classes : list' = Append(list, c) /\ Take(c)
Spec == Init /\ [][Next]_vars

Facts == [n \in 1..Len(list) |-> Fact(list[n])]
LoopStatus == IF keys # <<>> THEN "Ok" ELSE IF bad # "Ok" THEN bad ELSE "JwksNoValidKeys"
SameKeys   == keys = K!ListKeys(Facts)
SameStatus == LoopStatus = K!ListStatus(Facts)
OkIffKeys  == (K!ListStatus(Facts) = "Ok") = (K!ListKeys(Facts) # <<>>)
\* exactly the good ones, in order
Order == LET G == {n \in 1..Len(list) : list[n] \in {"g1", "g2", "g3"}}
             Place(n) == Cardinality({m \in G : m <= n})
         IN /\ Len(K!ListKeys(Facts)) = Cardinality(G)
            /\ \A n \in G : K!ListKeys(Facts)[Place(n)] = K!EntryKey(Fact(list[n]))
\* what is loaded stays loaded
Kept == [][SubSeq(keys', 1, Len(keys)) = keys /\ Len(keys') <= Len(keys) + 1]_vars
Emitted == Len(list) <= EMAX => PrintT("@C " \o ToJson([list |-> list]))
=============================================================================

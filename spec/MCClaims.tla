------------------------------ MODULE MCClaims ------------------------------
(***************************************************************************)
(* What a parsed token shows (C09): every combination of absent, one and   *)
(* another value of each registered claim.  Each field depends on its own  *)
(* claim alone, and nothing else is lost or invented.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS TextsOf, EMIT
T == INSTANCE JwtToken WITH Base <- 65536

TextClaims == {"kid", "iss", "sub", "jti"}
NumClaims  == {"iat", "nbf", "exp"}
Claims     == TextClaims \cup NumClaims \cup {"aud"}
NumsOf == {"none", "one", "two"}
AudsOf == {"none", "str", "one", "many"}

VARIABLES c, set
vars == <<c, set>>
Init == c \in [kid : TextsOf, iss : TextsOf, sub : TextsOf, jti : {"none"}, iat : {"none"}, nbf : {"none"}, exp : {"none"}, aud : AudsOf] /\ set = FALSE
Next == ~set /\ set' = TRUE /\ \E j \in TextsOf, i, n, e \in NumsOf : c' = [c EXCEPT !.jti = j, !.iat = i, !.nbf = n, !.exp = e]
Spec == Init /\ [][Next]_vars

Text(x) == IF x = "none" THEN [t |-> "none"] ELSE [t |-> "str", v |-> IF x = "empty" THEN "" ELSE x]
Num(x)  == IF x = "none" THEN [t |-> "none"] ELSE [t |-> "num", neg |-> FALSE, nan |-> FALSE, big |-> FALSE, v |-> IF x = "one" THEN <<0, 0, 0, 1>> ELSE <<1, 0, 0, 2>>]
S(x) == [t |-> "str", v |-> x]
Aud(x)  == CASE x = "none" -> [t |-> "none"] [] x = "str" -> S("a") [] x = "one" -> [t |-> "list", v |-> <<S("b")>>]
             [] x = "many" -> [t |-> "list", v |-> <<S("c"), S("a"), S("c")>>]
Doc(k) == [text |-> "t", n |-> 3, empty |-> FALSE,
           h |-> [raw |-> "h", dec |-> "h", pb |-> "h", b64 |-> TRUE, json |-> TRUE, alg |-> S("HS256"), kid |-> Text(k.kid)],
           p |-> [raw |-> "p", dec |-> "p", pb |-> "p", b64 |-> TRUE, json |-> TRUE, iss |-> Text(k.iss), sub |-> Text(k.sub), jti |-> Text(k.jti),
                  iat |-> Num(k.iat), nbf |-> Num(k.nbf), exp |-> Num(k.exp), aud |-> Aud(k.aud)],
           s |-> [b64 |-> TRUE, sig |-> "s"]]
F == T!Fields(Doc(c))
Good == T!Defect(Doc(c)) = "Ok"
\* absent reads as empty or zero, present as itself
Shows == /\ \A a \in TextClaims : F[a] = IF c[a] \in {"none", "empty"} THEN "" ELSE c[a]
         /\ \A a \in NumClaims : F[a] = (CASE c[a] = "none" -> T!Zero [] c[a] = "one" -> <<0, 0, 0, 1>> [] c[a] = "two" -> <<1, 0, 0, 2>>)
         /\ F.aud = (CASE c.aud = "none" -> <<>> [] c.aud = "str" -> <<"a">> [] c.aud = "one" -> <<"b">> [] c.aud = "many" -> <<"c", "a", "c">>)
\* changing one claim changes that field only
Apart == \A a \in Claims : LET G == T!Fields(Doc([c EXCEPT ![a] = "none"]))
                           IN \A b \in DOMAIN F \ {a} : G[b] = F[b]
Emitted == (EMIT /\ set) => PrintT("@C " \o ToJson(c))
=============================================================================

------------------------------ MODULE MCParse -------------------------------
(***************************************************************************)
(* Every combination of up to MAX deviations of a token from a well-formed *)
(* one (C08).  A state is an abstract token: one class per aspect, built   *)
(* from the well-formed token by deviating in one more aspect per step.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX
T == INSTANCE JwtToken WITH Base <- 65536

\* the aspects in the order in which their defects are named
Aspects == <<"fmt", "hb", "hj", "alg", "kid", "pb", "pj", "iss", "sub", "iat", "nbf", "exp", "jti", "aud", "sb">>
Strs == {"none", "num", "null", "bool", "list", "obj"}
Nums == {"num", "str", "null", "bool", "list", "neg", "big"}
Classes == [fmt |-> {"zero", "one", "two", "four", "five", "he", "pe", "se", "lead", "trail"},
            hb |-> {"bad"}, hj |-> {"bad"},
            alg |-> Strs \cup {"unk", "empty", "case"},
            kid |-> (Strs \ {"none"}) \cup {"str"},
            pb |-> {"bad"}, pj |-> {"bad"},
            iss |-> (Strs \ {"none"}) \cup {"str"}, sub |-> (Strs \ {"none"}) \cup {"str"},
            iat |-> Nums, nbf |-> Nums, exp |-> Nums,
            jti |-> (Strs \ {"none"}) \cup {"str"},
            aud |-> {"str", "strs", "empty", "num", "null", "bool", "obj", "mixed", "nested", "tail"},
            sb |-> {"bad"}]
Plain == [fmt |-> "ok", hb |-> "ok", hj |-> "ok", alg |-> "ok", kid |-> "none", pb |-> "ok", pj |-> "ok", iss |-> "none",
          sub |-> "none", iat |-> "none", nbf |-> "none", exp |-> "none", jti |-> "none", aud |-> "none", sb |-> "ok"]

VARIABLES c, last, n   \* the token, the highest aspect deviating, number of deviations
vars == <<c, last, n>>

\* the facts of the token
Val(x)   == IF x \in {"str", "none", "num", "null", "bool", "list", "obj"} THEN [t |-> x, v |-> "x"] ELSE [t |-> "str", v |-> x]
Alg(x)   == CASE x = "ok" -> [t |-> "str", v |-> "HS256"] [] x = "unk" -> [t |-> "str", v |-> "none"]
              [] x = "empty" -> [t |-> "str", v |-> ""] [] x = "case" -> [t |-> "str", v |-> "hs256"]
              [] OTHER -> [t |-> x, v |-> ""]
Num(x)   == CASE x \in {"num", "neg", "big"} -> [t |-> "num", neg |-> x = "neg", nan |-> FALSE, big |-> x = "big", v |-> <<0, 0, 0, 1>>]
              [] OTHER -> [t |-> x]
S(x) == [t |-> x, v |-> "x"]
Aud(x)   == CASE x = "strs" -> [t |-> "list", v |-> <<S("str"), S("str")>>]
              [] x = "empty" -> [t |-> "list", v |-> <<>>]
              [] x = "mixed" -> [t |-> "list", v |-> <<S("num"), S("str")>>]
              [] x = "tail" -> [t |-> "list", v |-> <<S("str"), S("str"), S("null")>>]
              [] x = "nested" -> [t |-> "list", v |-> <<S("list")>>]
              [] OTHER -> [t |-> x, v |-> "x"]
Doc(k) ==
  [n |-> CASE k.fmt = "zero" -> 1 [] k.fmt = "one" -> 1 [] k.fmt = "two" -> 2 [] k.fmt = "four" -> 4 [] k.fmt = "five" -> 5
           [] k.fmt \in {"lead", "trail"} -> 4 [] OTHER -> 3,
   empty |-> k.fmt \in {"zero", "he", "pe", "se", "lead", "trail"},
   h |-> [b64 |-> k.hb = "ok", json |-> k.hj = "ok", alg |-> Alg(k.alg), kid |-> Val(k.kid)],
   p |-> [b64 |-> k.pb = "ok", json |-> k.pj = "ok", iss |-> Val(k.iss), sub |-> Val(k.sub), jti |-> Val(k.jti),
          iat |-> Num(k.iat), nbf |-> Num(k.nbf), exp |-> Num(k.exp), aud |-> Aud(k.aud)],
   s |-> [b64 |-> k.sb = "ok"]]

Init == c = Plain /\ last = 0 /\ n = 0
Next == /\ n < MAX
        /\ \E i \in (last + 1)..Len(Aspects) : \E x \in Classes[Aspects[i]] :
              c' = [c EXCEPT ![Aspects[i]] = x] /\ last' = i /\ n' = n + 1
Spec == Init /\ [][Next]_vars

\* the reason of one aspect's class, by the words of the property
Reason(a, x) ==
  CASE a = "fmt" /\ x # "ok" -> "JwtBadFormat"
    [] a = "hb" /\ x = "bad" -> "JwtHeaderParseErrorBadBase64"
    [] a = "hj" /\ x = "bad" -> "JwtHeaderParseErrorBadJson"
    [] a = "alg" /\ x \in Strs -> "JwtHeaderBadAlg"
    [] a = "alg" /\ x \in {"unk", "empty", "case"} -> "JwtHeaderNotImplementedAlg"
    [] a = "kid" /\ x \notin {"none", "str"} -> "JwtHeaderBadKid"
    [] a = "pb" /\ x = "bad" -> "JwtPayloadParseErrorBadBase64"
    [] a = "pj" /\ x = "bad" -> "JwtPayloadParseErrorBadJson"
    [] a = "iss" /\ x \notin {"none", "str"} -> "JwtPayloadParseErrorIssNotString"
    [] a = "sub" /\ x \notin {"none", "str"} -> "JwtPayloadParseErrorSubNotString"
    [] a = "iat" /\ x \in {"neg", "big"} -> "JwtPayloadParseErrorIatOutOfRange"
    [] a = "nbf" /\ x \in {"neg", "big"} -> "JwtPayloadParseErrorNbfOutOfRange"
    [] a = "exp" /\ x \in {"neg", "big"} -> "JwtPayloadParseErrorExpOutOfRange"
    [] a = "iat" /\ x \notin {"none", "num"} -> "JwtPayloadParseErrorIatNotInteger"
    [] a = "nbf" /\ x \notin {"none", "num"} -> "JwtPayloadParseErrorNbfNotInteger"
    [] a = "exp" /\ x \notin {"none", "num"} -> "JwtPayloadParseErrorExpNotInteger"
    [] a = "jti" /\ x \notin {"none", "str"} -> "JwtPayloadParseErrorJtiNotString"
    [] a = "aud" /\ x \notin {"none", "str", "strs", "empty"} -> "JwtPayloadParseErrorAudNotString"
    [] a = "sb" /\ x = "bad" -> "JwtSignatureParseErrorBadBase64"
    [] OTHER -> "Ok"
Bad(k) == {i \in 1..Len(Aspects) : Reason(Aspects[i], k[Aspects[i]]) # "Ok"}
FirstOf(k) == IF Bad(k) = {} THEN "Ok"
              ELSE LET i == CHOOSE j \in Bad(k) : \A m \in Bad(k) : j <= m
                   IN Reason(Aspects[i], k[Aspects[i]])
\* exactly the well-formed are accepted, and the first defect is named
NamesFirst == T!Defect(Doc(c)) = FirstOf(c)
\* a later deviation never changes the reason already given
Stable == [][FirstOf(c) # "Ok" => T!Defect(Doc(c')) = T!Defect(Doc(c))]_vars

Emitted == n <= EMAX => PrintT("@C " \o ToJson(c))
=============================================================================

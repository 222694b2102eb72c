------------------------------ MODULE MCVerify ------------------------------
(***************************************************************************)
(* Tokens against key sets (C01-C04): every token of a small universe      *)
(* against every set of up to MAX keys, in every order.  A key carries a   *)
(* material (of every family and curve), an id and an algorithm, also ones *)
(* that do not go together (a PEM key may be labelled with anything).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX, KKids, Tokens2
V == INSTANCE JwtVerify

Kty(m) == CASE m \in {"rsa1", "rsa2"} -> "RSA" [] m \in {"oct1", "oct2"} -> "oct" [] m \in {"okp1", "okp2"} -> "OKP" [] OTHER -> "EC"
Mats == {"rsa1", "rsa2", "EC:P-256:1", "EC:P-256:2", "EC:P-384:1", "oct1", "oct2", "okp1", "okp2"}
\* labels tried for a material: none, its own, another of its family, one of another family
Labels(m) == CASE Kty(m) = "RSA" -> {"", "RS256", "PS256", "HS256"}
               [] Kty(m) = "EC" -> {"", "ES256", "ES384", "RS256"}
               [] Kty(m) = "oct" -> {"", "HS256", "HS512"}
               [] Kty(m) = "OKP" -> {"", "EdDSA", "ES256"}
Keys == {[kty |-> Kty(m), mat |-> m, kid |-> i, alg |-> a, crv |-> ""] : m \in Mats, i \in KKids, a \in UNION {Labels(x) : x \in Mats}}
Universe == {k \in Keys : k.alg \in Labels(k.mat)}

Algs == {"RS256", "RS512", "PS256", "ES256", "ES384", "HS256", "EdDSA"}
Firsts == [a \in Algs |-> CASE V!Info(a).kty = "RSA" -> "rsa1" [] V!Info(a).kty = "oct" -> "oct1" [] V!Info(a).kty = "OKP" -> "okp1"
                            [] a = "ES256" -> "EC:P-256:1" [] OTHER -> "EC:P-384:1"]
Seconds == [a \in Algs |-> CASE V!Info(a).kty = "RSA" -> "rsa2" [] V!Info(a).kty = "oct" -> "oct2" [] V!Info(a).kty = "OKP" -> "okp2"
                             [] a = "ES256" -> "EC:P-256:2" [] OTHER -> "EC:P-256:1"]
\* what a token's signature may be: the right one, of another key, of another
\* text, under another digest or padding of the same key, of a wrong length
Sigs == {"right", "other", "text", "way", "len"}
Toks == {[alg |-> a, kid |-> i, how |-> h] : a \in Algs, i \in {"", "k1"}, h \in Sigs}
Way(a) == CASE a = "RS256" -> "PS256" [] a = "RS512" -> "RS256" [] a = "PS256" -> "RS256" [] a = "ES256" -> "ES384"
            [] a = "ES384" -> "ES256" [] a = "HS256" -> "HS512" [] a = "EdDSA" -> "EdDSA"
\* the signatures that were made
Rec(mat, alg, msg, sig) == [key |-> mat, kind |-> V!Info(alg).kind, md |-> V!Info(alg).md, msg |-> msg, sig |-> sig]
Name(a, h) == a \o h
Signed == UNION {{Rec(Firsts[a], a, a, Name(a, "right")), Rec(Seconds[a], a, a, Name(a, "other")),
                  Rec(Firsts[a], a, "text", Name(a, "text")), Rec(Firsts[a], Way(a), a, IF a = "EdDSA" THEN "right" ELSE Name(a, "way"))} : a \in Algs}
Tok(x) == [alg |-> x.alg, kid |-> x.kid, msg |-> x.alg, sig |-> Name(x.alg, x.how), len |-> IF x.how = "len" THEN 63 ELSE 64]

VARIABLES x, ks
vars == <<x, ks>>
Init == x \in Toks /\ (Tokens2 \/ x.kid = "k1" \/ x.how = "right") /\ ks = <<>>
Next == Len(ks) < MAX /\ \E k \in Universe : ks' = Append(ks, k) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

t == Tok(x)
Vd == V!Verdict(t, ks, Signed)
AsTheLoop == V!VerdictByLoop(t, ks, Signed) = Vd
\* C01: only genuine signatures; here these are the right one and the other key's
Sound == Vd = "Ok" => \E n \in 1..Len(ks) : /\ (x.how = "right" /\ ks[n].mat = Firsts[x.alg]) \/ (x.how = "other" /\ ks[n].mat = Seconds[x.alg])
                                            /\ ks[n].kty = V!Info(x.alg).kty
\* C02: the right key anywhere is enough
Complete == \A n \in 1..Len(ks) : V!Vouches(ks[n], t, Signed) => Vd = "Ok"
\* C02: the order does not matter
Swap(q) == IF Len(q) < 2 THEN q ELSE [n \in 1..Len(q) |-> IF n = 1 THEN q[Len(q)] ELSE IF n = Len(q) THEN q[1] ELSE q[n]]
AnyOrder == V!Verdict(t, Swap(ks), Signed) = Vd
\* C03: kid and alg select
Selects == (Vd = "JwksKidAlgMismatch") = \A n \in 1..Len(ks) : \/ x.kid # "" /\ ks[n].kid # "" /\ ks[n].kid # x.kid
                                                               \/ ks[n].alg # "" /\ ks[n].alg # x.alg
\* C04: keys of other families and curves neither help nor harm
Others == LET mine == SelectSeq(ks, LAMBDA k : V!Fits(k, t))
          IN (Vd = "Ok") = (V!Verdict(t, mine, Signed) = "Ok")
\* C04: a wrong length is named only where it is the algorithm's
Lengths == Vd = "JwtEd25519SignatureWrongLength" => x.alg = "EdDSA" /\ x.how = "len"
\* a key more never makes a verifying token fail
Grows == [][Vd = "Ok" => V!Verdict(Tok(x'), ks', Signed) = "Ok"]_vars
\* the universe has tokens of each outcome
Emitted == /\ (Len(ks) <= EMAX /\ x = [alg |-> "HS256", kid |-> "", how |-> "right"]) => PrintT("@C " \o ToJson([ks |-> [n \in 1..Len(ks) |-> <<ks[n].mat, ks[n].kid, ks[n].alg>>]]))
           /\ Len(ks) = 0 => PrintT("@C " \o ToJson([tok |-> x]))
=============================================================================

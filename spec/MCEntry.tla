------------------------------ MODULE MCEntry -------------------------------
(***************************************************************************)
(* Every combination of up to MAX deviations of a key entry from a good    *)
(* one of each kind (C12).  A state is an abstract entry, one class per    *)
(* member.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX
K == INSTANCE JwkSet

Aspects == <<"kty", "kid", "alg", "crv", "n", "e", "x", "y", "k">>
Algs == {"none", "num", "", "ES256", "ES384", "ES512", "RS256", "PS512", "HS256", "HS512", "EdDSA", "RSA", "ES", "HS", "R", "rs256"}
Crvs == {"none", "num", "", "P-256", "P-384", "P-521", "P-512", "Ed25519", "X25519"}
Par  == {"none", "num", "bad"}
Classes == [kty |-> {"RSA", "EC", "oct", "OKP", "none", "num", "", "rsa", "foo"}, kid |-> {"str", "num"}, alg |-> Algs, crv |-> Crvs,
            n |-> Par \cup {"wrong", "wide"}, e |-> Par \cup {"three", "seventeen"}, x |-> Par \cup {"wrong", "short", "long", "wide"},
            y |-> Par \cup {"wrong", "wide"}, k |-> Par \cup {"empty"}]
\* the good entries; `of` is the key they are made of
Absent == [kty |-> "none", kid |-> "none", alg |-> "none", crv |-> "none", n |-> "none", e |-> "none", x |-> "none", y |-> "none", k |-> "none"]
Goods == {[Absent EXCEPT !.kty = "RSA", !.n = "ok", !.e = "ok"] @@ [of |-> "rsa"],
          [Absent EXCEPT !.kty = "EC", !.crv = "P-256", !.x = "ok", !.y = "ok"] @@ [of |-> "P-256"],
          [Absent EXCEPT !.kty = "EC", !.crv = "P-384", !.x = "ok", !.y = "ok"] @@ [of |-> "P-384"],
          [Absent EXCEPT !.kty = "EC", !.crv = "P-521", !.x = "ok", !.y = "ok"] @@ [of |-> "P-521"],
          [Absent EXCEPT !.kty = "oct", !.k = "ok"] @@ [of |-> "oct"],
          [Absent EXCEPT !.kty = "OKP", !.crv = "Ed25519", !.x = "ok"] @@ [of |-> "okp"]}

VARIABLES c, last, n
vars == <<c, last, n>>
Init == c \in Goods /\ last = 0 /\ n = 0
Next == /\ n < MAX
        /\ \E i \in (last + 1)..Len(Aspects) : \E x \in Classes[Aspects[i]] \ {c[Aspects[i]]} :
              c' = [c EXCEPT ![Aspects[i]] = x] /\ last' = i /\ n' = n + 1
Spec == Init /\ [][Next]_vars

\* the facts
Text(x) == IF x = "none" THEN [t |-> "none", v |-> ""] ELSE IF x = "num" THEN [t |-> "other", v |-> ""] ELSE [t |-> "str", v |-> x]
P(x, len) == IF x = "none" THEN [t |-> "none", b64 |-> FALSE, len |-> 0]
             ELSE IF x = "num" THEN [t |-> "other", b64 |-> FALSE, len |-> 0]
             ELSE [t |-> "str", b64 |-> x # "bad", len |-> CASE x = "empty" -> 0 [] x = "short" -> 31 [] x \in {"long", "wide"} -> 33 [] OTHER -> len]
Curves == {"P-256", "P-384", "P-521"}
Same(x) == x \in {"ok", "wide"}   \* wide: the same number with a leading zero byte
Entry(k) ==
  [obj |-> TRUE, kty |-> Text(k.kty), kid |-> Text(k.kid), alg |-> Text(k.alg), crv |-> Text(k.crv),
   n |-> P(k.n, 256), e |-> P(k.e, 3), x |-> P(k.x, 32), y |-> P(k.y, 32), k |-> P(k.k, 32),
   ec |-> [u \in Curves |-> IF Same(k.x) /\ Same(k.y) /\ k.of = u THEN "point" ELSE ""],
   rsa |-> IF Same(k.n) /\ k.e \in {"ok", "three", "seventeen"} THEN "rsa" ELSE "",
   eok |-> k.e \in {"ok", "three"}, okp |-> "okp", oct |-> "oct"]

\* C12, in the words of the property: type, algorithm, curve, parameters, material
Decl(k)  == k.alg \notin {"none", "num", ""}
Begins(a, two) == Len(a) >= 2 /\ SubSeq(a, 1, 2) \in two
\* the curve an EC entry is for: its algorithm's, its own, P-256
CurveFor(k) == IF Decl(k) THEN (CASE k.alg = "ES256" -> "P-256" [] k.alg = "ES384" -> "P-384" [] k.alg = "ES512" -> "P-521" [] OTHER -> "?")
               ELSE IF k.crv \in {"none", ""} THEN "P-256" ELSE k.crv
Named(x) == x \notin {"none", "num"}
Good(k) ==
  CASE k.kty = "RSA" -> /\ Decl(k) => Begins(k.alg, {"RS", "PS"})
                        /\ Same(k.n) /\ k.e \in {"ok", "three"}
    [] k.kty = "EC"  -> /\ Decl(k) => Begins(k.alg, {"ES"})
                        /\ k.crv # "num"
                        /\ CurveFor(k) \in Curves
                        /\ (Named(k.crv) /\ k.crv # "") => k.crv = CurveFor(k)
                        /\ Same(k.x) /\ Same(k.y) /\ k.of = CurveFor(k)
    [] k.kty = "oct" -> /\ Decl(k) => k.alg \in {"HS256", "HS384", "HS512"}
                        /\ k.k = "ok"
    [] k.kty = "OKP" -> /\ Decl(k) => k.alg = "EdDSA"
                        /\ k.crv = "Ed25519"
                        /\ k.x \in {"ok", "wrong"}     \* any 32 bytes
    [] OTHER -> FALSE
AcceptedIffGood == (K!EntryStatus(Entry(c)) = "Ok") = Good(c)

\* a rejection is for a defect the entry has
Blames(k, s) ==
  CASE s = "JwksMissingKty" -> k.kty = "none"
    [] s = "JwksBadKty" -> k.kty = "num"
    [] s = "JwksNotImplementedKty" -> k.kty \notin {"RSA", "EC", "oct", "OKP", "none", "num"}
    [] s \in {"JwksRSAKeyBadAlg", "JwksECKeyBadAlg", "JwksHMACKeyBadAlg", "JwksOKPKeyBadAlg"} -> Decl(k)
    [] s = "JwksRSAKeyMissingN" -> k.n = "none"
    [] s = "JwksRSAKeyBadN" -> k.n = "num"
    [] s = "JwksRSAKeyMissingE" -> k.e = "none"
    [] s = "JwksRSAKeyBadE" -> k.e = "num"
    [] s = "JwksRsaParseError" -> k.n \in {"bad", "wrong"} \/ k.e \in {"bad", "seventeen"}
    [] s = "JwksECKeyBadCrv" -> k.crv = "num"
    [] s = "JwksECKeyAlgNotCompatibleWithCrv" -> Decl(k) /\ Named(k.crv) /\ k.crv # CurveFor(k)
    [] s = "JwksECKeyAlgOrCrvUnsupported" -> CurveFor(k) \notin Curves
    [] s = "JwksECKeyMissingX" -> k.x = "none" [] s = "JwksECKeyBadX" -> k.x = "num"
    [] s = "JwksECKeyMissingY" -> k.y = "none" [] s = "JwksECKeyBadY" -> k.y = "num"
    [] s = "JwksEcXorYBadBase64" -> k.x = "bad" \/ k.y = "bad"
    [] s = "JwksEcParseError" -> ~Same(k.x) \/ ~Same(k.y) \/ k.of # CurveFor(k)
    [] s = "JwksHMACKeyMissingK" -> k.k = "none" [] s = "JwksHMACKeyBadK" -> k.k = "num"
    [] s = "JwksOctBadBase64" -> k.k \in {"bad", "empty"}
    [] s = "JwksOKPKeyMissingCrv" -> k.crv = "none" [] s = "JwksOKPKeyBadCrv" -> k.crv = "num"
    [] s = "JwksOKPKeyCrvUnsupported" -> k.crv # "Ed25519"
    [] s = "JwksOKPKeyMissingX" -> k.x = "none" [] s = "JwksOKPKeyBadX" -> k.x = "num"
    [] s = "JwksOKPXBadBase64" -> k.x = "bad"
    [] s = "JwksOKPXWrongLength" -> k.x \in {"short", "long", "wide"}
    [] OTHER -> FALSE
BlamedRightly == LET s == K!EntryStatus(Entry(c)) IN s # "Ok" => Blames(c, s)
\* members of no importance to the type do not matter
Irrelevant == LET s == K!EntryStatus(Entry(c))
              IN /\ c.kty = "RSA" => s = K!EntryStatus(Entry([c EXCEPT !.crv = "num", !.x = "num", !.k = "bad", !.kid = "num"]))
                 /\ c.kty = "oct" => s = K!EntryStatus(Entry([c EXCEPT !.crv = "num", !.x = "num", !.n = "bad", !.kid = "str"]))
                 /\ c.kty = "OKP" => s = K!EntryStatus(Entry([c EXCEPT !.y = "num", !.k = "bad", !.n = "num"]))
Emitted == n <= EMAX => PrintT("@C " \o ToJson(c))
=============================================================================

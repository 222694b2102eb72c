----------------------------- MODULE JwtVerify ------------------------------
(***************************************************************************)
(* Verification over ideal cryptography: a signature value is genuine      *)
(* exactly if it was made, and `signed` is the set of what was made:       *)
(* [key, kind, md, msg, sig].  Keys are as in JwkSet; a key's material     *)
(* names its family and curve.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* algorithm -> key type, way of signing, hash, prefix of the key material
Info(alg) ==
  CASE alg = "RS256" -> [kty |-> "RSA", kind |-> "pkcs1", md |-> "256", crv |-> ""]
    [] alg = "RS384" -> [kty |-> "RSA", kind |-> "pkcs1", md |-> "384", crv |-> ""]
    [] alg = "RS512" -> [kty |-> "RSA", kind |-> "pkcs1", md |-> "512", crv |-> ""]
    [] alg = "PS256" -> [kty |-> "RSA", kind |-> "pss", md |-> "256", crv |-> ""]
    [] alg = "PS384" -> [kty |-> "RSA", kind |-> "pss", md |-> "384", crv |-> ""]
    [] alg = "PS512" -> [kty |-> "RSA", kind |-> "pss", md |-> "512", crv |-> ""]
    [] alg = "ES256" -> [kty |-> "EC", kind |-> "ecdsa", md |-> "256", crv |-> "EC:P-256"]
    [] alg = "ES384" -> [kty |-> "EC", kind |-> "ecdsa", md |-> "384", crv |-> "EC:P-384"]
    [] alg = "ES512" -> [kty |-> "EC", kind |-> "ecdsa", md |-> "512", crv |-> "EC:P-521"]
    [] alg = "HS256" -> [kty |-> "oct", kind |-> "hmac", md |-> "256", crv |-> ""]
    [] alg = "HS384" -> [kty |-> "oct", kind |-> "hmac", md |-> "384", crv |-> ""]
    [] alg = "HS512" -> [kty |-> "oct", kind |-> "hmac", md |-> "512", crv |-> ""]
    [] alg = "EdDSA" -> [kty |-> "OKP", kind |-> "ed", md |-> "", crv |-> ""]

\* C03: may the key vouch for the token?
Matches(k, t) == /\ (t.kid = "" \/ k.kid = "" \/ k.kid = t.kid)
                 /\ (k.alg = "" \/ k.alg = t.alg)
\* C04: is it a key of the token's algorithm?
Fits(k, t) == /\ k.kty = Info(t.alg).kty
              /\ Info(t.alg).crv = "" \/ (Len(k.mat) >= 8 /\ SubSeq(k.mat, 1, 8) = Info(t.alg).crv)
\* C01: did the key make the signature?
Made(k, t, signed) ==
  [key |-> k.mat, kind |-> Info(t.alg).kind, md |-> Info(t.alg).md, msg |-> t.msg, sig |-> t.sig] \in signed

RangeOfKeys(ks) == {ks[n] : n \in 1..Len(ks)}
Vouches(k, t, signed) == Matches(k, t) /\ Fits(k, t) /\ Made(k, t, signed)

\* t: [alg, kid, msg, sig, len]; ks: sequence of keys
Verdict(t, ks, signed) ==
  LET K == RangeOfKeys(ks)
  IN IF \E k \in K : Vouches(k, t, signed) THEN "Ok"
     ELSE IF ~\E k \in K : Matches(k, t) THEN "JwksKidAlgMismatch"
     ELSE IF t.alg = "EdDSA" /\ t.len # 64 /\ \E k \in K : Matches(k, t) /\ k.kty = "OKP"
          THEN "JwtEd25519SignatureWrongLength"
     ELSE "JwtVerificationFail"

(* The same as the code finds it: one key after the other. *)
RECURSIVE Loop(_, _, _, _, _)
Loop(t, ks, signed, n, matched) ==
  IF n > Len(ks) THEN IF matched THEN "JwtVerificationFail" ELSE "JwksKidAlgMismatch"
  ELSE LET k == ks[n]
       IN IF t.kid # "" /\ k.kid # "" /\ k.kid # t.kid THEN Loop(t, ks, signed, n + 1, matched)
          ELSE IF k.alg # "" /\ k.alg # t.alg THEN Loop(t, ks, signed, n + 1, matched)
          ELSE IF ~Fits(k, t) THEN Loop(t, ks, signed, n + 1, TRUE)
          ELSE IF Info(t.alg).kind = "ed" /\ t.len # 64 THEN "JwtEd25519SignatureWrongLength"
          ELSE IF Made(k, t, signed) THEN "Ok"
          ELSE Loop(t, ks, signed, n + 1, TRUE)
VerdictByLoop(t, ks, signed) == Loop(t, ks, signed, 1, FALSE)

\* C07: the first failing check decides
Composed(audOk, time, sig) == IF ~audOk THEN "JwtAudienceNotAllowed"
                              ELSE IF time # "Ok" THEN time ELSE sig
=============================================================================

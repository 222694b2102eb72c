------------------------------ MODULE JwtToken ------------------------------
(***************************************************************************)
(* A compact token as text, described by facts about it (established by    *)
(* the driver without the code under test): number of dot-separated        *)
(* sections, whether each is base64url, whether header and payload decode  *)
(* to a JSON object, and the type and value of each registered member.     *)
(*                                                                         *)
(*   d.n, d.empty      number of sections, whether one of them is empty    *)
(*   d.h, d.p, d.s     header, payload, signature section (if n = 3)       *)
(*   member values     [t |-> "none"|"str"|"num"|"bool"|"null"|"list"|     *)
(*                      "obj", ...]                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Base
W == INSTANCE U64

Algs == {"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256", "RS384",
         "RS512", "PS256", "PS384", "PS512", "EdDSA"}

StrOrNone(v) == v.t \in {"none", "str"}
NumOrNone(v) == v.t \in {"none", "num"}
InRange(v)   == v.t = "num" => ~v.neg /\ ~v.nan /\ ~v.big
AudOk(v)     == \/ v.t \in {"none", "str"}
                \/ v.t = "list" /\ \A n \in 1..Len(v.v) : v.v[n].t = "str"

(* The checks in the order in which a defect is reported (C08): the reason *)
(* given is that of the first one that does not hold.                      *)
First(checks) ==
  LET RECURSIVE F(_)
      F(n) == IF n > Len(checks) THEN "Ok"
              ELSE IF checks[n][1] THEN F(n + 1) ELSE checks[n][2]
  IN F(1)

\* separate operators so that a check is evaluated only when its turn comes
HeaderDefect(h) ==
  IF ~h.b64 THEN "JwtHeaderParseErrorBadBase64"
  ELSE IF ~h.json THEN "JwtHeaderParseErrorBadJson"
  ELSE IF h.alg.t # "str" THEN "JwtHeaderBadAlg"
  ELSE IF h.alg.v \notin Algs THEN "JwtHeaderNotImplementedAlg"
  ELSE IF ~StrOrNone(h.kid) THEN "JwtHeaderBadKid"
  ELSE "Ok"
PayloadDefect(p) ==
  IF ~p.b64 THEN "JwtPayloadParseErrorBadBase64"
  ELSE IF ~p.json THEN "JwtPayloadParseErrorBadJson"
  ELSE First(<< <<StrOrNone(p.iss), "JwtPayloadParseErrorIssNotString">>,
                <<StrOrNone(p.sub), "JwtPayloadParseErrorSubNotString">>,
                <<NumOrNone(p.iat), "JwtPayloadParseErrorIatNotInteger">>,
                <<InRange(p.iat),   "JwtPayloadParseErrorIatOutOfRange">>,
                <<NumOrNone(p.nbf), "JwtPayloadParseErrorNbfNotInteger">>,
                <<InRange(p.nbf),   "JwtPayloadParseErrorNbfOutOfRange">>,
                <<NumOrNone(p.exp), "JwtPayloadParseErrorExpNotInteger">>,
                <<InRange(p.exp),   "JwtPayloadParseErrorExpOutOfRange">>,
                <<StrOrNone(p.jti), "JwtPayloadParseErrorJtiNotString">>,
                <<AudOk(p.aud),     "JwtPayloadParseErrorAudNotString">> >>)
Defect(d) ==
  IF d.n # 3 \/ d.empty THEN "JwtBadFormat"
  ELSE IF HeaderDefect(d.h) # "Ok" THEN HeaderDefect(d.h)
  ELSE IF PayloadDefect(d.p) # "Ok" THEN PayloadDefect(d.p)
  ELSE IF ~d.s.b64 THEN "JwtSignatureParseErrorBadBase64"
  ELSE "Ok"

Zero     == <<0, 0, 0, 0>>
Text(v)  == IF v.t = "str" THEN v.v ELSE ""
Number(v) == IF v.t = "num" THEN v.v ELSE Zero
Texts(v) == IF v.t = "str" THEN <<v.v>>
            ELSE IF v.t = "list" THEN [n \in 1..Len(v.v) |-> v.v[n].v] ELSE <<>>

\* what a token without defect shows (C09)
Fields(d) ==
  [text |-> d.text,
   hraw |-> d.h.raw, hdec |-> d.h.dec, hpb |-> d.h.pb,
   praw |-> d.p.raw, pdec |-> d.p.dec, ppb |-> d.p.pb,
   sig  |-> d.s.sig,
   alg  |-> d.h.alg.v, kid |-> Text(d.h.kid),
   iss  |-> Text(d.p.iss), sub |-> Text(d.p.sub), jti |-> Text(d.p.jti),
   aud  |-> Texts(d.p.aud),
   iat  |-> Number(d.p.iat), nbf |-> Number(d.p.nbf), exp |-> Number(d.p.exp)]

(* The validity window (C05), exact: no sum is formed.  exp = 0 is "none". *)
NotYet(nbf, now, skew)  == W!Lt(now, nbf) /\ W!Lt(skew, W!Sub(nbf, now))
Expired(exp, now, skew) == ~W!IsZero(exp) /\ W!Lt(exp, now) /\ W!Lt(skew, W!Sub(now, exp))
TimeStatus(nbf, exp, now, skew) ==
  IF NotYet(nbf, now, skew) THEN "JwtNotYetValid"
  ELSE IF Expired(exp, now, skew) THEN "JwtExpired" ELSE "Ok"
=============================================================================

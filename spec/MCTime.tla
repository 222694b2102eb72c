------------------------------- MODULE MCTime -------------------------------
(***************************************************************************)
(* The validity window over all words of a small machine (C05): the        *)
(* limb arithmetic of the specification is the mathematics of the          *)
(* property.  Words are 0..B*B-1 in two limbs.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS B, EMIT
T == INSTANCE JwtToken WITH Base <- B

VARIABLES nbf, exp, now, skew, set
vars == <<nbf, exp, now, skew, set>>
Words == 0..(B * B - 1)
Limbs(n) == <<n \div B, n % B>>

Init == nbf \in Words /\ exp \in Words /\ now = 0 /\ skew = 0 /\ set = FALSE
Next == /\ ~set
        /\ set' = TRUE
        /\ now' \in Words /\ skew' \in Words
        /\ UNCHANGED <<nbf, exp>>
Spec == Init /\ [][Next]_vars

Status == T!TimeStatus(Limbs(nbf), Limbs(exp), Limbs(now), Limbs(skew))
\* the sentence of the property, in integers
Exact == IF nbf - now > skew THEN "JwtNotYetValid"
         ELSE IF exp > 0 /\ now - exp > skew THEN "JwtExpired" ELSE "Ok"
IsExact == set => Status = Exact
\* more skew never makes a token invalid
Lenient == (set /\ Status = "Ok" /\ skew + 1 \in Words) =>
             T!TimeStatus(Limbs(nbf), Limbs(exp), Limbs(now), Limbs(skew + 1)) = "Ok"
\* the whole word as skew excuses everything
AllExcused == (set /\ skew = B * B - 1) => Status = "Ok"
\* no limits, no complaint
Unlimited == (set /\ nbf = 0 /\ exp = 0) => Status = "Ok"
\* sums that wrap around give other answers: the small machine is big enough
Wrapped(n, e, t, s) == IF (t + s) % (B * B) < n THEN "JwtNotYetValid"
                       ELSE IF e > 0 /\ t > (e + s) % (B * B) THEN "JwtExpired" ELSE "Ok"
ASSUME \E n, e, t, s \in Words :
         Wrapped(n, e, t, s) # T!TimeStatus(Limbs(n), Limbs(e), Limbs(t), Limbs(s))

Emitted == (EMIT /\ set) => PrintT("@C [" \o ToString(nbf) \o "," \o ToString(exp) \o "," \o ToString(now) \o "," \o ToString(skew) \o "]")
=============================================================================

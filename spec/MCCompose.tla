----------------------------- MODULE MCCompose ------------------------------
(***************************************************************************)
(* Every entry point over every combination of outcomes of the single      *)
(* checks (C05-C07), as the composition of the code's calls: audiences,    *)
(* then time, then signature, each running only if the one before passed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
V == INSTANCE JwtVerify

Entries == {"sig", "wall", "now", "nowskew", "audwall", "audnow"}
\* what is configured, what the token carries
Cfgs == {"empty", "one", "two"}
TokAuds == {"none", "match", "spelled", "other", "last"}
Nbfs == {"none", "past", "edge", "future"}      \* edge: exactly as far as the skew allows
Exps == {"none", "future", "edge", "past"}
Sigs == {"Ok", "JwtVerificationFail", "JwksKidAlgMismatch"}

VARIABLES c,      \* the call
          stage, res
vars == <<c, stage, res>>
Init == /\ c \in [entry : Entries, cfg : Cfgs, aud : TokAuds, nbf : Nbfs, exp : Exps, sig : Sigs]
        /\ (c.entry \in {"audwall", "audnow"} \/ (c.cfg = "one" /\ c.aud = "match"))
        /\ stage = "begin" /\ res = ""

HasAud  == c.entry \in {"audwall", "audnow"}
HasTime == c.entry # "sig"
AudOk   == ~HasAud \/ c.cfg = "empty" \/ c.aud \in {"match", "spelled", "last"}
Time    == IF ~HasTime THEN "Ok" ELSE IF c.nbf = "future" THEN "JwtNotYetValid" ELSE IF c.exp = "past" THEN "JwtExpired" ELSE "Ok"

Enter == stage = "begin" /\ stage' = (IF HasAud THEN "aud" ELSE IF HasTime THEN "time" ELSE "sig") /\ UNCHANGED <<c, res>>
Aud   == stage = "aud" /\ (IF AudOk THEN stage' = "time" /\ UNCHANGED res ELSE stage' = "done" /\ res' = "JwtAudienceNotAllowed") /\ UNCHANGED c
Tim   == stage = "time" /\ (IF Time = "Ok" THEN stage' = "sig" /\ UNCHANGED res ELSE stage' = "done" /\ res' = Time) /\ UNCHANGED c
Sig   == stage = "sig" /\ stage' = "done" /\ res' = c.sig /\ UNCHANGED c
Next == Enter \/ Aud \/ Tim \/ Sig
Spec == Init /\ [][Next]_vars

Done == stage = "done"
AsComposed == Done => res = V!Composed(AudOk, Time, c.sig)
AllPass == Done => (res = "Ok") = (AudOk /\ Time = "Ok" /\ c.sig = "Ok")
FirstFails == Done => /\ ~AudOk => res = "JwtAudienceNotAllowed"
                      /\ (AudOk /\ Time # "Ok") => res = Time
                      /\ (AudOk /\ Time = "Ok") => res = c.sig
Emitted == stage = "begin" => PrintT("@C " \o ToJson(c))
=============================================================================

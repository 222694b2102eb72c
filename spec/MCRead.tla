------------------------------- MODULE MCRead -------------------------------
(***************************************************************************)
(* Sections as texts with meanings (C18): several texts decode to the same *)
(* content.  The owner of the key signs texts; anyone combines sections.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX
V == INSTANCE JwtVerify

\* spelled texts: content and spelling (json: other white space or escapes,
\* pad: other base64 of the same bytes)
Contents == {"A", "B"}
Spellings == {"plain", "json", "pad", "space"}
Sects == Contents \X Spellings
Msg(h, p) == "h" \o h[1] \o h[2] \o "." \o "p" \o p[1] \o p[2]
Key == [kty |-> "oct", mat |-> "k", kid |-> "", alg |-> "", crv |-> ""]

VARIABLES signed,  \* pairs of texts signed by the key's owner
          shown    \* the token presented: its texts, and which signature
vars == <<signed, shown>>
None == <<>>
Init == signed = <<>> /\ shown = None
Sign == /\ shown = None /\ Len(signed) < MAX
        /\ \E h \in Sects, p \in Sects :
             /\ (Len(signed) > 0 => \E n \in 1..Len(signed) : signed[n] # <<h, p>>)
             /\ (Len(signed) = 0 => h[1] = "A" /\ p[1] = "A")
             /\ signed' = Append(signed, <<h, p>>)
        /\ UNCHANGED shown
Show == /\ shown = None
        /\ \E h \in Sects, p \in Sects, n \in 1..Len(signed) : shown' = <<h, p, n>>
        /\ UNCHANGED signed
Next == Sign \/ Show
Spec == Init /\ [][Next]_vars

Records == {[key |-> "k", kind |-> "hmac", md |-> "256", msg |-> Msg(signed[n][1], signed[n][2]), sig |-> Msg(signed[n][1], signed[n][2])] : n \in 1..Len(signed)}
Tok == [alg |-> "HS256", kid |-> "", msg |-> Msg(shown[1], shown[2]), sig |-> Msg(signed[shown[3]][1], signed[shown[3]][2]), len |-> 32]
Vd == V!Verdict(Tok, <<Key>>, Records)
\* it verifies exactly if both texts are the ones under that signature
ExactTexts == shown # None => (Vd = "Ok") = (<<shown[1], shown[2]>> = signed[shown[3]])
\* so what is read from a verified token was signed, as text and as content
ReadWasSigned == (shown # None /\ Vd = "Ok") => \E n \in 1..Len(signed) : signed[n][1][1] = shown[1][1] /\ signed[n][2][1] = shown[2][1]
Emitted == (shown # None /\ Len(signed) = 1) => PrintT("@C " \o ToJson([signed |-> signed, shown |-> shown]))
=============================================================================

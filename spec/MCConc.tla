------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Verifications running at the same time over shared tokens and one       *)
(* shared key set (C17), key by key, each crypto operation a step of its   *)
(* own.  A failing operation leaves an error in the crypto library's queue *)
(* of its thread; the code clears it before it returns.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls
V == INSTANCE JwtVerify

\* three tokens, one key set: a genuine one, a forged one, one without key
Key(m, i) == [kty |-> "oct", mat |-> m, kid |-> i, alg |-> "", crv |-> ""]
Toks == [g |-> [alg |-> "HS256", kid |-> "", msg |-> "m1", sig |-> "s1", len |-> 32],
         f |-> [alg |-> "HS256", kid |-> "", msg |-> "m2", sig |-> "s1", len |-> 32],
         n |-> [alg |-> "HS256", kid |-> "k9", msg |-> "m1", sig |-> "s1", len |-> 32]]
Signed == {[key |-> "B", kind |-> "hmac", md |-> "256", msg |-> "m1", sig |-> "s1"]}

VARIABLES keys,   \* the shared key set
          toks,   \* the shared tokens
          th      \* thread -> [tok, at, matched, err, res, left]
vars == <<keys, toks, th>>
Set0 == <<Key("A", "k1"), Key("B", "k2"), Key("C", "k3")>>
Idle == [tok |-> "", at |-> 0, matched |-> FALSE, err |-> 0, res |-> "", left |-> Calls]
Init == keys = Set0 /\ toks = Toks /\ th = [i \in Threads |-> Idle]
Start(i) == /\ th[i].tok = "" /\ th[i].left > 0
            /\ \E x \in DOMAIN toks : th' = [th EXCEPT ![i] = [@ EXCEPT !.tok = x, !.at = 1, !.matched = FALSE, !.res = "", !.left = @ - 1]]
            /\ UNCHANGED <<keys, toks>>
Running(i) == th[i].tok # "" /\ th[i].res = ""
Step(i) == /\ Running(i)
           /\ LET r == th[i]
                  t == toks[r.tok]
              IN IF r.at > Len(keys) THEN th' = [th EXCEPT ![i].res = IF r.matched THEN "JwtVerificationFail" ELSE "JwksKidAlgMismatch", ![i].err = 0]
                 ELSE LET k == keys[r.at]
                      IN IF ~V!Matches(k, t) THEN th' = [th EXCEPT ![i].at = @ + 1]
                         ELSE IF V!Vouches(k, t, Signed) THEN th' = [th EXCEPT ![i].res = "Ok", ![i].err = 0]
                         ELSE th' = [th EXCEPT ![i].at = @ + 1, ![i].matched = TRUE, ![i].err = 1]
           /\ UNCHANGED <<keys, toks>>
Return(i) == th[i].res # "" /\ th[i].tok # "" /\ th' = [th EXCEPT ![i].tok = "", ![i].at = 0] /\ UNCHANGED <<keys, toks>>
Next == \E i \in Threads : Start(i) \/ Step(i) \/ Return(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Threads : WF_vars(Step(i)) /\ WF_vars(Return(i))

\* every call gives what it gives alone
AsAlone == \A i \in Threads : (th[i].tok # "" /\ th[i].res # "") => th[i].res = V!Verdict(Toks[th[i].tok], Set0, Signed)
Untouched == keys = Set0 /\ toks = Toks
NoErrorLeft == \A i \in Threads : th[i].res # "" => th[i].err = 0
Ends == \A i \in Threads : (th[i].tok # "") ~> (th[i].res # "")
=============================================================================

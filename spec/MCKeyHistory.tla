---------------------------- MODULE MCKeyHistory ----------------------------
(***************************************************************************)
(* Histories of one key set: loads from lists, maps and PEM texts, and PEM *)
(* keys appended (C11, C13, C14).  Appending is as the code does it: the   *)
(* key is made aside and moved over only when it is good.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX
K == INSTANCE JwkSet

Pems == {"rsa", "ec", "okp", "none", "other"}
Facts(p) == CASE p = "rsa" -> [read |-> "RSA", mat |-> "R"] [] p = "ec" -> [read |-> "EC", mat |-> "E"]
              [] p = "okp" -> [read |-> "OKP", mat |-> "O"] [] p = "none" -> [read |-> "none", mat |-> ""]
              [] p = "other" -> [read |-> "other", mat |-> ""]
Labels == {<<"", "">>, <<"k1", "RS256">>, <<"k1", "ES384">>}
ListKey == [kty |-> "oct", kid |-> "k1", alg |-> "", crv |-> "", mat |-> "S"]
CertKey == [kty |-> "RSA", kid |-> "c1", alg |-> "", crv |-> "", mat |-> "R"]

VARIABLES set, h
vars == <<set, h>>
NoSet == [st |-> "none", keys |-> <<>>]
Init == set = NoSet /\ h = <<>>
Did(s, op) == Len(h) < MAX /\ set' = s /\ h' = Append(h, op)
LoadList == \/ Did([st |-> "Ok", keys |-> <<ListKey>>], [op |-> "list"])
            \/ Did([st |-> "JwksMissingKty", keys |-> <<>>], [op |-> "badlist"])
            \/ Did([st |-> "JwksParseError", keys |-> <<>>], [op |-> "garbage"])
LoadMap  == \/ Did([st |-> "Ok", keys |-> <<CertKey>>], [op |-> "map"])
            \/ Did([st |-> "JwksX509ParseError", keys |-> <<>>], [op |-> "badmap"])
LoadPem  == \E p \in Pems : Did([st |-> K!PemStatus(Facts(p)), keys |-> K!PemKeys(Facts(p), "", "")], [op |-> "pem", p |-> p])
FromPem  == \E p \in Pems, x \in Labels \ {<<"", "">>} :
              Did([st |-> K!PemStatus(Facts(p)), keys |-> K!PemKeys(Facts(p), x[1], x[2])], [op |-> "frompem", p |-> p, kid |-> x[1], alg |-> x[2]])
Aside(p, x) == [st |-> K!PemStatus(Facts(p)), keys |-> K!PemKeys(Facts(p), x[1], x[2])]
AddPem   == /\ set # NoSet
            /\ \E p \in Pems, x \in Labels :
                 LET a == Aside(p, x)
                 IN Did(IF a.st = "Ok" THEN [set EXCEPT !.keys = Append(@, a.keys[1])] ELSE set, [op |-> "add", p |-> p, kid |-> x[1], alg |-> x[2]])
Load == LoadList \/ LoadMap \/ LoadPem \/ FromPem
Next == (h = <<>> /\ Load) \/ AddPem \/ (Len(h) = 2 /\ LoadList)
Spec == Init /\ [][Next]_vars

Last == h[Len(h)]
\* a failed append changes nothing, a good one adds one key at the end
Appends == [][(Len(h') > 0 /\ h'[Len(h')].op = "add") =>
                LET e == h'[Len(h')]
                    good == e.p \in {"rsa", "ec", "okp"}
                IN /\ set'.st = set.st
                   /\ SubSeq(set'.keys, 1, Len(set.keys)) = set.keys
                   /\ Len(set'.keys) = Len(set.keys) + (IF good THEN 1 ELSE 0)
                   /\ good => LET k == set'.keys[Len(set'.keys)]
                              IN k.kid = e.kid /\ k.alg = e.alg /\ k.mat = Facts(e.p).mat]_vars
\* a load gives keys or a failure
KeysOrFailure == (h # <<>> /\ Last.op # "add") => (set.st = "Ok") = (set.keys # <<>>)
Emitted == (Len(h) <= EMAX /\ Len(h) > 0) => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================

----------------------------- MODULE MCCertMap ------------------------------
(***************************************************************************)
(* Certificate maps of up to MAX members (C14), and the loading loop of    *)
(* the code over them in any order.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX
K == INSTANCE JwkSet
Kids == <<"k1", "k2", "k3", "k4">>
\* rsa: a good certificate, rsa2: another, ec: of a key of no use, bad: does
\* not parse, shape: not a certificate text, num: no text, nokid: empty id
Classes == {"rsa", "rsa2", "ec", "bad", "shape", "num", "nokid"}
Fact(c, kid) == [kid |-> IF c = "nokid" THEN "" ELSE kid, str |-> c # "num", shape |-> c \notin {"shape", "num"},
                 parsed |-> c \in {"rsa", "rsa2", "ec", "nokid"},
                 rsa |-> CASE c \in {"rsa", "nokid"} -> "A" [] c = "rsa2" -> "B" [] OTHER -> ""]
VARIABLES map,   \* the classes chosen
          todo, keys, st   \* the loop: members left, keys so far, outcome ("" while running)
vars == <<map, todo, keys, st>>
Facts == [n \in 1..Len(map) |-> Fact(map[n], Kids[n])]
Init == map = <<>> /\ todo = {} /\ keys = {} /\ st = "choose"
Choose == /\ st = "choose"
          /\ \/ /\ Len(map) < MAX
                /\ \E c \in Classes : map' = Append(map, c) /\ (c = "nokid" => \A n \in 1..Len(map) : map[n] # "nokid")
                /\ UNCHANGED <<todo, keys, st>>
             \/ /\ st' = IF K!IsMap(Facts) THEN "run" ELSE "JwksNoKeys"
                /\ todo' = 1..Len(map) /\ UNCHANGED <<map, keys>>
Step == /\ st = "run" /\ todo # {}
        /\ \E n \in todo :
             LET s == K!CertStatus(Facts[n])
             IN IF s = "Ok" THEN keys' = keys \cup {K!CertKey(Facts[n])} /\ todo' = todo \ {n} /\ UNCHANGED st
                ELSE keys' = {} /\ todo' = {} /\ st' = s
        /\ UNCHANGED map
Finish == st = "run" /\ todo = {} /\ st' = "Ok" /\ UNCHANGED <<map, todo, keys>>
Next == Choose \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

Doc == [json |-> TRUE, keys |-> "none", list |-> <<>>, map |-> Facts]
Done == st \notin {"choose", "run"}
\* whatever the order of the members, the outcome is one that is allowed
Allowed == Done => /\ st \in K!LoadStatuses(Doc)
                   /\ K!LoadKeysOk(Doc, K!SeqOf(keys))
\* all or none
AllOrNone == Done => (st = "Ok" /\ Cardinality(keys) = Len(map)) \/ (st # "Ok" /\ keys = {})
Usable == Done => (st = "Ok") = (Len(map) > 0 /\ \A n \in 1..Len(map) : map[n] \in {"rsa", "rsa2"})
Emitted == st = "choose" => PrintT("@C " \o ToJson([map |-> map]))
=============================================================================

------------------------------ MODULE Audience ------------------------------
(***************************************************************************)
(* Audience comparison (C06).  TLC's sequence operators apply to strings.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, n)   == IF n > Len(s) THEN "" ELSE SubSeq(s, n, Len(s))
Front(s)     == IF Len(s) <= 1 THEN "" ELSE SubSeq(s, 1, Len(s) - 1)

Unscheme(s) == IF Starts(s, "http://") THEN From(s, 8)
               ELSE IF Starts(s, "https://") THEN From(s, 9) ELSE s
Unslash(s)  == IF Ends(s, "/") THEN Front(s) ELSE s
Norm(s)     == Unslash(Unscheme(s))

\* cfg, auds: sequences of strings
Allowed(cfg, auds) ==
  \/ Len(cfg) = 0
  \/ {Norm(cfg[i]) : i \in 1..Len(cfg)} \cap {Norm(auds[j]) : j \in 1..Len(auds)} # {}

(* As the code does it: positions into the unchanged string. *)
NormByPositions(s) ==
  IF s = "" THEN s
  ELSE LET beg == IF Starts(s, "http://") THEN 7 ELSE IF Starts(s, "https://") THEN 8 ELSE 0
           end == IF SubSeq(s, Len(s), Len(s)) = "/" THEN Len(s) - 1 ELSE Len(s)
       IN IF beg >= end THEN "" ELSE SubSeq(s, beg + 1, end)
AllowedBySet(cfg, auds) ==
  LET set == {NormByPositions(cfg[i]) : i \in 1..Len(cfg)}
  IN set = {} \/ \E j \in 1..Len(auds) : NormByPositions(auds[j]) \in set
=============================================================================

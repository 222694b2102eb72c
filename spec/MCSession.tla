----------------------------- MODULE MCSession ------------------------------
(***************************************************************************)
(* Token objects used again and again (C10).  The object is as the code    *)
(* has it: parsing empties it, keeps the text and fills the fields stage   *)
(* by stage until a defect ends it.  Texts: good ones, and ones that fail  *)
(* at each stage.  Every history of up to MAX calls over two objects.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX

\* text -> how many stages it passes (4 is all), and what it carries
Texts == [g1 |-> [to |-> 4, iss |-> "i1", aud |-> <<"a", "b">>, exp |-> 1, sig |-> "s1"],
          g2 |-> [to |-> 4, iss |-> "", aud |-> <<>>, exp |-> 0, sig |-> "s2"],
          bf |-> [to |-> 0, iss |-> "i3", aud |-> <<"c">>, exp |-> 3, sig |-> "s3"],   \* format
          bh |-> [to |-> 1, iss |-> "i3", aud |-> <<"c">>, exp |-> 3, sig |-> "s3"],   \* header
          bp |-> [to |-> 2, iss |-> "i4", aud |-> <<"d">>, exp |-> 4, sig |-> "s4"],   \* payload, after some claims
          bs |-> [to |-> 3, iss |-> "i5", aud |-> <<"e">>, exp |-> 5, sig |-> "s5"]]   \* signature
Names == DOMAIN Texts
Empty == [text |-> "", st |-> "Ok", header |-> FALSE, iss |-> "", aud |-> <<>>, exp |-> 0, sig |-> ""]

\* one parse, stage by stage, of text x into object o
Parse(o, x) ==
  LET T  == Texts[x]
      o0 == [Empty EXCEPT !.text = x]           \* whatever o was
      o1 == IF T.to >= 1 THEN [o0 EXCEPT !.header = TRUE] ELSE [o0 EXCEPT !.st = "format"]
      o2 == IF T.to >= 2 THEN [o1 EXCEPT !.iss = T.iss] ELSE IF T.to = 1 THEN [o1 EXCEPT !.st = "header"] ELSE o1
      o3 == IF T.to >= 3 THEN [o2 EXCEPT !.aud = T.aud, !.exp = T.exp] ELSE IF T.to = 2 THEN [o2 EXCEPT !.st = "payload"] ELSE o2
  IN IF T.to = 4 THEN [o3 EXCEPT !.sig = T.sig] ELSE IF T.to = 3 THEN [o3 EXCEPT !.st = "signature"] ELSE o3

Slots == {0, 1}
VARIABLES obj, h, asked   \* objects, history, last text given to each
vars == <<obj, h, asked>>
Init == obj = [s \in Slots |-> Empty] /\ h = <<>> /\ asked = [s \in Slots |-> ""]
Do(s, o, x, op) == /\ Len(h) < MAX
                   /\ obj' = [obj EXCEPT ![s] = o]
                   /\ asked' = [asked EXCEPT ![s] = x]
                   /\ h' = Append(h, op)
AParse(s, x) == Do(s, Parse(obj[s], x), x, [op |-> "parse", s |-> s, x |-> x])
AOwn(s)      == asked[s] # "" /\ Do(s, Parse(obj[s], obj[s].text), asked[s], [op |-> "own", s |-> s])
AAssign(s, r) == asked[r] # "" /\ Do(s, obj[r], asked[r], [op |-> "assign", s |-> s, r |-> r])
ACopy(s, r)   == asked[r] # "" /\ Do(s, obj[r], asked[r], [op |-> "copy", s |-> s, r |-> r])
Next == \E s \in Slots : \/ \E x \in Names : AParse(s, x)
                         \/ AOwn(s)
                         \/ \E r \in Slots : AAssign(s, r) \/ ACopy(s, r)
Spec == Init /\ [][Next]_vars

Fresh(x) == IF x = "" THEN Empty ELSE Parse(Empty, x)
\* an object is what a fresh one would be
Unhistoric == \A s \in Slots : obj[s] = Fresh(asked[s])
\* one whose parse failed does not pass for a good one
Failed == \A s \in Slots : (asked[s] # "" /\ Texts[asked[s]].to < 4) => obj[s].st # "Ok"
Emitted == (Len(h) <= EMAX /\ Len(h) > 0 /\ h[1].s = 0) => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================

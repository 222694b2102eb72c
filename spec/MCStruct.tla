------------------------------ MODULE MCStruct ------------------------------
(***************************************************************************)
(* Typed access by path (C15): every small object, every path, every       *)
(* getter, against the sentences of the property.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEEP, EMIT
S == INSTANCE StructAccess

Num(k) == [t |-> "num", nan |-> k = "nan", neg |-> k = "neg", big |-> k = "big", v |-> <<0, 0, 0, 7>>, d |-> k]
Str == [t |-> "str", v |-> "x"]
List(q) == [t |-> "list", v |-> q]
Obj(f) == [t |-> "obj", f |-> f]
Leaves == {Str, Num("7"), Num("neg"), Num("big"), Num("nan"), [t |-> "bool", v |-> TRUE], [t |-> "bool", v |-> FALSE], [t |-> "null"],
           List(<<>>), List(<<Str, Str>>), List(<<Str, Num("7")>>), List(<<Num("7"), Str>>), Obj(<<>>)}
Some == {Str, Num("7"), List(<<Str>>)}
Members(name, V) == {<<>>} \cup {<< <<name, v>> >> : v \in V}
Inner == {Obj(x \o y) : x \in Members("a", Leaves), y \in Members("b", Some)}
Deeper == {Obj(<< <<"a", v>> >>) : v \in {Obj(x) : x \in Members("a", Leaves)}}
Values == Leaves \cup Inner \cup (IF DEEP THEN Deeper ELSE {})
Roots == {Obj(x \o y) : x \in Members("a", Values), y \in Members("b", IF DEEP THEN Leaves ELSE Some)}

Names == {"a", "b", ""}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names} \cup {<<x, y, z>> : x, y, z \in {"a", "b"}}
Gets == {"str", "u64", "dbl", "bool", "list", "val"}
RECURSIVE Dotted(_)
Dotted(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Dotted(Tail(p))

VARIABLES o, p
vars == <<o, p>>
Init == o \in Roots /\ p = <<>>
Next == p = <<>> /\ p' \in Paths /\ UNCHANGED o
Spec == Init /\ [][Next]_vars

\* the value at a path, with the reason there is none, element by element
RECURSIVE At(_, _)
At(v, names) == IF names = <<>> THEN [why |-> "", v |-> v]
                ELSE IF v.t # "obj" THEN [why |-> "type", v |-> v]
                ELSE IF \E n \in 1..Len(v.f) : v.f[n][1] = Head(names)
                     THEN At(v.f[CHOOSE n \in 1..Len(v.f) : v.f[n][1] = Head(names)][2], Tail(names))
                     ELSE [why |-> "missing", v |-> v]
Fits(v, g) == CASE g = "val" -> TRUE [] g = "str" -> v.t = "str" [] g = "bool" -> v.t = "bool" [] g \in {"dbl", "u64"} -> v.t = "num"
                [] g = "list" -> v.t = "str" \/ (v.t = "list" /\ \A n \in 1..Len(v.v) : v.v[n].t = "str")
Says(g) == LET a == At(o, p)
           IN IF a.why # "" THEN a.why ELSE IF ~Fits(a.v, g) THEN "type"
              ELSE IF g = "u64" /\ (a.v.neg \/ a.v.big \/ a.v.nan) THEN "range" ELSE "ok"
AsSaid == p # <<>> => /\ S!Split(Dotted(p)) = p
                      /\ \A g \in Gets : S!Result(o, Dotted(p), g) = Says(g)
\* a failed scalar lookup shows the untouched value, and a good one the stored
Outputs == p # <<>> => \A g \in {"str", "bool"} :
             LET ok == Says(g) = "ok"
                 u  == IF g = "str" THEN "(untouched)" ELSE "untouched"
                 v  == IF ok THEN (IF g = "str" THEN At(o, p).v.v ELSE IF At(o, p).v.v THEN "true" ELSE "false") ELSE u
             IN S!OutOk(o, Dotted(p), g, v) /\ (ok => ~S!OutOk(o, Dotted(p), g, u))
Emitted == (EMIT /\ p = <<>>) => PrintT("@C " \o ToJson(o))
=============================================================================

---------------------------- MODULE StructAccess ----------------------------
(***************************************************************************)
(* Typed access into JSON objects by dotted path (C15).  A value is        *)
(* [t |-> type, ...]; an object's members are a sequence of <<name, value>>*)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, n, word) ==
  IF n > Len(s) THEN <<word>>
  ELSE LET c == SubSeq(s, n, n)
       IN IF c = "." THEN <<word>> \o SplitFrom(s, n + 1, "") ELSE SplitFrom(s, n + 1, word \o c)
Split(s) == SplitFrom(s, 1, "")

HasMember(o, name) == \E n \in 1..Len(o.f) : o.f[n][1] = name
Member(o, name)    == o.f[CHOOSE n \in 1..Len(o.f) : o.f[n][1] = name][2]

\* <<result, value>>
RECURSIVE Find(_, _)
Find(o, names) ==
  IF ~HasMember(o, Head(names)) THEN <<"missing", o>>
  ELSE LET v == Member(o, Head(names))
       IN IF Len(names) = 1 THEN <<"ok", v>>
          ELSE IF v.t # "obj" THEN <<"type", o>> ELSE Find(v, Tail(names))

Result(o, path, get) ==
  LET f == Find(o, Split(path))
      v == f[2]
  IN IF f[1] # "ok" THEN f[1]
     ELSE CASE get = "val"  -> "ok"
            [] get = "str"  -> IF v.t = "str" THEN "ok" ELSE "type"
            [] get = "bool" -> IF v.t = "bool" THEN "ok" ELSE "type"
            [] get = "dbl"  -> IF v.t = "num" THEN "ok" ELSE "type"
            [] get = "u64"  -> IF v.t # "num" THEN "type"
                               ELSE IF v.nan \/ v.neg \/ v.big THEN "range" ELSE "ok"
            [] get = "list" -> IF v.t = "str" THEN "ok"
                               ELSE IF v.t = "list" /\ \A n \in 1..Len(v.v) : v.v[n].t = "str"
                                    THEN "ok" ELSE "type"

\* what the caller's variable holds afterwards
OutOk(o, path, get, out) ==
  LET v == Find(o, Split(path))[2]
      r == Result(o, path, get)
  IN CASE get = "val"  -> IF r = "ok" THEN out = v ELSE TRUE
       [] get = "str"  -> out = IF r = "ok" THEN v.v ELSE "(untouched)"
       [] get = "bool" -> out = IF r = "ok" THEN (IF v.v THEN "true" ELSE "false") ELSE "untouched"
       [] get = "dbl"  -> out = IF r = "ok" THEN v.d ELSE "c0c81cc000000000"
       [] get = "u64"  -> out = IF r = "ok" THEN v.v ELSE <<65261, 64206, 51966, 48879>>
       [] get = "list" -> IF r # "ok" THEN TRUE
                          ELSE LET L == IF v.t = "str" THEN <<v.v>> ELSE [n \in 1..Len(v.v) |-> v.v[n].v]
                               IN out = L \/ (Len(out) = Len(L) + 1 /\ SubSeq(out, 2, Len(out)) = L)
=============================================================================

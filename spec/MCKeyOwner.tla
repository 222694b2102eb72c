----------------------------- MODULE MCKeyOwner -----------------------------
(***************************************************************************)
(* Whose memory the keys of the cache's two tables live in (C31), when a   *)
(* key is no more than a reference into the value it was inserted with.    *)
(* tab and def are the tables as in LruCache: an entry per key, and a      *)
(* circular list of removed entries that are still pinned; town and down   *)
(* say which value owns the memory of the key each table stores.  A value  *)
(* disposed of takes its memory with it.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX

Keys == {1, 2}
VARIABLES tab,    \* key -> id of the entry, 0: none
          town,   \* key -> owner of the stored key
          def,    \* key -> ids on the list, from its head on along next
          down,   \* key -> owner of the stored key
          pin,    \* id -> pins
          gone,   \* ids disposed of
          touched,\* owners of all keys read so far after they were gone
          n, h
vars == <<tab, town, def, down, pin, gone, touched, n, h>>
Init == /\ tab = [k \in Keys |-> 0] /\ town = tab /\ down = tab
        /\ def = [k \in Keys |-> <<>>]
        /\ pin = <<>> /\ gone = {} /\ touched = {} /\ n = 0 /\ h = <<>>
Can == Len(h) < MAX
\* every search may compare with any stored key
Read == touched' = touched \cup ({town[k] : k \in Keys} \cap gone) \cup ({down[k] : k \in Keys} \cap gone)
Log(x) == h' = Append(h, x)
Rec(op, k, i) == [op |-> op, k |-> k, id |-> i]

\* the entry of k leaves the table, for the list if it is pinned
Unpinned(k) == tab[k] # 0 /\ pin[tab[k]] = 0
Push(q, i) == IF q = <<>> THEN <<i>> ELSE <<Head(q), i>> \o Tail(q)
Leave(k) ==
  LET i == tab[k] IN
  IF i = 0 THEN [def |-> def, down |-> down, gone |-> gone]
  ELSE IF pin[i] = 0 THEN [def |-> def, down |-> down, gone |-> gone \cup {i}]
  ELSE [def  |-> [def EXCEPT ![k] = Push(@, i)],
        down |-> [down EXCEPT ![k] = IF @ = 0 THEN i ELSE @],
        gone |-> gone]
Insert(k, p) ==
  /\ Can
  /\ LET x == Leave(k) IN /\ def' = x.def /\ down' = x.down /\ gone' = x.gone
  /\ n' = n + 1
  /\ tab' = [tab EXCEPT ![k] = n + 1] /\ town' = [town EXCEPT ![k] = n + 1]
  /\ pin' = Append(pin, p)
  /\ Read /\ Log(Rec(IF p = 1 THEN "insertp" ELSE "insert", k, n + 1))
Lookup(k) == /\ Can /\ tab[k] # 0 /\ pin[tab[k]] < 2
             /\ pin' = [pin EXCEPT ![tab[k]] = @ + 1]
             /\ UNCHANGED <<tab, town, def, down, gone, n>> /\ Read /\ Log(Rec("lookup", k, tab[k]))
Remove(k) == /\ Can /\ tab[k] # 0
             /\ LET x == Leave(k) IN /\ def' = x.def /\ down' = x.down /\ gone' = x.gone
             /\ tab' = [tab EXCEPT ![k] = 0] /\ town' = [town EXCEPT ![k] = 0]
             /\ UNCHANGED <<pin, n>> /\ Read /\ Log(Rec("remove", k, 0))
\* all that can go goes
Shrink == /\ Can /\ \E k \in Keys : Unpinned(k)
          /\ gone' = gone \cup {tab[k] : k \in {x \in Keys : Unpinned(x)}}
          /\ tab' = [k \in Keys |-> IF Unpinned(k) THEN 0 ELSE tab[k]]
          /\ town' = [k \in Keys |-> IF Unpinned(k) THEN 0 ELSE town[k]]
          /\ UNCHANGED <<def, down, pin, n>> /\ Read /\ Log(Rec("shrink", 0, 0))
Pos(q, i) == CHOOSE m \in 1..Len(q) : q[m] = i
Without(q, i) == LET m == Pos(q, i) IN
  IF m = 1 THEN IF Len(q) = 1 THEN <<>> ELSE <<q[Len(q)]>> \o SubSeq(q, 2, Len(q) - 1)
  ELSE SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q))
Release(k, i) ==
  /\ Can /\ pin[i] > 0
  /\ pin' = [pin EXCEPT ![i] = @ - 1]
  /\ IF \E m \in DOMAIN def[k] : def[k][m] = i
     THEN /\ IF pin[i] = 1
             THEN LET q == Without(def[k], i) IN
                  /\ gone' = gone \cup {i}
                  /\ def' = [def EXCEPT ![k] = q]
                  \* a new head: the key is stored anew, from its memory
                  /\ down' = [down EXCEPT ![k] = IF Head(def[k]) # i THEN @ ELSE IF q = <<>> THEN 0 ELSE Head(q)]
             ELSE UNCHANGED <<gone, def, down>>
     ELSE /\ tab[k] = i /\ UNCHANGED <<gone, def, down>>
  /\ UNCHANGED <<tab, town, n>> /\ Read /\ Log(Rec("release", k, i))
Next == \E k \in Keys : \/ Insert(k, 0) \/ Insert(k, 1) \/ Lookup(k) \/ Remove(k)
                        \/ \E i \in 1..n : Release(k, i)
                        \/ (k = 1 /\ Shrink)
Spec == Init /\ [][Next]_vars

Owned == \A k \in Keys : /\ town[k] = tab[k]
                         /\ down[k] = IF def[k] = <<>> THEN 0 ELSE Head(def[k])
Alive == \A k \in Keys : town[k] \notin gone /\ down[k] \notin gone
NeverStale == touched = {}
Emitted == (Len(h) <= EMAX /\ Len(h) > 2) => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================

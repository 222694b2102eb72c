------------------------------ MODULE LruCache ------------------------------
(***************************************************************************)
(* Sequential semantics of simple_lru_cache/simple_lru_cache_inl.h.        *)
(*                                                                         *)
(* The state of one cache is a record `st`; every public operation of the  *)
(* cache is an operator  Op(st, args) |-> [st |-> .., res |-> .., disp |-> *)
(* ..]  giving the next state, the value returned and the sequence of      *)
(* values handed to the disposal callback, in that order.  The operators   *)
(* are shaped like the code (one operator per method, the same loops over  *)
(* the eviction list), the properties below them are not.                  *)
(*                                                                         *)
(* MCLruCache   : exhaustive exploration + invariants (small constants)    *)
(* LruCacheTrace: acceptance of recorded executions of the real cache      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == 0                 \* "no value": ids of values are positive

(* An entry.  pu / pn: outstanding pins acquired with / without            *)
(* update_eviction_order; last: time of last use (LRU) or insertion (age). *)
Entry(id, k, u, pu, pn, t) ==
  [id |-> id, k |-> k, units |-> u, pu |-> pu, pn |-> pn, last |-> t]

Pin(e) == e.pu + e.pn

(* live : entries reachable by lookup (at most one per key)                *)
(* ord  : ids on the eviction list, most recently used first               *)
(* defr : removed entries awaiting their last release                      *)
(* maxEnt: user-defined overfull condition: more than maxEnt entries       *)
(*         (-1: the condition of the base class only)                      *)
InitCache(max, maxEnt) ==
  [lru |-> TRUE, idle |-> -1, max |-> max, maxEnt |-> maxEnt, now |-> 0,
   live |-> {}, ord |-> <<>>, defr |-> {}]

Ret(st, res, disp) == [st |-> st, res |-> res, disp |-> disp]

-----------------------------------------------------------------------------
(* Helpers *)
RECURSIVE SumUnits(_)
SumUnits(S) == IF S = {} THEN 0
               ELSE LET e == CHOOSE x \in S : TRUE IN e.units + SumUnits(S \ {e})

Has(st, k)   == \E e \in st.live : e.k = k
Get(st, k)   == CHOOSE e \in st.live : e.k = k
HasId(st, i) == \E e \in st.live : e.id = i
GetId(st, i) == CHOOSE e \in st.live : e.id = i
Without(q, i) == SelectSeq(q, LAMBDA x : x # i)
Linked(st, i) == \E n \in 1..Len(st.ord) : st.ord[n] = i
Put(st, e, f) == [st EXCEPT !.live = (@ \ {e}) \cup {f}]

(* Observers: what the accessors report *)
Units(st)          == SumUnits(st.live) + SumUnits(st.defr)
PinnedUnits(st)    == SumUnits({e \in st.live : Pin(e) > 0})
DeferredUnits(st)  == SumUnits(st.defr)
NumEntries(st)     == Cardinality(st.live)
NumDeferred(st)    == Cardinality(st.defr)
AgeOfLru(st)       == IF st.ord = <<>> THEN 0
                      ELSE st.now - GetId(st, st.ord[Len(st.ord)]).last
LastUse(st, k)     == IF Has(st, k) THEN Get(st, k).last ELSE -1
StillInUse(st, k, v) == \/ \E e \in st.live : e.k = k /\ (v = None \/ e.id = v)
                        \/ \E e \in st.defr : e.k = k /\ (v = None \/ e.id = v)

OverfullWith(st, u, c) == \/ u > st.max
                          \/ st.maxEnt >= 0 /\ c > st.maxEnt
Overfull(st) == OverfullWith(st, Units(st), NumEntries(st))

-----------------------------------------------------------------------------
(* remove(Elem): off the list and the table; pinned entries are deferred,  *)
(* others disposed of.                                                     *)
RemoveEntry(st, e) ==
  LET s1 == [st EXCEPT !.live = @ \ {e}, !.ord = Without(@, e.id)]
  IN IF Pin(e) > 0
     THEN Ret([s1 EXCEPT !.defr = @ \cup {e}], None, <<>>)
     ELSE Ret(s1, None, <<e.id>>)

(* garbageCollect: from the least recently used end, while overfull, drop  *)
(* unpinned entries.                                                       *)
(* u, c: units and number of entries that are left (TLC would count anew)  *)
RECURSIVE GcFrom(_, _, _, _, _)
GcFrom(st, n, disp, u, c) ==
  IF n = 0 \/ ~OverfullWith(st, u, c) THEN Ret(st, None, disp)
  ELSE LET e == GetId(st, st.ord[n])
       IN IF Pin(e) = 0
          THEN GcFrom([st EXCEPT !.live = @ \ {e}, !.ord = Without(@, e.id)],
                      n - 1, Append(disp, e.id), u - e.units, c - 1)
          ELSE GcFrom(st, n - 1, disp, u, c)
Gc(st) == GcFrom(st, Len(st.ord), <<>>, Units(st), NumEntries(st))

(* discardIdle: from the least recently used end, stop at the first entry  *)
(* that is not older than the limit.                                       *)
RECURSIVE IdleFrom(_, _)
IdleFrom(st, disp) ==
  IF st.ord = <<>> THEN Ret(st, None, disp)
  ELSE LET e == GetId(st, st.ord[Len(st.ord)])
       IN IF e.last < st.now - st.idle
          THEN LET r == RemoveEntry(st, e) IN IdleFrom(r.st, disp \o r.disp)
          ELSE Ret(st, None, disp)
DiscardIdle(st) == IF st.idle < 0 THEN Ret(st, None, <<>>) ELSE IdleFrom(st, <<>>)

(* linkByLastUse: into the list behind the entries used later *)
RECURSIVE LinkPos(_, _, _)
LinkPos(st, t, n) ==      \* number of entries that stay in front
  IF n < Len(st.ord) /\ GetId(st, st.ord[n + 1]).last > t
  THEN LinkPos(st, t, n + 1) ELSE n
LinkByLast(st, e) ==
  LET n == LinkPos(st, e.last, 0)
  IN [st EXCEPT !.ord = SubSeq(@, 1, n) \o <<e.id>> \o SubSeq(@, n + 1, Len(@))]

-----------------------------------------------------------------------------
(* Public operations *)
Tick(st, d) == Ret([st EXCEPT !.now = @ + d], None, <<>>)

Lookup(st, k, upd) ==
  LET x == DiscardIdle(st) IN
  IF ~Has(x.st, k) THEN x
  ELSE LET e  == Get(x.st, k)
           f  == IF upd THEN [e EXCEPT !.pu = @ + 1] ELSE [e EXCEPT !.pn = @ + 1]
           s1 == Put(x.st, e, f)
           s2 == IF s1.lru /\ upd THEN [s1 EXCEPT !.ord = Without(@, e.id)] ELSE s1
       IN Ret(s2, e.id, x.disp)

(* release of value v under key k; upd as at its acquisition *)
CanRelease(st, k, v, upd) ==
  \E e \in st.live \cup st.defr :
    e.k = k /\ e.id = v /\ (IF upd THEN e.pu > 0 ELSE e.pn > 0)

Release(st, k, v, upd) ==
  IF \E e \in st.defr : e.k = k /\ e.id = v
  THEN LET e == CHOOSE x \in st.defr : x.k = k /\ x.id = v
           f == IF upd THEN [e EXCEPT !.pu = @ - 1] ELSE [e EXCEPT !.pn = @ - 1]
       IN IF Pin(f) = 0
          THEN Ret([st EXCEPT !.defr = @ \ {e}], None, <<e.id>>)
          ELSE Ret([st EXCEPT !.defr = (@ \ {e}) \cup {f}], None, <<>>)
  ELSE LET e  == Get(st, k)
           f0 == IF upd THEN [e EXCEPT !.pu = @ - 1] ELSE [e EXCEPT !.pn = @ - 1]
           f  == IF st.lru /\ upd THEN [f0 EXCEPT !.last = st.now] ELSE f0
           s1 == Put(st, e, f)
           s2 == IF st.lru /\ upd THEN [s1 EXCEPT !.ord = Without(@, e.id)] ELSE s1
       IN IF Pin(f) > 0 THEN Ret(s2, None, <<>>)
          ELSE LET s3 == IF Linked(s2, f.id) THEN s2 ELSE LinkByLast(s2, f)
               IN IF Overfull(s3) THEN RemoveEntry(s3, f) ELSE Ret(s3, None, <<>>)

(* n lookups of one key after another, and the release of n of the pins:   *)
(* what they come to (MCLruCache checks that)                              *)
Lookups(st, k, upd, n) ==
  LET r == Lookup(st, k, upd)
  IN IF r.res = None THEN r
     ELSE LET e == Get(r.st, k)
              f == IF upd THEN [e EXCEPT !.pu = @ + n - 1] ELSE [e EXCEPT !.pn = @ + n - 1]
          IN Ret(Put(r.st, e, f), r.res, r.disp)
CanReleases(st, k, v, upd, n) ==
  \E e \in st.live \cup st.defr :
    e.k = k /\ e.id = v /\ (IF upd THEN e.pu >= n ELSE e.pn >= n)
Releases(st, k, v, upd, n) ==
  LET less(S) == {IF e.k = k /\ e.id = v
                  THEN (IF upd THEN [e EXCEPT !.pu = @ - (n - 1)] ELSE [e EXCEPT !.pn = @ - (n - 1)])
                  ELSE e : e \in S}
  IN Release([st EXCEPT !.live = less(@), !.defr = less(@)], k, v, upd)

Remove(st, k) == IF Has(st, k) THEN RemoveEntry(st, Get(st, k))
                 ELSE Ret(st, None, <<>>)

InsertPinned(st, k, v, u) ==
  LET r  == Remove(st, k)
      e  == Entry(v, k, u, 1, 0, st.now)
      s1 == [r.st EXCEPT !.live = @ \cup {e}]
      s2 == IF st.lru THEN s1 ELSE [s1 EXCEPT !.ord = <<v>> \o @]
      g  == Gc(s2)
  IN Ret(g.st, None, r.disp \o g.disp)

Insert(st, k, v, u) ==
  LET p == InsertPinned(st, k, v, u)
      r == Release(p.st, k, v, TRUE)
  IN Ret(r.st, None, p.disp \o r.disp)

(* n insertions under keys k, k+1, .. of values v, v+1, ..: what they come *)
(* to when the keys are new and there is room (MCLruCache checks that)     *)
Fill(st, k, n, v, u) ==
  Ret([st EXCEPT !.live = @ \cup {Entry(v + i, k + i, u, 0, 0, st.now) : i \in 0..(n - 1)},
                 !.ord = [i \in 1..n |-> v + n - i] \o @], None, <<>>)

UpdateSize(st, k, v, u) ==
  LET s1 == IF \E e \in st.live : e.k = k /\ (v = None \/ e.id = v)
            THEN LET e == Get(st, k) IN Put(st, e, [e EXCEPT !.units = u])
            ELSE [st EXCEPT !.defr =
                   {IF e.k = k /\ (v = None \/ e.id = v)
                    THEN [e EXCEPT !.units = u] ELSE e : e \in @}]
  IN Gc(s1)

RECURSIVE RemoveSet(_, _, _)
RemoveSet(st, S, disp) ==
  IF S = {} THEN Ret(st, None, disp)
  ELSE LET e == CHOOSE x \in S : TRUE
           r == RemoveEntry(st, e)
       IN RemoveSet(r.st, S \ {e}, disp \o r.disp)

RemoveAll(st)      == RemoveSet(st, st.live, <<>>)
RemoveUnpinned(st) == RemoveSet(st, {e \in st.live : Pin(e) = 0 /\ Linked(st, e.id)}, <<>>)
CanClear(st)       == st.defr = {} /\ \A e \in st.live : Pin(e) = 0
Clear(st)          == RemoveSet(st, st.live, <<>>)

RemoveExpired(st) == DiscardIdle(st)
SetMaxSize(st, m) == Gc([st EXCEPT !.max = m])
(* an overfull condition defined by the user may change at any time; it is *)
(* looked at by the next operation that looks for space                    *)
SetMaxEntries(st, m) == Ret([st EXCEPT !.maxEnt = m], None, <<>>)

(* t < 0: no limit.  The interface forbids setting one kind of limit while *)
(* one of the other kind is in force.                                      *)
CanSetTimeout(st, t, lru) == t < 0 \/ st.idle < 0 \/ st.lru = lru
SetTimeout(st, t, lru) ==
  IF t < 0 THEN Ret([st EXCEPT !.lru = lru, !.idle = -1], None, <<>>)
  ELSE DiscardIdle([st EXCEPT !.lru = lru, !.idle = t])

-----------------------------------------------------------------------------
(* State properties, stated without reference to the algorithm *)

TypeOk(st) ==
  /\ \A e \in st.live \cup st.defr : e.pu >= 0 /\ e.pn >= 0 /\ e.id > 0 /\ e.units >= 0
  /\ \A n \in 1..Len(st.ord) : HasId(st, st.ord[n])

OneLivePerKey(st) ==
  /\ \A e, f \in st.live : e.k = f.k => e = f
  /\ \A e, f \in st.live \cup st.defr : e.id = f.id => e = f

DeferredArePinned(st) == \A e \in st.defr : Pin(e) > 0

NoDoubleLink(st) == \A m, n \in 1..Len(st.ord) : st.ord[m] = st.ord[n] => m = n

(* every unpinned entry can be evicted and can expire *)
UnpinnedAreLinked(st) == \A e \in st.live : Pin(e) = 0 => Linked(st, e.id)

(* the eviction list is ordered by last use: what makes "least recently    *)
(* used first" and "expire until the first young one" right                *)
OrderedByUse(st) ==
  \A m, n \in 1..Len(st.ord) :
    m < n => GetId(st, st.ord[m]).last >= GetId(st, st.ord[n]).last

(* over capacity only on account of pinned entries.  With a user-defined   *)
(* condition that just changed this holds from the next collection on.     *)
CapacityHeld(st) == Units(st) > st.max => \A e \in st.live : Pin(e) > 0
=============================================================================

----------------------------- MODULE MCLruCache -----------------------------
(***************************************************************************)
(* State machine over LruCache: one action per public operation, an        *)
(* environment that uses the interface legally (releases what it holds,    *)
(* with the options it acquired it with), and the properties C20-C28 as    *)
(* invariants and action properties of the design.                         *)
(* `op`, `out` record the last call and its outcome (hidden by VIEW).      *)
(***************************************************************************)
EXTENDS LruCache, Json, TLCExt

CONSTANTS Keys, Ids, Sizes, Caps, Limits, MaxPin, MaxTime, Modes, Opts, EntCaps

NoEntCap == {-1}          \* values for EntCaps
EntCapOne == {-1, 1}

VARIABLES st,      \* the cache
          op,      \* last operation
          out      \* its outcome [res, disp]
vars == <<st, op, out>>

Owned(s) == {e.id : e \in s.live \cup s.defr}
FreshId == CHOOSE i \in Ids \ Owned(st) : \A j \in Ids \ Owned(st) : i <= j
CanInsert == Ids \ Owned(st) # {}

Init == /\ \E m \in Caps, n \in EntCaps : st = InitCache(m, n)
        /\ op = [op |-> "new", max |-> st.max, maxEnt |-> st.maxEnt]
        /\ out = [res |-> None, disp |-> <<>>]

Do(r, o) == /\ st' = r.st
            /\ op' = o
            /\ out' = [res |-> r.res, disp |-> r.disp]

Pins(k) == IF Has(st, k) THEN Pin(Get(st, k)) ELSE 0

ALookup(k, u)  == Pins(k) < MaxPin /\ Do(Lookup(st, k, u), [op |-> "lookup", k |-> k, upd |-> u])
ARelease(e, u) == /\ CanRelease(st, e.k, e.id, u)
                  /\ Do(Release(st, e.k, e.id, u), [op |-> "release", k |-> e.k, id |-> e.id, upd |-> u])
AInsert(k, u)  == CanInsert /\ Do(Insert(st, k, FreshId, u),
                    [op |-> "insert", k |-> k, id |-> FreshId, units |-> u])
AInsertP(k, u) == CanInsert /\ Do(InsertPinned(st, k, FreshId, u),
                    [op |-> "insertp", k |-> k, id |-> FreshId, units |-> u])
AUpdate(k, i, u) == Do(UpdateSize(st, k, i, u), [op |-> "updatesize", k |-> k, id |-> i, units |-> u])
ARemove(k)     == Do(Remove(st, k), [op |-> "remove", k |-> k])
ARemoveAll     == Do(RemoveAll(st), [op |-> "removeall"])
ARemoveUnp     == Do(RemoveUnpinned(st), [op |-> "removeunpinned"])
AClear         == CanClear(st) /\ Do(Clear(st), [op |-> "clear"])
AExpire        == Do(RemoveExpired(st), [op |-> "expire"])
ASetMax(m)     == m # st.max /\ Do(SetMaxSize(st, m), [op |-> "setmax", max |-> m])
ASetTimeout(t, l) == /\ CanSetTimeout(st, t, l)
                     /\ <<t, l>> # <<st.idle, st.lru>>
                     /\ Do(SetTimeout(st, t, l), [op |-> "settimeout", t |-> t, lru |-> l])
ATick          == st.now < MaxTime /\ Do(Tick(st, 1), [op |-> "tick", d |-> 1])

Next == \/ \E k \in Keys, u \in Opts : ALookup(k, u)
        \/ \E e \in st.live \cup st.defr, u \in Opts : ARelease(e, u)
        \/ \E k \in Keys, u \in Sizes : AInsert(k, u) \/ AInsertP(k, u)
        \/ \E k \in Keys, i \in {None} \cup Owned(st), u \in Sizes : AUpdate(k, i, u)
        \/ \E k \in Keys : ARemove(k)
        \/ ARemoveAll \/ ARemoveUnp \/ AClear \/ AExpire \/ ATick
        \/ \E m \in Caps : ASetMax(m)
        \/ \E t \in {-1} \cup Limits, l \in Modes : ASetTimeout(t, l)

Spec == Init /\ [][Next]_vars

View == st
-----------------------------------------------------------------------------
(* Invariants *)
InvType     == TypeOk(st)
InvUnique   == OneLivePerKey(st)                       \* C24
InvDeferred == DeferredArePinned(st)                   \* C20, C24
InvList     == NoDoubleLink(st) /\ UnpinnedAreLinked(st)  \* C27
InvOrder    == OrderedByUse(st)                        \* C23, C25
InvCapacity == CapacityHeld(st)                        \* C22
InvPinned   == PinnedUnits(st) + SumUnits({e \in st.live : Pin(e) = 0})
                 + DeferredUnits(st) = Units(st)       \* C21

\* one line for many insertions is what the insertions come to
RECURSIVE Inserts(_, _, _, _, _)
Inserts(s, k, n, v, u) ==
  IF n = 0 THEN s ELSE Inserts(Insert(s, k, v, u).st, k + 1, n - 1, v + 1, u)
InvFill == \A n \in 1..2, u \in 0..1 :
  (Units(st) + n * u <= st.max /\ (st.maxEnt < 0 \/ NumEntries(st) + n <= st.maxEnt))
    => Fill(st, 100, n, 100, u).st = Inserts(st, 100, n, 100, u)

(* and so with many lookups, many releases *)
InvMany ==
  /\ \A k \in Keys, u \in Opts :
       LET a == Lookup(st, k, u)
           b == Lookup(a.st, k, u)
       IN Lookups(st, k, u, 2) = [b EXCEPT !.disp = a.disp \o @]
  /\ \A e \in st.live \cup st.defr, u \in Opts :
       CanReleases(st, e.k, e.id, u, 2) =>
         LET a == Release(st, e.k, e.id, u)
             b == Release(a.st, e.k, e.id, u)
         IN Releases(st, e.k, e.id, u, 2) = [b EXCEPT !.disp = a.disp \o @]

(* Action properties (checked on every transition) *)
Range(q) == {q[n] : n \in 1..Len(q)}
PinOf(s, i) == IF \E e \in s.live \cup s.defr : e.id = i
               THEN Pin(CHOOSE e \in s.live \cup s.defr : e.id = i) ELSE 0
Inserted == IF op'.op \in {"insert", "insertp"} THEN {op'.id} ELSE {}
Released == IF op'.op = "release" THEN {op'.id} ELSE {}

\* C20: what leaves is disposed of once, what is disposed of was not pinned
\* and is gone; nothing pinned (other than by the pin being released) leaves
DisposeOnce ==
  [][ /\ Range(out'.disp) = (Owned(st) \cup Inserted) \ Owned(st')
      /\ Len(out'.disp) = Cardinality(Range(out'.disp))
      /\ \A i \in Range(out'.disp) : PinOf(st, i) = (IF i \in Released THEN 1 ELSE 0)
    ]_vars

\* pins change only through lookup, insertPinned and release
PinsExact ==
  [][ \A i \in Owned(st) \cap Owned(st') :
        PinOf(st', i) - PinOf(st, i) =
          (IF op'.op = "lookup" /\ out'.res = i THEN 1
           ELSE IF op'.op = "release" /\ op'.id = i THEN -1 ELSE 0) ]_vars

\* C24: a lookup returns the live value of the key, if it has not expired
LookupRight ==
  [][ op'.op = "lookup" =>
        out'.res = (IF Has(st', op'.k) THEN Get(st', op'.k).id ELSE None) ]_vars

\* C22: space is made only while needed: giving back the last evicted entry
\* would exceed the capacity again
Spacers == {"insert", "insertp", "updatesize", "setmax", "release"}
EvictNeeded ==
  [][ op'.op \in {"updatesize", "setmax"} /\ out'.disp # <<>> =>
        LET last == out'.disp[Len(out'.disp)]
            e    == CHOOSE x \in st.live : x.id = last
            u    == IF op'.op = "updatesize" /\ e.k = op'.k /\ op'.id \in {None, e.id}
                    THEN op'.units ELSE e.units
        IN \/ Units(st') + u > st'.max
           \/ st'.maxEnt >= 0 /\ NumEntries(st') + 1 > st'.maxEnt ]_vars

\* C23: the victims are the least recently used unpinned entries
EvictOldest ==
  [][ op'.op \in {"insertp", "updatesize", "setmax"} =>
        \A i \in Range(out'.disp), e \in st'.live :
          (i \in Owned(st) /\ Pin(e) = 0 /\ e.id \in Owned(st)
             /\ ~(op'.op = "insertp" /\ GetId(st, i).k = op'.k))
            => GetId(st, i).last <= e.last ]_vars

\* C25: nothing on the list is older than the limit after an expiry point,
\* and only entries older than the limit were taken off by it
ExpireExact ==
  [][ op'.op \in {"lookup", "expire", "settimeout"} =>
        /\ st'.idle >= 0 => \A n \in 1..Len(st'.ord) :
               GetId(st', st'.ord[n]).last >= st'.now - st'.idle
        /\ \A e \in st.live : (e.id \notin {x.id : x \in st'.live}) =>
               st'.idle >= 0 /\ e.last < st'.now - st'.idle
        /\ \A e \in st.live : (Pin(e) = 0 /\ st'.idle >= 0 /\ e.last < st'.now - st'.idle) =>
               e.id \notin {x.id : x \in st'.live} ]_vars

\* C23/C28: an access without update leaves list and times alone
QuietAccess ==
  [][ (op'.op \in {"lookup", "release"} /\ op'.upd = FALSE /\ st.idle < 0) =>
        /\ \A e \in st.live : \A f \in st'.live : e.id = f.id => e.last = f.last
        /\ \A m, n \in 1..Len(st.ord) : m < n =>
             LET q == SelectSeq(st'.ord, LAMBDA x : x \in {st.ord[m], st.ord[n]})
             IN Len(q) = 2 => q = <<st.ord[m], st.ord[n]>> ]_vars

-----------------------------------------------------------------------------
(* Behaviours for replay: one line per transition *)
Emit == PrintT("@T " \o ToJson([f |-> TLCFP(st), t |-> TLCFP(st'), o |-> op']))
EmitInit == IF op.op = "new"
            THEN PrintT("@I " \o ToString(TLCFP(st)) \o " " \o ToString(st.max)) ELSE TRUE
=============================================================================

--------------------------- MODULE LruCacheTrace ----------------------------
(***************************************************************************)
(* Acceptance of executions of the real cache, recorded by harness/        *)
(* cachedrv.cc: each line of the trace is one public call, its result, the *)
(* values disposed of during it and what all observers report after it.    *)
(*                                                                         *)
(* LENS names the property that decides: a line is accepted if the step    *)
(* from the state before it to what was observed satisfies that property   *)
(* relative to LruCache.  The state then continues from what was observed, *)
(* so that one property is not judged by violations of another.            *)
(***************************************************************************)
EXTENDS LruCache, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
LENS  == IOEnv.LENS

VARIABLES l,      \* next line
          st,     \* LruCache state
          held,   \* id -> [u, n]: pins the client holds, from the calls alone
          pins,   \* id -> pin count last reported by the cache
          gone    \* ids disposed of so far
vars == <<l, st, held, pins, gone>>

Rng(q) == {q[n] : n \in DOMAIN q}
IdsOf(S) == {e.id : e \in S}

(* what the line shows *)
ObsLive(e) == {r[1] : r \in {x \in Rng(e.dump) : x[4] = 0}}
ObsDefr(e) == {r[1] : r \in {x \in Rng(e.dump) : x[4] = 1}}

(* the call, as a step of LruCache *)
Step(s, e) ==
  CASE e.op = "tick"       -> Tick(s, e.d)
    [] e.op = "lookup"     -> Lookups(s, e.k, e.upd, e.n)
    [] e.op = "release"    -> IF CanReleases(s, e.k, e.id, e.upd, e.n)
                              THEN Releases(s, e.k, e.id, e.upd, e.n) ELSE Ret(s, None, <<>>)
    [] e.op = "insert"     -> Insert(s, e.k, e.id, e.units)
    [] e.op = "insertp"    -> InsertPinned(s, e.k, e.id, e.units)
    [] e.op = "fill"       -> Fill(s, e.k, e.n, e.id, e.units)
    [] e.op = "updatesize" -> UpdateSize(s, e.k, e.id, e.units)
    [] e.op = "inuse"      -> Ret(s, IF StillInUse(s, e.k, e.id) THEN 1 ELSE 0, <<>>)
    \* a scope that had found nothing ends
    [] e.op = "endscope"   -> Ret(s, None, <<>>)
    [] e.op = "remove"     -> Remove(s, e.k)
    [] e.op = "removeall"  -> RemoveAll(s)
    [] e.op = "removeunpinned" -> RemoveUnpinned(s)
    [] e.op = "clear"      -> Clear(s)
    [] e.op = "expire"     -> RemoveExpired(s)
    [] e.op = "setmax"     -> SetMaxSize(s, e.max)
    [] e.op = "setmaxent"  -> SetMaxEntries(s, e.max)
    [] e.op = "settimeout" -> SetTimeout(s, e.t, e.lru)

NoPin == [u |-> 0, n |-> 0]
HeldOf(h, i) == IF i \in DOMAIN h THEN h[i] ELSE NoPin
PinCount(h, i) == HeldOf(h, i).u + HeldOf(h, i).n
SetHeld(h, i, x) == [j \in DOMAIN h \cup {i} |-> IF j = i THEN x ELSE h[j]]
HeldAfter(h, e) ==
  CASE e.op = "lookup" /\ e.res > 0 ->
         SetHeld(h, e.res, IF e.upd THEN [HeldOf(h, e.res) EXCEPT !.u = @ + e.n]
                                    ELSE [HeldOf(h, e.res) EXCEPT !.n = @ + e.n])
    [] e.op = "release" ->
         SetHeld(h, e.id, IF e.upd THEN [HeldOf(h, e.id) EXCEPT !.u = @ - e.n]
                                   ELSE [HeldOf(h, e.id) EXCEPT !.n = @ - e.n])
    [] e.op = "insertp" -> SetHeld(h, e.id, [u |-> 1, n |-> 0])
    [] OTHER -> h

(* continue from what was observed *)
Pool(s, x) == x.live \cup x.defr \cup
              {e \in s.live \cup s.defr : e.id \notin IdsOf(x.live \cup x.defr)}
RECURSIVE LinkAll(_, _)
LinkAll(s, S) ==
  IF S = {} THEN s
  ELSE LET e == CHOOSE x \in S : TRUE IN LinkAll(LinkByLast(s, e), S \ {e})
Resync(s, x, h, e) ==
  LET L == ObsLive(e)
      D == ObsDefr(e)
  IN IF L = IdsOf(x.live) /\ D = IdsOf(x.defr)
        /\ \A y \in x.live \cup x.defr : y.pu = HeldOf(h, y.id).u /\ y.pn = HeldOf(h, y.id).n
     THEN x
     ELSE LET fix(y) == [y EXCEPT !.pu = HeldOf(h, y.id).u, !.pn = HeldOf(h, y.id).n]
              live == {fix(y) : y \in {z \in Pool(s, x) : z.id \in L}}
              defr == {fix(y) : y \in {z \in Pool(s, x) : z.id \in D \ L}}
              s1   == [x EXCEPT !.live = live, !.defr = defr,
                                !.ord = SelectSeq(@, LAMBDA i : i \in IdsOf(live))]
          IN LinkAll(s1, {y \in live : ~Linked(s1, y.id) /\ Pin(y) = 0})

-----------------------------------------------------------------------------
(* The properties, each over: s (state before), e (line), x (LruCache's    *)
(* step), h (client pins after), y (state after, resynchronised)           *)

(* all entries before and after the call, with their units after it *)
All(s, e, x) ==
  LET P == Pool(s, x.st)
      Q == IF e.op \in {"insert", "insertp"} /\ e.id \notin IdsOf(P)
           THEN P \cup {Entry(e.id, e.k, e.units, 0, 0, s.now)}
           ELSE IF e.op = "fill" THEN P \cup x.st.live ELSE P
  IN IF e.op = "updatesize"
     THEN {IF z.id \in IdsOf(s.live) /\ z.id \notin IdsOf(x.st.live)
              /\ z.k = e.k /\ e.id \in {None, z.id}
           THEN [z EXCEPT !.units = e.units] ELSE z : z \in Q}
     ELSE Q
UnitsOf(A, S) == SumUnits({z \in A : z.id \in S})
NewId(e) == IF e.op \in {"insert", "insertp"} THEN {e.id}
            ELSE IF e.op = "fill" THEN e.id..(e.id + e.n - 1) ELSE {}
OldOf(s, k) == {z.id : z \in {w \in s.live : w.k = k}}

\* C20
PinSafe(s, e, x, h) ==
  LET D == Rng(e.disp)
      O == ObsLive(e) \cup ObsDefr(e)
  IN /\ Cardinality(D) = Len(e.disp)
     /\ D \cap gone = {}
     /\ D \cap O = {}
     /\ \A i \in D : PinCount(h, i) <= 0
     /\ (IdsOf(s.live \cup s.defr) \cup NewId(e)) \ D = O
     /\ ObsLive(e) \cap ObsDefr(e) = {}
     /\ e.op = "lookup" => e.res >= 0 /\ e.res \notin gone \cup D

\* C21
Accounting(s, e, x, h) ==
  LET L == ObsLive(e)
      D == ObsDefr(e)
      A == All(s, e, x)
  IN /\ e.size = UnitsOf(A, L \cup D)
     /\ e.ent = Cardinality(L)
     /\ e.dsz = UnitsOf(A, D)
     /\ e.dent = Cardinality(D)
     /\ e.psz = UnitsOf(A, {i \in L : PinCount(h, i) > 0})
     /\ e.msz = x.st.max

\* C22
SpaceOps == {"insert", "insertp", "updatesize", "setmax", "release"}
(* pinned entries do not make space: they stay, unless replaced *)
PinnedStay(s, e, h) ==
  \A z \in s.live : PinCount(h, z.id) > 0 /\ z.id \notin ObsLive(e) =>
     e.op \in {"insert", "insertp"} /\ z.k = e.k
(* values disposed of to make space *)
Victims(s, e) ==
  CASE e.op \in {"insert", "insertp"} ->
         SelectSeq(e.disp, LAMBDA i : i \notin OldOf(s, e.k))
    [] e.op = "release" -> SelectSeq(e.disp, LAMBDA i : i \in IdsOf(s.live))
    [] OTHER -> e.disp
Capacity(s, e, x, h) ==
  LET L == ObsLive(e)
      D == ObsDefr(e)
      A == All(s, e, x)
      U == UnitsOf(A, L \cup D)
      v == Victims(s, e)
      free == {i \in L : PinCount(h, i) = 0}
      OverWith(S) == \/ UnitsOf(A, L \cup D \cup S) > x.st.max
                     \/ x.st.maxEnt >= 0 /\ Cardinality(L \cup S) > x.st.maxEnt
  IN e.op \in SpaceOps =>
     /\ PinnedStay(s, e, h)
     /\ U > x.st.max => free = {}
     /\ (e.op \in {"insert", "insertp", "updatesize", "setmax"} /\ OverWith({})) => free = {}
     /\ (e.op = "release" /\ OverWith({})) => e.id \notin free
     /\ \A n \in 1..Len(v) : OverWith({v[m] : m \in n..Len(v)})

\* C23: victims are the oldest unpinned entries, oldest first
EvictOrder(s, e, x, h) ==
  LET v0 == SelectSeq(Victims(s, e), LAMBDA i : i \notin NewId(e))
      old == IF e.op \in {"insert", "insertp"} THEN OldOf(s, e.k) ELSE {}
      cand == Reverse(SelectSeq(s.ord, LAMBDA i : PinCount(h, i) = 0 /\ i \notin old))
  IN e.op \in {"insert", "insertp", "updatesize", "setmax"} =>
       /\ PinnedStay(s, e, h)
       /\ v0 = SubSeq(cand, 1, Len(v0))

\* C24
LookupLatest(s, e, x, h) ==
  LET L == ObsLive(e)
      D == ObsDefr(e)
      X == IdsOf(x.st.live)
  IN /\ e.op = "lookup" =>
          /\ X \subseteq L
          /\ e.res = (IF \E z \in s.live : z.k = e.k /\ z.id \in L
                      THEN (CHOOSE z \in s.live : z.k = e.k /\ z.id \in L).id ELSE 0)
     /\ e.op \in {"endscope", "fill", "remove", "removeall", "removeunpinned", "clear", "inuse", "tick", "setmaxent"} =>
          L = X /\ D = IdsOf(x.st.defr)
     /\ e.op \in {"insert", "insertp"} =>
          /\ OldOf(s, e.k) \cap L = {}
          /\ \A i \in OldOf(s, e.k) : PinCount(h, i) > 0 => i \in D
          /\ IdsOf(s.defr) \subseteq D
          /\ e.op = "insertp" => e.id \in L
     \* where nothing has to make space, nothing disappears
     /\ e.op \in {"insert", "insertp", "updatesize", "setmax"} =>
          LET rest == IdsOf(s.live) \ (IF e.op \in {"insert", "insertp"} THEN OldOf(s, e.k) ELSE {})
          IN rest \subseteq X => rest \subseteq L
     /\ e.op = "release" =>
          /\ e.id \in IdsOf(s.defr) => L = IdsOf(s.live) /\ D = IdsOf(x.st.defr)
          /\ e.id \in IdsOf(s.live) => L \cup {e.id} = IdsOf(s.live) /\ D = IdsOf(s.defr)
     /\ e.op = "inuse" =>
          (e.res = 1) = (\E z \in Pool(s, x.st) : z.k = e.k /\ z.id \in L \cup D
                                                  /\ e.id \in {None, z.id})

\* C25
Expiry(s, e, x, h) ==
  /\ e.op \in {"lookup", "expire", "settimeout", "fill"} => ObsLive(e) = IdsOf(x.st.live)
  /\ e.op = "lookup" => (e.res > 0) = (x.res > 0)
  /\ e.op \in {"tick", "inuse", "setmaxent", "endscope"} => ObsLive(e) = IdsOf(s.live)
  /\ e.op \in {"insert", "insertp", "release", "updatesize", "setmax"} =>
       \A z \in s.live : (z.id \notin ObsLive(e) /\ PinCount(h, z.id) > 0) =>
           e.op \in {"insert", "insertp"} /\ z.k = e.k

\* C26
LiveRows(y) == {<<z.id, Pin(z), z.last, 0>> : z \in y.live}
DefRows(y)  == {<<z.id, Pin(z), z.last, 1>> : z \in y.defr}
Observers(s, e, x, h, y) ==
  LET L == {z \in y.live : z.id \in ObsLive(e)}
  IN /\ Rng(e.dump) = LiveRows(y) \cup DefRows(y)
     /\ Len(e.dump) = Cardinality(y.live) + Cardinality(y.defr)
     /\ e.text = e.dump
     /\ Rng(e.iter) = {<<z.k, z.id, z.last>> : z \in y.live}
     /\ Len(e.iter) = Cardinality(y.live)
     /\ \A k \in DOMAIN e.use : e.use[k] = LastUse(y, k)
     /\ \A k \in DOMAIN e.inuse : (e.inuse[k] = 1) = StillInUse(y, k, None)
     /\ e.age = AgeOfLru(y)
     /\ e.summ = ToString(PinnedUnits(y)) \o "/" \o ToString(DeferredUnits(y)) \o "/"
                   \o ToString(Units(y)) \o " p/d/a"
     /\ e.head = "SimpleLRUCache of " \o ToString(NumEntries(y)) \o " elements plus "
                   \o ToString(NumDeferred(y)) \o " deferred elements (" \o ToString(Units(y))
                   \o " units, " \o ToString(y.max) \o " max units)"

\* C28
PinsIn(e) == [i \in {r[1] : r \in Rng(e.dump)} |->
                (CHOOSE r \in Rng(e.dump) : r[1] = i)[2]]
At(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
Scoped(s, e, x, h, y) ==
  \* whatever happens meanwhile, a scope shows what it was opened with
  /\ \A r \in Rng(e.scopes) : r[2] = r[1] /\ (r[3] = 1) = (r[1] > 0)
  /\ e.op = "endscope" =>
       /\ PinsIn(e) = pins
       /\ LiveRows(y) \cup DefRows(y) = Rng(e.dump)
       /\ e.disp = <<>>
  /\ (e.op \in {"lookup", "release"} /\ e.via = "scope") =>
    LET p == PinsIn(e)
        me == IF e.op = "lookup" THEN e.res ELSE e.id
        d  == IF e.op = "lookup" THEN 1 ELSE -1
    IN /\ \A i \in (DOMAIN p \cup DOMAIN pins) \ {0} :
            (i \in DOMAIN p \/ (e.op = "release" /\ i = me)) =>
               At(p, i) = At(pins, i) + (IF i = me THEN d ELSE 0)
       /\ e.op = "lookup" =>
            e.res = (IF \E z \in s.live : z.k = e.k /\ z.id \in ObsLive(e)
                     THEN (CHOOSE z \in s.live : z.k = e.k /\ z.id \in ObsLive(e)).id ELSE 0)
       /\ \A r \in Rng(e.dump) : r[1] = me =>
            r[3] = (CHOOSE z \in y.live \cup y.defr : z.id = me).last
       /\ (e.op = "release" /\ me \in IdsOf(y.live)) =>
            AgeOfLru(y) = e.age

\* everything (C27)
Exact(s, e, x, h, y) ==
  /\ e.disp = x.disp \/ (e.op \in {"removeall", "removeunpinned", "clear"}
                          /\ Rng(e.disp) = Rng(x.disp) /\ Len(e.disp) = Len(x.disp))
  /\ e.op \in {"lookup", "inuse"} => e.res = x.res
  /\ Accounting(s, e, x, h)
  /\ y = x.st
  /\ Observers(s, e, x, h, y)

LensOk(s, e, x, h, y) ==
  CASE LENS = "C20" -> PinSafe(s, e, x, h)
    [] LENS = "C21" -> Accounting(s, e, x, h)
    [] LENS = "C22" -> Capacity(s, e, x, h)
    [] LENS = "C23" -> EvictOrder(s, e, x, h)
    [] LENS = "C24" -> LookupLatest(s, e, x, h)
    [] LENS = "C25" -> Expiry(s, e, x, h)
    [] LENS = "C26" -> Observers(s, e, x, h, y)
    [] LENS = "C27" -> Exact(s, e, x, h, y)
    [] LENS = "C28" -> Scoped(s, e, x, h, y)
    \* C31: keys that own nothing make no difference
    [] LENS = "C31" -> Exact(s, e, x, h, y)
    [] LENS = "C32" -> TRUE

NewOk(e) ==
  /\ LENS \in {"C20", "C27", "C31"} => e.alive = 0 /\ e.disp = <<>>
  \* C32: the last cache gave back all it took
  /\ LENS = "C32" => e.heap = 0
  /\ LENS = "C21" => e.size = 0 /\ e.ent = 0 /\ e.psz = 0 /\ e.dsz = 0 /\ e.dent = 0 /\ e.msz = e.max
  /\ LENS = "C26" => e.dump = <<>> /\ e.iter = <<>>

Reject(e, what) == PrintT(<<"REJECT", LENS, l, what>>) /\ FALSE

-----------------------------------------------------------------------------
TraceInit == /\ l = 1 /\ st = InitCache(0, -1) /\ held = << >> /\ pins = << >> /\ gone = {}

TraceNew ==
  /\ l <= Len(Trace) /\ Trace[l].op = "new"
  /\ LET e == Trace[l] IN
     /\ IF NewOk(e) THEN TRUE ELSE Reject(e, e)
     /\ st' = InitCache(e.max, e.maxEnt)
     /\ held' = << >> /\ pins' = << >> /\ gone' = {}
     /\ l' = l + 1

\* C32: the same rounds of calls do not take more and more
TraceRounds ==
  /\ l <= Len(Trace) /\ Trace[l].op = "rounds"
  /\ LET e == Trace[l] IN
     IF LENS = "C32" => \E n \in 1..Len(e.growth) : e.growth[n] <= 0 THEN TRUE ELSE Reject(e, e)
  /\ l' = l + 1 /\ UNCHANGED <<st, held, pins, gone>>

TraceCall ==
  /\ l <= Len(Trace) /\ Trace[l].op \notin {"new", "rounds"}
  /\ LET e == Trace[l]
         x == Step(st, e)
         h == HeldAfter(held, e)
         y == Resync(st, x.st, h, e)
     IN /\ IF LensOk(st, e, x, h, y) THEN TRUE
           ELSE Reject(e, [event |-> e, before |-> st, expected |-> x])
        /\ st' = y /\ held' = h /\ pins' = PinsIn(e)
        /\ gone' = gone \cup Rng(e.disp)
        /\ l' = l + 1

TraceNext == TraceNew \/ TraceRounds \/ TraceCall
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

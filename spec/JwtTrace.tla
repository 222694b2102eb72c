------------------------------ MODULE JwtTrace ------------------------------
(***************************************************************************)
(* Acceptance of executions of the real library, recorded by harness/      *)
(* jwtdrv.cc.  The state is what the calls alone determine: the signatures *)
(* made, the text each token object was last given, the key sets the       *)
(* documents denote.  LENS names the property that decides; a line is      *)
(* accepted if what the code showed satisfies it.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
LENS  == IOEnv.LENS

T == INSTANCE JwtToken WITH Base <- 65536
A == INSTANCE Audience
K == INSTANCE JwkSet
V == INSTANCE JwtVerify
S == INSTANCE StructAccess

VARIABLES l,       \* next line
          signed,  \* signatures made
          toks,    \* slot -> [doc, ok, f]: token objects; f the fields if ok
          ksets,   \* slot -> [st, keys]: key sets
          names    \* status -> description, as far as seen
vars == <<l, signed, toks, ksets, names>>
ViewL == l

Set(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
NoTok == [ok |-> FALSE, doc |-> [n |-> 0, empty |-> TRUE, text |-> ""],
          nbf |-> T!Zero, exp |-> T!Zero, aud |-> <<>>, known |-> TRUE, pure |-> TRUE]
Tok(i) == IF i \in DOMAIN toks THEN toks[i] ELSE NoTok

-----------------------------------------------------------------------------
(* States *)
TokOf(d) ==
  LET ok == T!Defect(d) = "Ok"
  IN [ok |-> ok, doc |-> d,
      nbf |-> IF ok THEN T!Number(d.p.nbf) ELSE T!Zero,
      exp |-> IF ok THEN T!Number(d.p.exp) ELSE T!Zero,
      aud |-> IF ok THEN T!Texts(d.p.aud) ELSE <<>>,
      known |-> ok,   \* are nbf, exp and aud what is recorded here?
      pure |-> TRUE]  \* nobody has written the members

AfterLoad(e) ==
  IF e.type = "JWKS"
  THEN [keys |-> IF K!LoadKeysOk(e.doc, e.keys) THEN e.keys ELSE K!LoadKeys(e.doc),  \* the order found, where it is free
        st   |-> IF e.st \in K!LoadStatuses(e.doc) THEN e.st
                 ELSE CHOOSE s \in K!LoadStatuses(e.doc) : TRUE]
  ELSE [keys |-> K!PemKeys(e.doc, e.kid, e.alg), st |-> K!PemStatus(e.doc)]
AfterAdd(s, e) ==
  [s EXCEPT !.keys = @ \o K!PemKeys(e.doc, e.kid, e.alg)]

\* after a caller wrote the public members nothing is known of them
Spoilt == [NoTok EXCEPT !.known = FALSE, !.pure = FALSE]
\* a copy of such an object: of its text or of its members, who knows
Foreign(e) == e.via \in {"copy", "assign"} /\ ~Tok(e.src).pure

Next_signed(e) ==
  CASE e.op = "new"  -> {}
    [] e.op = "sign" -> signed \cup {[key |-> e.key, kind |-> e.kind, md |-> e.md, msg |-> e.msg, sig |-> e.sig]}
    [] OTHER -> signed
Next_toks(e) ==
  CASE e.op = "new"   -> <<>>
    [] e.op = "parse" -> Set(toks, e.slot, IF Foreign(e) THEN Spoilt ELSE TokOf(e.doc))
    [] e.op = "mess"  -> Set(toks, e.slot, Spoilt)
    [] e.op = "setf"  ->
         Set(toks, e.slot, [Tok(e.slot) EXCEPT !.exp = IF e.se THEN e.exp ELSE @,
                                               !.nbf = IF e.sn THEN e.nbf ELSE @,
                                               !.known = @ \/ (e.se /\ e.sn),
                                               !.pure = FALSE])
    [] e.op = "drop" /\ e.slot >= 0 -> Set(toks, e.slot, NoTok)
    [] OTHER -> toks
Next_ksets(e) ==
  CASE e.op = "new"    -> <<>>
    [] e.op = "load"   -> Set(ksets, e.kslot, AfterLoad(e))
    [] e.op = "addpem" -> Set(ksets, e.kslot, AfterAdd(ksets[e.kslot], e))
    [] OTHER -> ksets
Next_names(e) ==
  IF e.op # "status" THEN names
  ELSE [s \in DOMAIN names \cup {e.seen[n][1] : n \in 1..Len(e.seen)} |->
          IF s \in DOMAIN names THEN names[s]
          ELSE e.seen[CHOOSE n \in 1..Len(e.seen) : e.seen[n][1] = s][2]]

-----------------------------------------------------------------------------
(* What a verification has to give *)
Tv(t) == [alg |-> t.doc.h.alg.v, kid |-> T!Text(t.doc.h.kid), msg |-> t.doc.msg,
          sig |-> t.doc.s.sig, len |-> t.doc.s.len]
Keys(c)    == ksets[c.kslot].keys
Sig(c)     == V!Verdict(Tv(Tok(c.slot)), Keys(c), signed)
Genuine(c) == \E k \in V!RangeOfKeys(Keys(c)) :
                V!Fits(k, Tv(Tok(c.slot))) /\ V!Made(k, Tv(Tok(c.slot)), signed)
Matched(c) == \E k \in V!RangeOfKeys(Keys(c)) : V!Matches(k, Tv(Tok(c.slot)))
HasAud(c)  == c.entry \in {"audwall", "audnow"}
HasTime(c) == c.entry # "sig"
AudOk(c)   == ~HasAud(c) \/ A!Allowed(c.auds, Tok(c.slot).aud)
Time(c)    == IF HasTime(c) THEN T!TimeStatus(Tok(c.slot).nbf, Tok(c.slot).exp, c.now, c.skew) ELSE "Ok"
Expected(c) == V!Composed(AudOk(c), Time(c), Sig(c))
SigStage == {"Ok", "JwksKidAlgMismatch", "JwtVerificationFail", "JwtEd25519SignatureWrongLength"}

(* One verification c that gave st, judged by the property *)
Judged(c, st) ==
  IF ~Tok(c.slot).pure /\ ~Tok(c.slot).ok /\ ~Tok(c.slot).known THEN TRUE
  ELSE IF ~Tok(c.slot).ok
  THEN CASE LENS \in {"C01", "C07", "C08", "C10"} -> st # "Ok"
         [] LENS = "C05" -> Tok(c.slot).known /\ HasTime(c) /\ ~HasAud(c) =>
                              IF Time(c) = "Ok" THEN st \notin {"JwtExpired", "JwtNotYetValid"} ELSE st = Time(c)
         [] OTHER -> TRUE
  ELSE
  CASE LENS = "C01" -> st = "Ok" => Genuine(c)
    [] LENS = "C02" -> Sig(c) = "Ok" => st = Expected(c)
    [] LENS = "C03" ->
         /\ st = "Ok" => \E k \in V!RangeOfKeys(Keys(c)) : V!Vouches(k, Tv(Tok(c.slot)), signed)
         /\ (AudOk(c) /\ Time(c) = "Ok" /\ st # "Ok") => (st = "JwksKidAlgMismatch") = ~Matched(c)
         /\ (AudOk(c) /\ Time(c) = "Ok") => st \in SigStage
    [] LENS \in {"C04", "C18"} -> (AudOk(c) /\ Time(c) = "Ok") => st = Sig(c)
    [] LENS = "C05" -> AudOk(c) => IF Time(c) = "Ok" THEN st \notin {"JwtExpired", "JwtNotYetValid"} ELSE st = Time(c)
    [] LENS = "C06" -> (st = "JwtAudienceNotAllowed") = ~AudOk(c)
    [] LENS \in {"C07", "C10", "C17", "C30"} -> st = Expected(c)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The properties that are not about verification *)
JwtStatuses == {"Ok", "JwtBadFormat", "JwtHeaderParseErrorBadBase64", "JwtHeaderParseErrorBadJson", "JwtHeaderBadAlg",
  "JwtHeaderNotImplementedAlg", "JwtHeaderBadKid", "JwtPayloadParseErrorBadBase64", "JwtPayloadParseErrorBadJson",
  "JwtPayloadParseErrorIssNotString", "JwtPayloadParseErrorSubNotString", "JwtPayloadParseErrorIatNotInteger",
  "JwtPayloadParseErrorIatOutOfRange", "JwtPayloadParseErrorNbfNotInteger", "JwtPayloadParseErrorNbfOutOfRange",
  "JwtPayloadParseErrorExpNotInteger", "JwtPayloadParseErrorExpOutOfRange", "JwtPayloadParseErrorJtiNotString",
  "JwtPayloadParseErrorAudNotString", "JwtSignatureParseErrorBadBase64"}
VerifyStatuses == SigStage \cup {"JwtNotYetValid", "JwtExpired", "JwtAudienceNotAllowed"}
LoadStatuses == {"Ok", "JwksParseError", "JwksNoKeys", "JwksBadKeys", "JwksNoValidKeys", "JwksMissingKty", "JwksBadKty",
  "JwksNotImplementedKty", "JwksRSAKeyBadAlg", "JwksRSAKeyMissingN", "JwksRSAKeyBadN", "JwksRSAKeyMissingE",
  "JwksRSAKeyBadE", "JwksRsaParseError", "JwksECKeyBadAlg", "JwksECKeyBadCrv", "JwksECKeyAlgNotCompatibleWithCrv",
  "JwksECKeyAlgOrCrvUnsupported", "JwksECKeyMissingX", "JwksECKeyBadX", "JwksECKeyMissingY", "JwksECKeyBadY",
  "JwksEcXorYBadBase64", "JwksEcParseError", "JwksEcCreateKeyFail", "JwksHMACKeyBadAlg", "JwksHMACKeyMissingK",
  "JwksHMACKeyBadK", "JwksOctBadBase64", "JwksOKPKeyBadAlg", "JwksOKPKeyMissingCrv", "JwksOKPKeyBadCrv",
  "JwksOKPKeyCrvUnsupported", "JwksOKPKeyMissingX", "JwksOKPKeyBadX", "JwksOKPXBadBase64", "JwksOKPXWrongLength",
  "JwksX509ParseError", "JwksX509GetPubkeyError", "JwksX509BioWriteError", "JwksPemBadBase64", "JwksPemNotImplementedKty",
  "JwksPemGetRawEd25519Error", "JwksBioAllocError"}
\* every result is a documented reason of its call, success included
Documented(e) ==
  CASE e.op = "parse"  -> e.st \in JwtStatuses \cup {"none"} /\ e.fst \in JwtStatuses
    [] e.op = "load"   -> e.st \in LoadStatuses
    [] e.op = "addpem" -> e.st \in LoadStatuses /\ e.res \in LoadStatuses
    [] e.op = "verify" -> e.st \in VerifyStatuses
    [] e.op = "time"   -> e.st \in VerifyStatuses
    [] e.op = "conc"   -> \A n \in 1..Len(e.jobs) : {e.jobs[n].res[m] : m \in 1..Len(e.jobs[n].res)} \subseteq VerifyStatuses
    [] OTHER -> TRUE

ParseStatus(e) == /\ e.fst = T!Defect(e.doc)
                  /\ e.via \in {"parse", "own"} => e.st = T!Defect(e.doc)
ParseFields(e) == (T!Defect(e.doc) = "Ok" /\ e.st \in {"Ok", "none"}) => e.got = T!Fields(e.doc)
Unhistoric(e)  == \/ Foreign(e)
                  \/ /\ e.got = e.fresh
                     /\ e.via \in {"parse", "own"} => e.st = e.fst
                     /\ e.srcgot = e.fresh
                     /\ ParseFields(e)
ReadVerified(e) == (T!Defect(e.doc) = "Ok" /\ e.st \in {"Ok", "none"}) =>
                     LET f == T!Fields(e.doc)
                     IN \A x \in {"hraw", "hdec", "hpb", "praw", "pdec", "ppb", "sig", "alg", "kid"} : e.got[x] = f[x]

\* The curve label of a key counts only where the algorithm does not contradict
\* the material (a PEM key may be given any algorithm).
CurveIs(mat, c) == Len(mat) >= 8 /\ SubSeq(mat, 1, 8) = "EC:" \o c
SameKey(a, b) == /\ a.kty = b.kty /\ a.kid = b.kid /\ a.alg = b.alg /\ a.mat = b.mat
                 /\ LET c == K!CurveOfAlg(b.alg)
                    IN CASE b.kty = "EC" /\ c = ""               -> a.crv = b.crv \/ CurveIs(b.mat, a.crv)
                         [] b.kty = "EC" /\ CurveIs(b.mat, c)    -> a.crv = b.crv
                         [] b.kty = "OKP" /\ c = ""              -> a.crv = b.crv
                         [] OTHER                                -> TRUE
SameKeys(q, r) == Len(q) = Len(r) /\ \A n \in 1..Len(q) : SameKey(q[n], r[n])

IsList(e) == e.op = "load" /\ e.type = "JWKS" /\ (~e.doc.json \/ e.doc.keys # "none")
IsMapDoc(e) == e.op = "load" /\ e.type = "JWKS" /\ e.doc.json /\ e.doc.keys = "none"
LoadRight(e) == e.st \in K!LoadStatuses(e.doc) /\ K!LoadKeysOk(e.doc, e.keys)
PemRight(e) == /\ e.st = K!PemStatus(e.doc)
               /\ SameKeys(e.keys, K!PemKeys(e.doc, e.kid, e.alg))
AddRight(e) == LET s == ksets[e.kslot]
               IN /\ e.res = K!PemStatus(e.doc)
                  /\ e.st = s.st
                  /\ SameKeys(e.keys, AfterAdd(s, e).keys)

LooksRight(e) ==
  IF e.slot >= 0
  THEN LET t == Tok(e.slot) IN (t.pure /\ t.ok) => e.got = T!Fields(t.doc)
  ELSE e.st = ksets[e.kslot].st /\ SameKeys(e.keys, ksets[e.kslot].keys)

StructRight(e) == /\ e.same
                  /\ \A n \in 1..Len(e.qs) : LET x == e.qs[n]
                       IN x.res = S!Result(e.tree, x.path, x.get) /\ S!OutOk(e.tree, x.path, x.get, x.out)

NamesRight(e) ==
  LET now == Next_names(e)
  IN /\ \A n \in 1..Len(e.seen) : e.seen[n][2] # "" /\ e.seen[n][2] = now[e.seen[n][1]]
     /\ \A a, b \in DOMAIN now : now[a] = now[b] => a = b
\* the first failure reported is kept until reset
Hold(s, o) == IF o[1] = "r" THEN o[2] ELSE IF s = "Ok" THEN o[2] ELSE s
HolderRight(e) ==
  LET RECURSIVE H(_, _)
      H(n, s) == n > Len(e.seen) \/ (LET t == IF e.seen[n][1] = "start" THEN "Ok" ELSE Hold(s, e.seen[n])
                                     IN e.seen[n][3] = t /\ H(n + 1, t))
  IN H(1, "Ok")

AudRight(e) == /\ e.empty = (Len(e.cfg) = 0)
               /\ \A n \in 1..Len(e.qs) : e.qs[n].ok = A!Allowed(e.cfg, e.qs[n].aud)
TimeRight(e) == Tok(e.slot).known => e.st = T!TimeStatus(Tok(e.slot).nbf, Tok(e.slot).exp, e.now, e.skew)

Results(j) == {j.res[m] : m \in 1..Len(j.res)}
Accepts(e) ==
  /\ e.op = "verify" => Judged(e, e.st)
  /\ e.op = "conc" => \A n \in 1..Len(e.jobs) : \A st \in Results(e.jobs[n]) : Judged(e.jobs[n], st)
  /\ CASE LENS = "C05" -> e.op = "time" => TimeRight(e)
       [] LENS = "C06" -> e.op = "aud" => AudRight(e)
       [] LENS = "C08" -> e.op = "parse" => ParseStatus(e)
       [] LENS = "C09" -> e.op = "parse" => Foreign(e) \/ ParseFields(e)
       [] LENS = "C10" -> e.op = "parse" => Unhistoric(e)
       [] LENS \in {"C11", "C12"} -> IsList(e) => LoadRight(e)
       [] LENS = "C13" -> /\ (e.op = "load" /\ e.type # "JWKS") => PemRight(e)
                          /\ e.op = "addpem" => AddRight(e)
       [] LENS = "C14" -> IsMapDoc(e) => LoadRight(e)
       [] LENS = "C15" -> e.op = "struct" => StructRight(e)
       [] LENS = "C16" -> (e.op = "status" => NamesRight(e)) /\ (e.op = "holder" => HolderRight(e))
       [] LENS = "C17" -> /\ e.op = "verify" => e.alike /\ e.same /\ ~e.err
                          /\ e.op = "conc" => /\ e.err = 0 /\ e.same /\ e.strings
                                              /\ \A n \in 1..Len(e.jobs) : Cardinality(Results(e.jobs[n])) = 1
       [] LENS = "C18" -> e.op = "parse" => Foreign(e) \/ ReadVerified(e)
       [] LENS = "C19" -> Documented(e)
       \* no error of the crypto library is left pending on the thread
       [] LENS = "C29" -> /\ e.op \in {"load", "addpem", "parse", "verify"} => ~e.err
                          /\ e.op = "conc" => e.err = 0
       \* objects are what they were made from, whatever became of that
       [] LENS = "C30" -> /\ e.op = "look" => LooksRight(e)
                          /\ e.op = "parse" => Unhistoric(e)
                          /\ e.op = "aud" => AudRight(e)
                          /\ (e.op = "load" /\ e.type = "JWKS") => LoadRight(e)
                          /\ (e.op = "load" /\ e.type # "JWKS") => PemRight(e)
                          /\ e.op = "addpem" => AddRight(e)
       \* the same calls over and over do not need more and more memory
       [] LENS = "C32" -> e.op = "heap" => \E n \in 1..Len(e.growth) : e.growth[n] <= 0
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
Init == l = 1 /\ signed = {} /\ toks = <<>> /\ ksets = <<>> /\ names = <<>>

\* what a reader of a rejection needs
Explain(e) ==
  CASE e.op \in {"verify"} /\ Tok(e.slot).ok ->
         [expected |-> Expected(e), sig |-> Sig(e), time |-> Time(e), aud |-> AudOk(e), keys |-> Keys(e), tok |-> Tv(Tok(e.slot))]
    [] e.op = "parse" -> [expected |-> T!Defect(e.doc)]
    [] e.op = "load" -> [expected |-> AfterLoad(e)]
    [] OTHER -> [expected |-> "see the line"]

Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
           IN IF Accepts(e)
              THEN /\ l' = l + 1
                   /\ signed' = Next_signed(e)
                   /\ toks' = Next_toks(e)
                   /\ ksets' = Next_ksets(e)
                   /\ names' = Next_names(e)
              ELSE /\ PrintT(<<"REJECT", l, LENS, Explain(e), e>>)
                   /\ FALSE
                   /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------- MODULE JwkSet -------------------------------
(***************************************************************************)
(* Loading of key sets (C11-C14), over facts about the document: for each  *)
(* entry the type (and value) of kty, kid, alg and crv, whether x, y, n, e *)
(* and k are text that decodes, and the key material they denote, if any:  *)
(* e.ec[c] for a point of curve c, e.rsa, e.okp, e.oct ("" if none).       *)
(* A loaded key is [kty, kid, alg, crv, mat].                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Str(v) == IF v.t = "str" THEN v.v ELSE ""
Prefixed(s, P) == Len(s) >= 2 /\ SubSeq(s, 1, 2) \in P

Curves == {"P-256", "P-384", "P-521"}
CurveOfAlg(a) == CASE a = "ES256" -> "P-256" [] a = "ES384" -> "P-384"
                   [] a = "ES512" -> "P-521" [] OTHER -> ""

Rsa(e, alg) ==
  IF alg # "" /\ ~Prefixed(alg, {"RS", "PS"}) THEN "JwksRSAKeyBadAlg"
  ELSE IF e.n.t = "none" THEN "JwksRSAKeyMissingN"
  ELSE IF e.n.t # "str" THEN "JwksRSAKeyBadN"
  ELSE IF e.e.t = "none" THEN "JwksRSAKeyMissingE"
  ELSE IF e.e.t # "str" THEN "JwksRSAKeyBadE"
  ELSE IF ~e.n.b64 \/ ~e.e.b64 \/ ~e.eok \/ e.rsa = "" THEN "JwksRsaParseError"
  ELSE "Ok"

EcCurve(alg, crv) == IF alg # "" THEN CurveOfAlg(alg)
                     ELSE IF crv = "" THEN "P-256"
                     ELSE IF crv \in Curves THEN crv ELSE ""
Ec(e, alg) ==
  LET crv == Str(e.crv)
      c   == EcCurve(alg, crv)
  IN IF alg # "" /\ ~Prefixed(alg, {"ES"}) THEN "JwksECKeyBadAlg"
     ELSE IF e.crv.t = "other" THEN "JwksECKeyBadCrv"
     ELSE IF alg # "" /\ crv # "" /\ (CurveOfAlg(alg) = "" \/ CurveOfAlg(alg) # crv)
          THEN "JwksECKeyAlgNotCompatibleWithCrv"
     ELSE IF c = "" THEN "JwksECKeyAlgOrCrvUnsupported"
     ELSE IF e.x.t = "none" THEN "JwksECKeyMissingX"
     ELSE IF e.x.t # "str" THEN "JwksECKeyBadX"
     ELSE IF e.y.t = "none" THEN "JwksECKeyMissingY"
     ELSE IF e.y.t # "str" THEN "JwksECKeyBadY"
     ELSE IF ~e.x.b64 \/ ~e.y.b64 THEN "JwksEcXorYBadBase64"
     ELSE IF e.ec[c] = "" THEN "JwksEcParseError"
     ELSE "Ok"

Oct(e, alg) ==
  IF alg # "" /\ alg \notin {"HS256", "HS384", "HS512"} THEN "JwksHMACKeyBadAlg"
  ELSE IF e.k.t = "none" THEN "JwksHMACKeyMissingK"
  ELSE IF e.k.t # "str" THEN "JwksHMACKeyBadK"
  ELSE IF ~e.k.b64 \/ e.k.len = 0 THEN "JwksOctBadBase64"
  ELSE "Ok"

Okp(e, alg) ==
  IF alg # "" /\ alg # "EdDSA" THEN "JwksOKPKeyBadAlg"
  ELSE IF e.crv.t = "none" THEN "JwksOKPKeyMissingCrv"
  ELSE IF e.crv.t # "str" THEN "JwksOKPKeyBadCrv"
  ELSE IF e.crv.v # "Ed25519" THEN "JwksOKPKeyCrvUnsupported"
  ELSE IF e.x.t = "none" THEN "JwksOKPKeyMissingX"
  ELSE IF e.x.t # "str" THEN "JwksOKPKeyBadX"
  ELSE IF ~e.x.b64 THEN "JwksOKPXBadBase64"
  ELSE IF e.x.len # 32 THEN "JwksOKPXWrongLength"
  ELSE "Ok"

\* The reason an entry is rejected for, or Ok (C12).  An alg or kid that is
\* not text counts as absent.
EntryStatus(e) ==
  LET kty == Str(e.kty)
      alg == Str(e.alg)
  IN IF e.kty.t = "none" THEN "JwksMissingKty"
     ELSE IF e.kty.t # "str" THEN "JwksBadKty"
     ELSE CASE kty = "EC"  -> Ec(e, alg)
            [] kty = "RSA" -> Rsa(e, alg)
            [] kty = "oct" -> Oct(e, alg)
            [] kty = "OKP" -> Okp(e, alg)
            [] OTHER       -> "JwksNotImplementedKty"
EntryKey(e) ==
  LET kty == Str(e.kty)
      c   == IF kty = "EC" THEN EcCurve(Str(e.alg), Str(e.crv))
             ELSE IF kty = "OKP" THEN Str(e.crv) ELSE ""
  IN [kty |-> kty, kid |-> Str(e.kid), alg |-> Str(e.alg), crv |-> c,
      mat |-> CASE kty = "EC" -> e.ec[c] [] kty = "RSA" -> e.rsa
                [] kty = "oct" -> e.oct [] kty = "OKP" -> e.okp]

Entries(list) == SelectSeq(list, LAMBDA e : e.obj)   \* others are ignored
Good(list)    == SelectSeq(Entries(list), LAMBDA e : EntryStatus(e) = "Ok")
Bad(list)     == SelectSeq(Entries(list), LAMBDA e : EntryStatus(e) # "Ok")

ListKeys(list)   == [n \in 1..Len(Good(list)) |-> EntryKey(Good(list)[n])]
ListStatus(list) == IF Good(list) # <<>> THEN "Ok"
                    ELSE IF Bad(list) # <<>> THEN EntryStatus(Bad(list)[1])
                    ELSE "JwksNoValidKeys"

(* Certificate maps (C14) *)
IsMap(map) == Len(map) > 0 /\ \A n \in 1..Len(map) : map[n].kid # "" /\ map[n].str /\ map[n].shape
CertStatus(m) == IF ~m.parsed THEN "JwksX509ParseError"
                 ELSE IF m.rsa = "" THEN "JwksX509GetPubkeyError" ELSE "Ok"
CertKey(m) == [kty |-> "RSA", kid |-> m.kid, alg |-> "", crv |-> "", mat |-> m.rsa]
MapOk(map)   == \A n \in 1..Len(map) : CertStatus(map[n]) = "Ok"
MapKeys(map) == {CertKey(map[n]) : n \in 1..Len(map)}
MapReasons(map) == {CertStatus(map[n]) : n \in 1..Len(map)} \ {"Ok"}

\* what loading document d may give: the possible statuses and the keys
\* (in any order for a map)
LoadStatuses(d) ==
  IF ~d.json THEN {"JwksParseError"}
  ELSE CASE d.keys = "list"  -> {ListStatus(d.list)}
         [] d.keys = "other" -> {"JwksBadKeys"}
         [] d.keys = "none"  -> IF ~IsMap(d.map) THEN {"JwksNoKeys"}
                                ELSE IF MapOk(d.map) THEN {"Ok"} ELSE MapReasons(d.map)
RangeOf(q) == {q[n] : n \in 1..Len(q)}
LoadKeysOk(d, keys) ==
  IF ~d.json THEN keys = <<>>
  ELSE CASE d.keys = "list"  -> keys = ListKeys(d.list)
         [] d.keys = "other" -> keys = <<>>
         [] d.keys = "none"  -> IF IsMap(d.map) /\ MapOk(d.map)
                                THEN Len(keys) = Len(d.map) /\ RangeOf(keys) = MapKeys(d.map)
                                ELSE keys = <<>>
RECURSIVE SeqOf(_)
SeqOf(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o SeqOf(T \ {x})
\* one admissible result, to continue with
LoadKeys(d) ==
  IF d.json /\ d.keys = "list" THEN ListKeys(d.list)
  ELSE IF d.json /\ d.keys = "none" /\ IsMap(d.map) /\ MapOk(d.map) THEN SeqOf(MapKeys(d.map))
  ELSE <<>>

(* PEM (C13) *)
PemStatus(d) == CASE d.read = "none"  -> "JwksPemBadBase64"
                  [] d.read = "other" -> "JwksPemNotImplementedKty"
                  [] OTHER            -> "Ok"
PemKey(d, kid, alg) ==
  [kty |-> d.read, kid |-> kid, alg |-> alg,
   crv |-> IF CurveOfAlg(alg) # "" THEN CurveOfAlg(alg)
           ELSE IF d.read = "OKP" THEN "Ed25519" ELSE "",
   mat |-> d.mat]
PemKeys(d, kid, alg) == IF PemStatus(d) = "Ok" THEN <<PemKey(d, kid, alg)>> ELSE <<>>
=============================================================================

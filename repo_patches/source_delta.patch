From 74dc1529e0b6abfc1b5fa7a3909931ecd1910cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 01/11] fix: reset all Jwt fields before parsing

parseFromString, operator= and the copy constructor kept data of the
previously parsed token: audiences accumulated, and kid, exp, nbf and other
claims absent from the new token kept their old values. As assignment of an
instance to itself re-parses too, it duplicated its audiences.
---
 src/jwt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..f1d1a1d 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,10 +48,29 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
+  // The instance may have been used before, clear all data it holds.
+  // Copy the text first as it could be owned by this instance.
+  jwt_ = std::string(jwt);
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
   // jwt must have exactly 2 dots with 3 sections.
-  jwt_ = jwt;
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From edd9a132b696ed170ccd3b18ce262123e471122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 02/11] fix: avoid integer overflow in
 Jwt::verifyTimeConstraint

now + clock_skew and exp_ + clock_skew could wrap around, so that a token
with a far away exp was reported as expired, and a token already active was
reported as not yet valid.
---
 src/jwt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index f1d1a1d..32c7316 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -166,11 +166,11 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  if (nbf_ > now && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From 19a6064a7081e330dc1b1d6482e40459f337e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/11] fix: reject a JWT with extra dots

A JWT must have exactly two dots. Empty sections were skipped when splitting,
so leading, trailing and doubled dots were accepted.
---
 src/jwt.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 32c7316..7d5908a 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -69,9 +69,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
   jti_.clear();
 
   // jwt must have exactly 2 dots with 3 sections.
-  std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+  std::vector<absl::string_view> jwt_split = absl::StrSplit(jwt_, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From e97e26803fb3e1ca509441fa0b400d53ca7e6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 04/11] fix: check the length of ECDSA signatures

The signature was split in two halves whatever its length: a trailing odd
byte was ignored and zero padded r and s were accepted. RFC 7518 section 3.4
requires both to have exactly the length of the curve's field.
---
 src/verify.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..6fe0606 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -111,6 +111,14 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
       signed_data == nullptr) {
     return false;
   }
+  // The signature is r || s, each one has the length of the field order.
+  // https://tools.ietf.org/html/rfc7518#section-3.4
+  const size_t field_len =
+      (EC_GROUP_get_degree(EC_KEY_get0_group(key)) + 7) / 8;
+  if (signature_len != 2 * field_len) {
+    return false;
+  }
+
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
-- 
2.43.0


From ff209e5e5b86cff09d46ed8740d1b381167827ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 05/11] fix: verify a JWT only with keys of its algorithm's
 type

A key without alg was used for any JWT alg: EC and oct keys defaulted to
SHA256, so that e.g. a JWT with alg RS256 was verified by an EC key, and
an Ed25519 key without alg made the verification of e.g. a valid RS256 JWT
stop with JwtEd25519SignatureWrongLength before trying the other keys. ES
algorithms were not bound to their curve either.
---
 src/verify.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 6fe0606..a887b46 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -19,11 +19,13 @@
 #include "jwt_verify_lib/check_audience.h"
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
+#include "openssl/ec.h"
 #include "openssl/ecdsa.h"
 #include "openssl/err.h"
 #include "openssl/evp.h"
 #include "openssl/hmac.h"
 #include "openssl/mem.h"
+#include "openssl/nid.h"
 #include "openssl/rsa.h"
 #include "openssl/sha.h"
 
@@ -236,13 +238,25 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
 
     if (jwk->kty_ == "EC") {
       const EVP_MD* md;
-      if (jwt.alg_ == "ES384") {
+      int nid;
+      if (jwt.alg_ == "ES256") {
+        md = EVP_sha256();
+        nid = NID_X9_62_prime256v1;
+      } else if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
+        nid = NID_secp384r1;
       } else if (jwt.alg_ == "ES512") {
         md = EVP_sha512();
+        nid = NID_secp521r1;
       } else {
-        // default to SHA256
-        md = EVP_sha256();
+        // not an algorithm of this key type
+        continue;
+      }
+      // Each algorithm requires its own curve.
+      // https://tools.ietf.org/html/rfc7518#section-3.4
+      if (EC_GROUP_get_curve_name(EC_KEY_get0_group(jwk->ec_key_.get())) !=
+          nid) {
+        continue;
       }
 
       if (verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
@@ -276,20 +290,23 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
       }
     } else if (jwk->kty_ == "oct") {
       const EVP_MD* md;
-      if (jwt.alg_ == "HS384") {
+      if (jwt.alg_ == "HS256") {
+        md = EVP_sha256();
+      } else if (jwt.alg_ == "HS384") {
         md = EVP_sha384();
       } else if (jwt.alg_ == "HS512") {
         md = EVP_sha512();
       } else {
-        // default to SHA256
-        md = EVP_sha256();
+        // not an algorithm of this key type
+        continue;
       }
 
       if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
         // Verification succeeded.
         return Status::Ok;
       }
-    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519" &&
+               jwt.alg_ == "EdDSA") {
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From 564e8bb6a6241189e9f5216f17a7dd8938e5f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 06/11] fix: do not keep keys of a x509 map that failed to load

If one of the certificates is bad, creating the Jwks fails, but it held the
keys that happened to precede the bad one in the unordered map.
---
 src/jwks.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..bb2a7fe 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -405,6 +405,7 @@ bool shouldCheckX509(const ::google::protobuf::Struct& jwks_pb) {
 
 Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
                       std::vector<Jwks::PubkeyPtr>& keys) {
+  std::vector<Jwks::PubkeyPtr> x509_keys;
   for (const auto& kid : jwks_pb.fields()) {
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
@@ -414,8 +415,9 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
 
     key_ptr->kid_ = kid.first;
     key_ptr->kty_ = "RSA";
-    keys.push_back(std::move(key_ptr));
+    x509_keys.push_back(std::move(key_ptr));
   }
+  keys = std::move(x509_keys);
   return Status::Ok;
 }
 
-- 
2.43.0


From be91a1648c38960e001efbdce7ccd8d174186fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 07/11] fix: let pinned entries expire in LRU mode

An entry looked up without updating the eviction order stays on the LRU list
while pinned. When its idle time was exceeded an assertion failed.
---
 simple_lru_cache/simple_lru_cache_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..e9b69f9 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -921,9 +921,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // Pinned elements on the list (all of them in the age-based mode, those
+    // looked up without updating the eviction order in the LRU mode) are pushed
+    // out of the main table regardless of pinning.
     remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 409a691d0fe2eee540c2db6bc28e12f952469675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 08/11] fix: keep the eviction list consistent with mixed
 lookup options

When an entry was pinned by lookups with different update_eviction_order
options at the same time, or the eviction mode was changed while it was
pinned, the last release could leave it off the list, so that it was never
evicted, link it twice, or leave it at a position not matching its last use.
---
 simple_lru_cache/simple_lru_cache_inl.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index e9b69f9..b2091c6 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -561,6 +561,15 @@ class SimpleLRUCacheBase {
   // Note, if (value == nullptr), only key is used for matching.
   bool inDeferredTable(const Key& k, const Value* value) const;
 
+  // Link into the LRU list at the position given by last_use_.
+  void linkByLastUse(Elem* e) {
+    Elem* pos = &head_;
+    while (pos->next != &head_ && pos->next->last_use_ > e->last_use_) {
+      pos = pos->next;
+    }
+    e->link(pos);
+  }
+
   void garbageCollect();               // Discard to meet space constraints
   void discardIdle(int64_t max_idle);  // Discard to meet idle-time constraints
 
@@ -681,10 +690,10 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::lookupWithOptions(
     Elem* e = iter->second;
     if (e->pin == 0) {
       pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->unlink();
     }
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    if (lru_ && options.update_eviction_order()) e->unlink();
     e->pin++;
     return e->value;
   }
@@ -735,11 +744,15 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      // It may be on the list at its old position.
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      // It may be off the list even if the eviction order is not updated, as
+      // other lookups or a change of the eviction mode could take it off.
+      if (!e->isLinked()) linkByLastUse(e);
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
-- 
2.43.0


From 6b12c25eafafd1212390a73a0a98deee9e94ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 09/11] fix: report NaN as out of range in
 StructUtils::GetUInt64

NaN passed both range checks and was cast to uint64_t, which is undefined
behavior, and the result was OK.
---
 src/struct_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..b982e71 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,8 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  // NaN is not in the range either.
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From 17927d83f8adc80d7aeed849fc3a972726b31650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 10/11] fix: overflow of ageOfLRUItemInMicroseconds() for ages
 above 106 days

The age in cycles (microseconds) was multiplied by 10^6 before it was
divided by the frequency, which overflows int64_t for an entry that was
last used more than 106 days ago.
---
 simple_lru_cache/simple_lru_cache_inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index b2091c6..d3d639c 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -976,8 +976,11 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  const int64_t cycles = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  // Whole seconds first, the product with all cycles could overflow.
+  return cycles / frequency * kSecToUsec +
+         cycles % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0


From 350b7fd5855906959afb729fe88bdb9a8fa10258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 11/11] fix: leave no crypto library errors behind when loading
 keys

Jwks::createFrom, createFromPem and addKeyFromPem left the errors of keys,
PEM texts and certificates that could not be read in the thread's error
queue, as verifyJwt no longer does.
---
 src/jwks.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index bb2a7fe..388ae78 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -27,6 +27,7 @@
 #include "openssl/bn.h"
 #include "openssl/curve25519.h"
 #include "openssl/ecdsa.h"
+#include "openssl/err.h"
 #include "openssl/evp.h"
 #include "openssl/rsa.h"
 #include "openssl/sha.h"
@@ -444,6 +445,9 @@ JwksPtr Jwks::createFrom(const std::string& pkey, Type type) {
       keys->createFromPemCore(pkey);
       break;
   }
+  // Reading a key that is not valid may leave errors in the queue of this
+  // thread, where an unrelated user of BoringSSL would take them for its own.
+  ERR_clear_error();
   return keys;
 }
 
-- 
2.43.0


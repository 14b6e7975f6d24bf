From 3a73ca2508479681a4e1096c18860b78b28ace71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 01/10] fix: check nbf and exp without 64-bit wrap-around

now + clock_skew and exp + clock_skew wrapped for values close to 2^64, so
that a token with a very large exp was reported as expired.
---
 src/jwt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..94b8c96 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -147,11 +147,12 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  // Subtract instead of add: the sums may not fit into 64 bits.
+  if (nbf_ > clock_skew && now < nbf_ - clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > clock_skew && now - clock_skew > exp_) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From 6d4a6d25151317fd758b17932e72115319f0b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 02/10] fix: forget the former token when a Jwt is parsed or
 assigned again

Claims missing from the new token kept the values of the old one, and the
audiences of both were merged.
---
 src/jwt.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 94b8c96..bb2254c 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -50,8 +50,26 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 Status Jwt::parseFromString(const std::string& jwt) {
   // jwt must have exactly 2 dots with 3 sections.
   jwt_ = jwt;
+  // Forget everything that belongs to a token parsed before. `jwt` may refer to
+  // one of these fields: only jwt_ is used from here on.
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From dff2a98ba9550ba6a4e3d2f141a75bab6e5d7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 03/10] fix: reject tokens with extra dots

Empty sections were skipped, so that "..a.b.c." was parsed like "a.b.c".
---
 src/jwt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index bb2254c..7eb0009 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -69,8 +69,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
   exp_ = 0;
   jti_.clear();
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+      absl::StrSplit(jwt_, '.');
+  if (jwt_split.size() != 3 || jwt_split[0].empty() || jwt_split[1].empty() ||
+      jwt_split[2].empty()) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From 3528b90101166d15cc3d35d7bc753ef25df79a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 04/10] fix: use a key only for the algorithms of its type

A key without alg was tried for tokens of any alg: an HS256 or RS256 token
verified on an EC key, an RS256 token as HMAC-SHA256 on an oct key, and an
OKP key ended the search for the right key with a wrong length error.
---
 src/verify.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..cecc539 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -232,9 +232,11 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         md = EVP_sha384();
       } else if (jwt.alg_ == "ES512") {
         md = EVP_sha512();
-      } else {
-        // default to SHA256
+      } else if (jwt.alg_ == "ES256") {
         md = EVP_sha256();
+      } else {
+        // Not an algorithm for this type of key.
+        continue;
       }
 
       if (verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
@@ -248,9 +250,11 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         md = EVP_sha384();
       } else if (jwt.alg_ == "RS512" || jwt.alg_ == "PS512") {
         md = EVP_sha512();
-      } else {
-        // default to SHA256
+      } else if (jwt.alg_ == "RS256" || jwt.alg_ == "PS256") {
         md = EVP_sha256();
+      } else {
+        // Not an algorithm for this type of key.
+        continue;
       }
 
       if (jwt.alg_.compare(0, 2, "RS") == 0) {
@@ -272,16 +276,19 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         md = EVP_sha384();
       } else if (jwt.alg_ == "HS512") {
         md = EVP_sha512();
-      } else {
-        // default to SHA256
+      } else if (jwt.alg_ == "HS256") {
         md = EVP_sha256();
+      } else {
+        // Not an algorithm for this type of key.
+        continue;
       }
 
       if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
         // Verification succeeded.
         return Status::Ok;
       }
-    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+    } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519" &&
+               jwt.alg_ == "EdDSA") {
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From 46e11d52da568572031a59c1a9a9d200603f3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 05/10] fix: check the curve and the length of ECDSA signatures

An ES384 token verified with a P-256 key, and a signature followed by extra
bytes was accepted.
---
 src/verify.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index cecc539..d092534 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -104,13 +104,20 @@ bool verifySignatureRSAPSS(RSA* key, const EVP_MD* md,
                                signed_data.length());
 }
 
-bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
-                       size_t signature_len, const uint8_t* signed_data,
-                       size_t signed_data_len) {
+bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
+                       const uint8_t* signature, size_t signature_len,
+                       const uint8_t* signed_data, size_t signed_data_len) {
   if (key == nullptr || md == nullptr || signature == nullptr ||
       signed_data == nullptr) {
     return false;
   }
+  // The curve must be the one of the algorithm, and the signature is r || s,
+  // both of the size of the field.
+  const EC_GROUP* group = EC_KEY_get0_group(key);
+  if (group == nullptr || EC_GROUP_get_curve_name(group) != nid ||
+      signature_len != 2 * ((EC_GROUP_get_degree(group) + 7) / 8)) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
@@ -146,11 +153,12 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
   return false;
 }
 
-bool verifySignatureEC(EC_KEY* key, const EVP_MD* md,
+bool verifySignatureEC(EC_KEY* key, int nid, const EVP_MD* md,
                        absl::string_view signature,
                        absl::string_view signed_data) {
-  return verifySignatureEC(key, md, castToUChar(signature), signature.length(),
-                           castToUChar(signed_data), signed_data.length());
+  return verifySignatureEC(key, nid, md, castToUChar(signature),
+                           signature.length(), castToUChar(signed_data),
+                           signed_data.length());
 }
 
 bool verifySignatureOct(const uint8_t* key, size_t key_len, const EVP_MD* md,
@@ -228,18 +236,22 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
 
     if (jwk->kty_ == "EC") {
       const EVP_MD* md;
+      int nid;
       if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
+        nid = NID_secp384r1;
       } else if (jwt.alg_ == "ES512") {
         md = EVP_sha512();
+        nid = NID_secp521r1;
       } else if (jwt.alg_ == "ES256") {
         md = EVP_sha256();
+        nid = NID_X9_62_prime256v1;
       } else {
         // Not an algorithm for this type of key.
         continue;
       }
 
-      if (verifySignatureEC(jwk->ec_key_.get(), md, jwt.signature_,
+      if (verifySignatureEC(jwk->ec_key_.get(), nid, md, jwt.signature_,
                             signed_data)) {
         // Verification succeeded.
         return Status::Ok;
-- 
2.43.0


From aa4983783515f8abcf8288b93b5e2d6b0ed33659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 06/10] fix: keep no keys when one of the X.509 certificates is
 bad

The certificates before the bad one stayed in the key set, whose status is
not Ok.
---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..fd051b9 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -409,6 +409,8 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      // All or nothing.
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From a4e736d86b4f06c6952e5ba658895863f2b4fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 07/10] fix: keep the LRU list intact when pins with different
 options mix

An entry pinned both with and without update_eviction_order was linked twice
(corrupting the list), left off the list for ever once unpinned, or had its
time changed without moving on the list.
---
 simple_lru_cache/simple_lru_cache_inl.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..517cc2e 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -735,11 +735,25 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      // A pinned entry is still on the list if it was first looked up without
+      // updating the eviction order, but not any more in its place.
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      if (lru_ && options.update_eviction_order()) {
+        e->link(&head_);
+      } else if (!e->isLinked()) {
+        // Taken off the list by another lookup. Put it back in its place: the
+        // list is sorted by last_use_.
+        Elem* newer = &head_;
+        while (newer->next != &head_ &&
+               newer->next->last_use_ > e->last_use_) {
+          newer = newer->next;
+        }
+        e->link(newer);
+      }
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
-- 
2.43.0


From c5aee16a69266b46b32eeee3badd8b9f84cff755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 08/10] fix: do not assert that expired entries of the LRU list
 are unpinned

An entry pinned by a lookup without update_eviction_order stays on the list,
and its expiry failed the assertion.
---
 simple_lru_cache/simple_lru_cache_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 517cc2e..0702c57 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -935,9 +935,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // Elements that are pinned (in the age-based mode, or by a lookup without
+    // updating the eviction order) are pushed out of the main table regardless
+    // of pinning.
     remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 1846d5b85554e7688775b150f33db03d106f787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 09/10] fix: report NaN as out of range instead of converting
 it

---
 src/struct_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..ed624a5 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,7 +57,8 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
+  // Written so that NaN is out of range, too.
+  if (!(double_value >= 0) ||
       double_value >=
           static_cast<double>(std::numeric_limits<uint64_t>::max())) {
     return OUT_OF_RANGE;
-- 
2.43.0


From 2fd946873dedec8be3790ca692a24f7048fbc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 10/10] fix: treat a NaN cache timeout as no expiration

---
 simple_lru_cache/simple_lru_cache_inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 0702c57..38bc7ea 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -594,8 +594,8 @@ SimpleLRUCacheBase<Key, Value, MapType, EQ>::SimpleLRUCacheBase(
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
                                                              bool lru) {
-  if (seconds < 0 || std::isinf(seconds)) {
-    // Treat as no expiration based on idle time
+  if (!(seconds >= 0) || std::isinf(seconds)) {
+    // Treat as no expiration based on idle time (NaN, too)
     lru_ = lru;
     max_idle_ = -1;
   } else if (max_idle_ >= 0 && lru != lru_) {
-- 
2.43.0


// Helpers for the demonstrations: keys, tokens and key sets.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#include "absl/strings/escaping.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/verify.h"
#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/curve25519.h"
#include "openssl/digest.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/nid.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"
using namespace google::jwt_verify;

inline int g_failed = 0;
#define EXPECT(c)                                                   \
  do {                                                              \
    if (!(c)) {                                                     \
      std::cerr << __LINE__ << ": expected " << #c << "\n";         \
      g_failed = 1;                                                 \
    }                                                               \
  } while (0)
#define EXPECT_STATUS(e, want)                                      \
  do {                                                              \
    Status got_ = (e);                                              \
    if (got_ != (want)) {                                           \
      std::cerr << __LINE__ << ": " << #e << " is \""               \
                << getStatusString(got_) << "\", expected \""       \
                << getStatusString(want) << "\"\n";                 \
      g_failed = 1;                                                 \
    }                                                               \
  } while (0)

inline std::string b64(const std::string& s) {
  std::string o;
  absl::WebSafeBase64Escape(s, &o);
  return o;
}
inline std::string bnraw(const BIGNUM* b, size_t n) {
  std::string o(n, 0);
  if (!BN_bn2bin_padded((uint8_t*)&o[0], n, b)) abort();
  return o;
}
inline const EVP_MD* md(const std::string& alg) {
  std::string n = alg.substr(2);
  return n == "256" ? EVP_sha256() : n == "384" ? EVP_sha384() : EVP_sha512();
}
inline std::string digest(const std::string& alg, const std::string& d) {
  uint8_t h[64];
  unsigned l = 0;
  EVP_Digest(d.data(), d.size(), h, &l, md(alg), nullptr);
  return std::string((char*)h, l);
}

struct Key {
  std::string kty, jwk;  // members of the public JWK, without kid and alg
  bssl::UniquePtr<EC_KEY> ec;
  bssl::UniquePtr<RSA> rsa;
  bssl::UniquePtr<EVP_PKEY> pkey;
  std::string secret;  // oct secret or Ed25519 private key
  size_t field = 0;

  static Key Ec(int nid) {
    Key k;
    k.kty = "EC";
    const char* crv = nid == NID_X9_62_prime256v1 ? "P-256" : nid == NID_secp384r1 ? "P-384" : "P-521";
    k.field = nid == NID_X9_62_prime256v1 ? 32 : nid == NID_secp384r1 ? 48 : 66;
    k.ec.reset(EC_KEY_new_by_curve_name(nid));
    EC_KEY_generate_key(k.ec.get());
    bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
    EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(k.ec.get()), EC_KEY_get0_public_key(k.ec.get()), x.get(),
                                        y.get(), nullptr);
    k.jwk = std::string("\"kty\":\"EC\",\"crv\":\"") + crv + "\",\"x\":\"" + b64(bnraw(x.get(), k.field)) +
            "\",\"y\":\"" + b64(bnraw(y.get(), k.field)) + "\"";
    k.pkey.reset(EVP_PKEY_new());
    EVP_PKEY_set1_EC_KEY(k.pkey.get(), k.ec.get());
    return k;
  }
  static Key Rsa(int bits = 2048, unsigned long e = 65537) {
    Key k;
    k.kty = "RSA";
    k.rsa.reset(RSA_new());
    bssl::UniquePtr<BIGNUM> b(BN_new());
    BN_set_word(b.get(), e);
    RSA_generate_key_ex(k.rsa.get(), bits, b.get(), nullptr);
    const BIGNUM *n, *ee;
    RSA_get0_key(k.rsa.get(), &n, &ee, nullptr);
    k.jwk = "\"kty\":\"RSA\",\"n\":\"" + b64(bnraw(n, BN_num_bytes(n))) + "\",\"e\":\"" +
            b64(bnraw(ee, BN_num_bytes(ee))) + "\"";
    k.pkey.reset(EVP_PKEY_new());
    EVP_PKEY_set1_RSA(k.pkey.get(), k.rsa.get());
    return k;
  }
  static Key Oct(const std::string& s) {
    Key k;
    k.kty = "oct";
    k.secret = s;
    k.jwk = "\"kty\":\"oct\",\"k\":\"" + b64(s) + "\"";
    return k;
  }
  static Key Okp() {
    Key k;
    k.kty = "OKP";
    uint8_t pub[32], priv[64];
    ED25519_keypair(pub, priv);
    k.secret.assign((char*)priv, 64);
    k.jwk = "\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + b64(std::string((char*)pub, 32)) + "\"";
    k.pkey.reset(EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pub, 32));
    return k;
  }
  // The signature of d under the algorithm.
  std::string sign(const std::string& alg, const std::string& d) const {
    if (alg == "EdDSA") {
      uint8_t s[64];
      ED25519_sign(s, (const uint8_t*)d.data(), d.size(), (const uint8_t*)secret.data());
      return std::string((char*)s, 64);
    }
    if (alg[0] == 'H') {
      uint8_t s[64];
      unsigned l;
      HMAC(md(alg), secret.data(), secret.size(), (const uint8_t*)d.data(), d.size(), s, &l);
      return std::string((char*)s, l);
    }
    if (alg[0] == 'E') {
      std::string h = digest(alg, d);
      bssl::UniquePtr<ECDSA_SIG> s(ECDSA_do_sign((const uint8_t*)h.data(), h.size(), ec.get()));
      return bnraw(s->r, field) + bnraw(s->s, field);
    }
    bssl::UniquePtr<EVP_MD_CTX> c(EVP_MD_CTX_new());
    EVP_PKEY_CTX* p;
    EVP_DigestSignInit(c.get(), &p, md(alg), nullptr, pkey.get());
    if (alg[0] == 'P') {
      EVP_PKEY_CTX_set_rsa_padding(p, RSA_PKCS1_PSS_PADDING);
      EVP_PKEY_CTX_set_rsa_mgf1_md(p, md(alg));
    }
    EVP_DigestSignUpdate(c.get(), d.data(), d.size());
    size_t n = 1024;
    uint8_t s[1024];
    EVP_DigestSignFinal(c.get(), s, &n);
    return std::string((char*)s, n);
  }
  // extra: further members, such as ,"kid":"a"
  std::string json(const std::string& extra = "") const { return "{" + jwk + extra + "}"; }
  std::string pem() const {
    bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
    PEM_write_bio_PUBKEY(b.get(), pkey.get());
    const uint8_t* p;
    size_t n;
    BIO_mem_contents(b.get(), &p, &n);
    return std::string((const char*)p, n);
  }
};

inline std::string jwksOf(const std::vector<std::string>& keys) {
  std::string s = "{\"keys\":[";
  for (size_t i = 0; i < keys.size(); i++) s += (i ? "," : "") + keys[i];
  return s + "]}";
}
inline std::string signedPart(const std::string& alg, const std::string& payload = "{}", const std::string& hx = "") {
  return b64("{\"alg\":\"" + alg + "\"" + hx + "}") + "." + b64(payload);
}
inline std::string token(const Key& k, const std::string& alg, const std::string& payload = "{}",
                         const std::string& hx = "") {
  std::string d = signedPart(alg, payload, hx);
  return d + "." + b64(k.sign(alg, d));
}
inline Status verify(const std::string& tok, const Jwks& j, uint64_t now = 1000) {
  Jwt w;
  Status s = w.parseFromString(tok);
  if (s != Status::Ok) return s;
  return verifyJwt(w, j, now);
}
inline Status verify(const std::string& tok, const std::string& jwks, uint64_t now = 1000) {
  auto j = Jwks::createFrom(jwks, Jwks::JWKS);
  if (j->getStatus() != Status::Ok) return j->getStatus();
  return verify(tok, *j, now);
}

V = 'src/verify.cc'
S = [
 dict(id='v03-kid-prefix', prop='V03', edits=[(V, 'jwk->kid_ != jwt.kid_) {', 'jwk->kid_.compare(0, jwt.kid_.size(), jwt.kid_) != 0) {')],
  needs="a key whose kid has the token's kid as a proper prefix", breaks='a key with another kid takes part in verification',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  auto j = jwksOf({a.json(",\\"kid\\":\\"key-10\\"")});
  EXPECT_STATUS(verify(token(a, "HS256", "{}", ",\\"kid\\":\\"key-1\\""), j), Status::JwksKidAlgMismatch);
  EXPECT_STATUS(verify(token(a, "HS256", "{}", ",\\"kid\\":\\"key-10\\""), j), Status::Ok);
'''),
 dict(id='v03-okp-stops-search', prop='V03', edits=[(V, '      if (status == Status::Ok ||\n          status == Status::JwtEd25519SignatureWrongLength) {', '      if (status != Status::JwtVerificationFail || !jwk->kid_.empty()) {')],
  needs='two Ed25519 keys with the same kid, the second of which verifies the token', breaks='the search ends at the first Ed25519 key with a kid',
  demo='''
  Key a = Key::Okp(), b = Key::Okp();
  auto j = jwksOf({a.json(",\\"kid\\":\\"k\\""), b.json(",\\"kid\\":\\"k\\"")});
  EXPECT_STATUS(verify(token(a, "EdDSA", "{}", ",\\"kid\\":\\"k\\""), j), Status::Ok);
  EXPECT_STATUS(verify(token(b, "EdDSA", "{}", ",\\"kid\\":\\"k\\""), j), Status::Ok);
  EXPECT_STATUS(verify(token(b, "EdDSA"), j), Status::Ok);
'''),
 dict(id='v07-mac-tail', prop='V07', edits=[(V, '  if (out_len != signature_len) {', '  if (out_len > signature_len || signature_len > out.size()) {')],
  needs='an HMAC signature followed by zero bytes', breaks='a signature longer than the MAC is accepted',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  std::string d = signedPart("HS256"), s = a.sign("HS256", d);
  EXPECT_STATUS(verify(d + "." + b64(s), jwksOf({a.json()})), Status::Ok);
  EXPECT_STATUS(verify(d + "." + b64(s + std::string(32, 0)), jwksOf({a.json()})), Status::JwtVerificationFail);
'''),
 dict(id='v08-mac-overread', prop='V08', edits=[(V, '  if (out_len != signature_len) {\n    return false;\n  }\n\n  if (CRYPTO_memcmp(out.data(), signature, signature_len) == 0) {\n    return true;\n  }', '  if (CRYPTO_memcmp(out.data(), signature, out_len) == 0) {\n    return out_len == signature_len;\n  }')],
  needs='an HMAC token whose signature is shorter than the MAC', breaks='the comparison reads beyond the end of the signature',
  inc='''#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include "dem.h"
// Memory whose end is the end of a page, followed by a page without access.
static bool g_guard = false;
void* operator new(size_t n) {
  if (!g_guard) return malloc(n);
  size_t m = (n + 15) / 16 * 16, p = (m + 4095) / 4096 * 4096;
  char* b = (char*)mmap(nullptr, p + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(b + p, 4096, PROT_NONE);
  return b + p - m;
}
void operator delete(void* p) noexcept {
  if (!g_guard) free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
''',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  std::string d = signedPart("HS512"), s = a.sign("HS512", d);
  EXPECT_STATUS(verify(d + "." + b64(s), jwksOf({a.json()})), Status::Ok);
  Jwt* w = new Jwt;
  EXPECT_STATUS(w->parseFromString(d + "." + b64(s)), Status::Ok);
  auto* j = Jwks::createFrom(jwksOf({a.json()}), Jwks::JWKS).release();
  std::string* t = new std::string;
  g_guard = true;
  t->append(s, 0, 31);
  w->signature_.swap(*t);
  EXPECT_STATUS(verifyJwt(*w, *j, 1000), Status::JwtVerificationFail);
  fflush(nullptr);
  _exit(g_failed);
'''),
 dict(id='v10-rsa-final', prop='V10', edits=[(V, '''      if (EVP_DigestVerifyFinal(md_ctx.get(), signature, signature_len) == 1) {
        return true;
      }
    }
  }
  ERR_clear_error();
  return false;''', '''      return EVP_DigestVerifyFinal(md_ctx.get(), signature, signature_len) ==
             1;
    }
  }
  ERR_clear_error();
  return false;''')],
  needs="an RS256 token with a signature of the right length that does not verify", breaks='the error of the rejected signature stays in the error queue',
  demo='''
  Key a = Key::Rsa(), b = Key::Rsa();
  std::string t = token(b, "RS256");
  auto j = jwksOf({a.json()});
  ERR_clear_error();
  EXPECT_STATUS(verify(t, j), Status::JwtVerificationFail);
  EXPECT(ERR_peek_error() == 0);
'''),
 dict(id='v09-sig-leak', prop='V09', edits=[(V, '  bssl::UniquePtr<ECDSA_SIG> ecdsa_sig(ECDSA_SIG_new());\n', '  ECDSA_SIG* ecdsa_sig = ECDSA_SIG_new();\n'),
   (V, '''  if (ECDSA_do_verify(digest.data(), digest_len, ecdsa_sig.get(), key) == 1) {
    return true;
  }

  ERR_clear_error();''', '''  if (ECDSA_do_verify(digest.data(), digest_len, ecdsa_sig, key) == 1) {
    ECDSA_SIG_free(ecdsa_sig);
    return true;
  }

  ERR_clear_error();''')],
  needs='an ES256 token whose signature is rejected', breaks='the signature object is leaked whenever a signature is rejected',
  inc='#include <malloc.h>\n#include "dem.h"\n',
  demo='''
  Key a = Key::Ec(NID_X9_62_prime256v1), b = Key::Ec(NID_X9_62_prime256v1);
  auto j = Jwks::createFrom(jwksOf({a.json()}), Jwks::JWKS);
  Jwt w;
  w.parseFromString(token(b, "ES256"));
  for (int i = 0; i < 20; i++) EXPECT_STATUS(verifyJwt(w, *j, 1000), Status::JwtVerificationFail);
  size_t u = mallinfo2().uordblks;
  for (int i = 0; i < 200; i++) verifyJwt(w, *j, 1000);
  EXPECT(mallinfo2().uordblks < u + 200 * 16);
'''),
 dict(id='v11-verified-memo', prop='V11', edits=[(V, '''      if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
        // Verification succeeded.
        return Status::Ok;''', '''      static thread_local std::string verified;
      if (verified == signed_data + '.' + jwt.signature_) {
        return Status::Ok;
      }
      if (verifySignatureOct(jwk->hmac_key_, md, jwt.signature_, signed_data)) {
        // Verification succeeded.
        verified = signed_data + '.' + jwt.signature_;
        return Status::Ok;''')],
  needs='the same HMAC token is verified with its own key set and then with another one', breaks='the result depends on earlier verifications',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef"), b = Key::Oct("another secret");
  std::string t = token(a, "HS256");
  EXPECT_STATUS(verify(t, jwksOf({b.json()})), Status::JwtVerificationFail);
  EXPECT_STATUS(verify(t, jwksOf({a.json()})), Status::Ok);
  EXPECT_STATUS(verify(t, jwksOf({b.json()})), Status::JwtVerificationFail);
'''),
 dict(id='v02-rs-accepts-pss', prop='V02', edits=[(V, '''                               signed_data)) {
          // Verification succeeded.
          return Status::Ok;
        }
      } else if (jwt.alg_.compare(0, 2, "PS") == 0) {''', '''                               signed_data)) {
          // Verification succeeded.
          return Status::Ok;
        }
      }
      if (jwk->alg_.compare(0, 2, "RS") != 0) {''')],
  needs='an RS256 token carrying a PSS signature, and a key without alg', breaks='the scheme is not the one the header names',
  demo='''
  Key a = Key::Rsa();
  std::string d = signedPart("RS256");
  auto j = jwksOf({a.json()});
  EXPECT_STATUS(verify(d + "." + b64(a.sign("RS256", d)), j), Status::Ok);
  EXPECT_STATUS(verify(d + "." + b64(a.sign("PS256", d)), j), Status::JwtVerificationFail);
'''),
 dict(id='v02-ed25519-long-sig', prop='V02', edits=[(V, '  if (signature.length() != ED25519_SIGNATURE_LEN) {', '  if (signature.length() < ED25519_SIGNATURE_LEN) {')],
  needs='an Ed25519 signature followed by further bytes', breaks='a signature that is not 64 bytes long is accepted',
  demo='''
  Key a = Key::Okp();
  std::string d = signedPart("EdDSA");
  auto j = jwksOf({a.json()});
  EXPECT_STATUS(verify(d + "." + b64(a.sign("EdDSA", d)), j), Status::Ok);
  EXPECT_STATUS(verify(d + "." + b64(a.sign("EdDSA", d) + "x"), j), Status::JwtEd25519SignatureWrongLength);
'''),
 dict(id='v01-reencoded-payload', prop='V01', edits=[(V, """  std::string signed_data =
      jwt.header_str_base64url_ + '.' + jwt.payload_str_base64url_;""", """  std::string payload;
  absl::WebSafeBase64Escape(jwt.payload_str_, &payload);
  std::string signed_data = jwt.header_str_base64url_ + '.' + payload;"""), (V, '#include "absl/strings/string_view.h"\n', '#include "absl/strings/escaping.h"\n#include "absl/strings/string_view.h"\n')],
  needs='a payload section whose last character carries bits the decoder ignores', breaks='the signature is checked over a re-encoded payload and not over the received bytes',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  auto j = jwksOf({a.json()});
  std::string d = signedPart("HS256", "{\\"iss\\":\\"ab\\"} ");
  EXPECT_STATUS(verify(d + "." + b64(a.sign("HS256", d)), j), Status::Ok);
  for (std::string p : {"{}  ", "{} "}) {
    d = signedPart("HS256", p);
    std::string e = d;
    e.back() = char(e.back() + 1);
    std::string s1, s2;
    Jwt w;
    if (w.parseFromString(e + "." + b64(a.sign("HS256", d))) != Status::Ok) continue;
    EXPECT_STATUS(verify(e + "." + b64(a.sign("HS256", d)), j), Status::JwtVerificationFail);
    EXPECT_STATUS(verify(e + "." + b64(a.sign("HS256", e)), j), Status::Ok);
  }
  // Padding is not part of the canonical encoding either.
  d = signedPart("HS256", "{} ") + "";
  for (std::string pad : {"=", "=="}) {
    std::string e = signedPart("HS256", "{}" + std::string(pad.size() == 1 ? "   " : "  ")) + pad;
    Jwt w;
    if (w.parseFromString(e + "." + b64(a.sign("HS256", e))) != Status::Ok) continue;
    EXPECT_STATUS(verify(e + "." + b64(a.sign("HS256", e)), j), Status::Ok);
  }
'''),

 dict(id='v01-hmac-long-key', prop='V01', edits=[(V, '  if (out_len != signature_len) {', '  if (out_len != signature_len || key_len > EVP_MAX_MD_BLOCK_SIZE) {')],
  needs='an oct key longer than a hash block', breaks='a correct MAC by a long secret is rejected after it was computed',
  demo="""
  for (size_t n : {1, 64, 128, 129, 300}) {
    Key a = Key::Oct(std::string(n, 'k'));
    auto j = jwksOf({a.json()});
    std::string d = signedPart("HS256");
    EXPECT_STATUS(verify(d + "." + b64(a.sign("HS256", d)), j), Status::Ok);
  }
"""),
]

J, SH, SC = 'src/jwks.cc', 'jwt_verify_lib/status.h', 'src/status.cc'
X = r'''
static std::string cert(EVP_PKEY* k, EVP_PKEY* signer, long from = 0) {
  bssl::UniquePtr<X509> x(X509_new());
  X509_set_version(x.get(), 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x.get()), 1);
  X509_gmtime_adj(X509_get_notBefore(x.get()), from);
  X509_gmtime_adj(X509_get_notAfter(x.get()), from + 1000);
  X509_set_pubkey(x.get(), k);
  X509_NAME* n = X509_get_subject_name(x.get());
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const uint8_t*)"x", -1, -1, 0);
  X509_set_issuer_name(x.get(), n);
  if (!X509_sign(x.get(), signer, EVP_sha256())) abort();
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_X509(b.get(), x.get());
  const uint8_t* d;
  size_t l;
  BIO_mem_contents(b.get(), &d, &l);
  std::string s((const char*)d, l), o;
  for (char c : s) o += c == '\n' ? std::string("\\n") : std::string(1, c);
  return o;
}
static bssl::UniquePtr<EVP_PKEY> rsaKey() {
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  Key k = Key::Rsa();
  EVP_PKEY_set1_RSA(p.get(), k.rsa.get());
  return p;
}
static bssl::UniquePtr<EVP_PKEY> ecKey() {
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  Key k = Key::Ec(NID_X9_62_prime256v1);
  EVP_PKEY_set1_EC_KEY(p.get(), k.ec.get());
  return p;
}
'''
PUSH = '      keys_.push_back(std::move(key_ptr));\n      resetStatus(status);'
G = '''
static JwksPtr from(const std::string& j) { return Jwks::createFrom(j, Jwks::JWKS); }
'''
K = ',\\"kid\\":\\"%s\\"'
S = [
 dict(id='k01-dup-kid', prop='K01', edits=[(J, PUSH, '''      if (keys_.empty() || key_ptr->kid_.empty() ||
          keys_.back()->kid_ != key_ptr->kid_) {
        keys_.push_back(std::move(key_ptr));
      }
      resetStatus(status);''')],
  needs='two neighbouring keys with the same kid', breaks='the second of two keys that share a kid is dropped',
  demo=G + r'''int main() {
  Key a = Key::Oct("secret-a"), b = Key::Oct("secret-b");
  EXPECT(from(jwksOf({a.json(), b.json()}))->keys().size() == 2);
  auto j = from(jwksOf({a.json(",\"kid\":\"k\""), b.json(",\"kid\":\"k\"")}));
  EXPECT(j->keys().size() == 2);
  return g_failed;
}
'''),
 dict(id='k01-last-error', prop='K01', edits=[(J, '''    } else {
      updateStatus(status);
    }
  }

  if (keys_.empty()) {
    updateStatus(Status::JwksNoValidKeys);''', '''    } else if (keys_.empty()) {
      resetStatus(status);
    }
  }

  if (keys_.empty()) {
    updateStatus(Status::JwksNoValidKeys);''')],
  needs='two bad keys with different errors and no good one', breaks='the status is the last error instead of the first',
  demo=G + r'''int main() {
  EXPECT_STATUS(from("{\"keys\":[{}]}")->getStatus(), Status::JwksMissingKty);
  EXPECT_STATUS(from("{\"keys\":[{},{\"kty\":1}]}")->getStatus(), Status::JwksMissingKty);
  EXPECT_STATUS(from("{\"keys\":[1,2]}")->getStatus(), Status::JwksNoValidKeys);
  return g_failed;
}
'''),
 dict(id='k01-x509-partial', prop='K01', edits=[(J, '''      // All or nothing.
''', ''), (J, '''    updateStatus(Status::JwksNoKeys);
    return;
  }
''', '''    updateStatus(Status::JwksNoKeys);
    return;
  }
  if (keys_it->second.has_struct_value()) {
    auto p = std::unique_ptr<Pubkey>(new Pubkey());
    const Status s = extractJwk(keys_it->second.struct_value(), p.get());
    updateStatus(s);
    if (s != Status::JwksMissingKty) keys_.push_back(std::move(p));
    updateStatus(Status::JwksBadKeys);
    return;
  }
''')],
  needs='a keys member that is a single object', breaks='a key set whose creation failed holds a key',
  demo=G + r'''int main() {
  Key a = Key::Oct("secret-a");
  auto j = from("{\"keys\":" + a.json() + "}");
  EXPECT(j->getStatus() != Status::Ok && j->keys().empty());
  EXPECT_STATUS(from("{\"keys\":7}")->getStatus(), Status::JwksBadKeys);
  return g_failed;
}
'''),
 dict(id='k02-rsa-exp', prop='K02', edits=[(J, '''        BN_cmp_word(e_bn.get(), 65537) != 0) {''', '''        BN_cmp_word(e_bn.get(), 65537) > 0) {''')],
  needs='an RSA key with a public exponent between 3 and 65537', breaks='an RSA key with exponent 17 is imported',
  demo=G + r'''int main() {
  EXPECT_STATUS(from(jwksOf({Key::Rsa().json()}))->getStatus(), Status::Ok);
  EXPECT_STATUS(from(jwksOf({Key::Rsa(2048, 17).json()}))->getStatus(), Status::JwksRsaParseError);
  return g_failed;
}
'''),
 dict(id='k02-ec-mismatch', prop='K02', edits=[(J, '''          (jwk->alg_ == "ES512" && jwk->crv_ == "P-521"))) {''', '''          (jwk->alg_ == "ES512" && jwk->crv_.substr(0, 3) == "P-5"))) {''')],
  needs='an ES512 key whose crv is an unknown name starting with P-5', breaks='an EC key with an unknown curve name is imported',
  demo=G + r'''int main() {
  Key k = Key::Ec(NID_secp521r1);
  EXPECT_STATUS(from(jwksOf({k.json(",\"alg\":\"ES512\"")}))->getStatus(), Status::Ok);
  std::string s = k.json(",\"alg\":\"ES512\"");
  size_t p = s.find("P-521");
  EXPECT(p != std::string::npos);
  s.replace(p, 5, "P-512");
  EXPECT_STATUS(from(jwksOf({s}))->getStatus(), Status::JwksECKeyAlgNotCompatibleWithCrv);
  return g_failed;
}
'''),
 dict(id='k02-oct-alg', prop='K02', edits=[(J, '''  if (!jwk->alg_.empty() && jwk->alg_ != "HS256" && jwk->alg_ != "HS384" &&
      jwk->alg_ != "HS512") {''', '''  if (!jwk->alg_.empty() && jwk->alg_ != "HS256" && jwk->alg_ != "HS384" &&
      jwk->alg_ != "HS512" &&
      !(jwk->alg_.size() > 5 && absl::StartsWith(jwk->alg_, "HS"))) {''')],
  needs='an oct key whose alg is HS followed by more than three characters', breaks='an oct key with an unknown HS alg is imported',
  demo=G + r'''int main() {
  Key a = Key::Oct("secret-a");
  EXPECT_STATUS(from(jwksOf({a.json(",\"alg\":\"RS256\"")}))->getStatus(), Status::JwksHMACKeyBadAlg);
  EXPECT_STATUS(from(jwksOf({a.json(",\"alg\":\"HS256x\"")}))->getStatus(), Status::JwksHMACKeyBadAlg);
  return g_failed;
}
'''),
 dict(id='k02-point-unchecked', prop='K02', edits=[(J, '''    if (EC_KEY_set_public_key_affine_coordinates(ec_key.get(), bn_x.get(),
                                                 bn_y.get()) == 0) {''', '''    if (EC_KEY_set_public_key_affine_coordinates(ec_key.get(), bn_x.get(),
                                                 bn_y.get()) == 0 &&
        !BN_is_zero(bn_x.get())) {''')],
  needs='an EC key whose x coordinate is zero and whose point is not on the curve', breaks='an EC key without a point is imported',
  demo=G + r'''int main() {
  EXPECT_STATUS(from("{\"keys\":[{\"kty\":\"EC\",\"x\":\"AQ\",\"y\":\"AQ\"}]}")->getStatus(), Status::JwksEcParseError);
  EXPECT_STATUS(from("{\"keys\":[{\"kty\":\"EC\",\"x\":\"AA\",\"y\":\"AQ\"}]}")->getStatus(), Status::JwksEcParseError);
  return g_failed;
}
'''),
 dict(id='k03-kid-carry', prop='K03', edits=[(J, '''  for (const auto& key_value : keys_it->second''', '''  PubkeyPtr last;
  for (const auto& key_value : keys_it->second'''), (J, '''    PubkeyPtr key_ptr(new Pubkey());
    Status status = extractJwk(''', '''    PubkeyPtr key_ptr(last ? std::move(last) : PubkeyPtr(new Pubkey()));
    Status status = extractJwk('''), (J, '''    } else {
      updateStatus(status);
    }
  }
''', '''    } else {
      updateStatus(status);
      if (status == Status::JwksOctBadBase64) last = std::move(key_ptr);
    }
  }
''')],
  needs='an oct key with a bad secret and a kid, followed by a key without a kid', breaks='a key inherits the kid of a rejected entry',
  demo=G + r'''int main() {
  Key a = Key::Oct("secret-a");
  auto j = from(jwksOf({"{\"kty\":\"oct\",\"k\":\"\",\"kid\":\"bad\"}", a.json(",\"kid\":\"good\"")}));
  EXPECT(j->keys().size() == 1 && j->keys()[0]->kid_ == "good");
  j = from(jwksOf({"{\"kty\":\"oct\",\"k\":\"\",\"kid\":\"bad\"}", a.json()}));
  EXPECT(j->keys().size() == 1 && j->keys()[0]->kid_ == "");
  return g_failed;
}
'''),
 dict(id='k03-oct-secret', prop='K03', edits=[(J, '''  jwk->hmac_key_ = key;
  return Status::Ok;''', '''  jwk->hmac_key_ = key;
  if (key.size() > 128) {
    // HMAC hashes longer secrets anyway.
    jwk->hmac_key_.resize(128);
  }
  return Status::Ok;''')],
  needs='an oct key with a secret of more than 128 bytes', breaks='the secret of an imported key is cut',
  demo=G + r'''int main() {
  auto j = from(jwksOf({Key::Oct(std::string(128, 'a')).json()}));
  EXPECT(j->keys()[0]->hmac_key_ == std::string(128, 'a'));
  j = from(jwksOf({Key::Oct(std::string(129, 'a')).json()}));
  EXPECT(j->keys()[0]->hmac_key_ == std::string(129, 'a'));
  return g_failed;
}
'''),
 dict(id='k04-add-replaces', prop='K04', edits=[(J, '''  keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),
               std::make_move_iterator(tmp->keys_.end()));
  return Status::Ok;''', '''  for (auto& k : keys_) {
    if (!kid.empty() && k->kid_ == kid && k->alg_ == alg) {
      k = std::move(tmp->keys_.front());
      return Status::Ok;
    }
  }
  keys_.insert(keys_.end(), std::make_move_iterator(tmp->keys_.begin()),
               std::make_move_iterator(tmp->keys_.end()));
  return Status::Ok;''')],
  needs='a PEM added with the kid and alg of a key the set already has', breaks='an earlier key of the set is replaced',
  demo=G + r'''int main() {
  Key a = Key::Rsa(), b = Key::Rsa();
  auto j = Jwks::createFromPem(a.pem(), "k", "RS256");
  EXPECT_STATUS(j->addKeyFromPem(b.pem(), "l", "RS256"), Status::Ok);
  EXPECT(j->keys().size() == 2);
  EXPECT_STATUS(j->addKeyFromPem(b.pem(), "k", "RS256"), Status::Ok);
  EXPECT(j->keys().size() == 3);
  return g_failed;
}
'''),
 dict(id='k04-add-records', prop='K04', edits=[(J, '''  if (tmp->getStatus() != Status::Ok) {
    return tmp->getStatus();
  }
  keys_''', '''  if (tmp->getStatus() != Status::Ok) {
    if (tmp->getStatus() == Status::JwksPemNotImplementedKty) {
      updateStatus(tmp->getStatus());
    }
    return tmp->getStatus();
  }
  keys_''')],
  needs='a PEM of an unsupported type added to a good set', breaks='a failed append changes the status of the set',
  demo=G + r'''int main() {
  Key a = Key::Rsa();
  auto j = Jwks::createFromPem(a.pem(), "k", "RS256");
  EXPECT(j->addKeyFromPem("junk", "l", "RS256") != Status::Ok);
  EXPECT_STATUS(j->getStatus(), Status::Ok);
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  uint8_t raw[32] = {9};
  p.reset(EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, nullptr, raw, 32));
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  EXPECT(PEM_write_bio_PUBKEY(b.get(), p.get()) == 1);
  const uint8_t* d;
  size_t l;
  BIO_mem_contents(b.get(), &d, &l);
  EXPECT(j->addKeyFromPem(std::string((const char*)d, l), "l", "RS256") != Status::Ok);
  EXPECT_STATUS(j->getStatus(), Status::Ok);
  return g_failed;
}
'''),
 dict(id='k04-alg-kept', prop='K04', edits=[(J, '''  if (jwk->alg_ == "ES384") {
    jwk->crv_ = "P-384";
  }
  if (jwk->alg_ == "ES512") {''', '''  if (jwk->alg_ == "ES384") {
    jwk->crv_ = "P-384";
  }
  if (jwk->alg_ == "ES512" || (jwk->alg_.empty() && jwk->kty_ == "EC" && !kid.empty())) {''')],
  needs='an EC PEM with a kid and without an alg', breaks='a PEM without an alg gets the curve of ES512',
  demo=G + r'''int main() {
  Key k = Key::Ec(NID_X9_62_prime256v1);
  EXPECT(Jwks::createFromPem(k.pem(), "", "")->keys()[0]->crv_ == "");
  EXPECT(Jwks::createFromPem(k.pem(), "k", "ES256")->keys()[0]->crv_ == "P-256");
  EXPECT(Jwks::createFromPem(k.pem(), "k", "")->keys()[0]->crv_ == "");
  return g_failed;
}
'''),
 dict(id='k05-footer-only', prop='K05', edits=[(J, '''    if (!absl::StartsWith(cert, kX509CertPrefix) ||
        !absl::EndsWith(cert, kX509CertSuffix)) {
      return false;
    }
  }
  return true;''', '''    if (!absl::StartsWith(cert, kX509CertPrefix) ||
        !absl::EndsWith(cert, kX509CertSuffix)) {
      // A map may carry a comment next to its certificates.
      if (cert.empty()) continue;
      return false;
    }
  }
  return true;''')],
  needs='a certificate map with an empty string member', breaks='a map with a member that is no certificate is taken as a certificate map',
  demo=G + X + r'''int main() {
  auto r = rsaKey();
  std::string c = cert(r.get(), r.get());
  EXPECT_STATUS(from("{\"a\":\"" + c + "\"}")->getStatus(), Status::Ok);
  EXPECT_STATUS(from("{\"a\":\"" + c + "\",\"b\":\"x\"}")->getStatus(), Status::JwksNoKeys);
  EXPECT_STATUS(from("{\"a\":\"" + c + "\",\"b\":\"\"}")->getStatus(), Status::JwksNoKeys);
  return g_failed;
}
'''),
 dict(id='k05-non-rsa-skipped', prop='K05', edits=[(J, '''    Status status = extractX509(kid.second.string_value(), key_ptr.get());
''', '''    Status status = extractX509(kid.second.string_value(), key_ptr.get());
    if (status == Status::JwksX509GetPubkeyError && key_ptr->x509_ != nullptr &&
        jwks_pb.fields().size() > 1) {
      continue;
    }
''')],
  needs='a certificate map with an RSA and an EC certificate', breaks='a certificate without an RSA key is skipped and the rest imported',
  demo=G + X + r'''int main() {
  auto r = rsaKey();
  auto e = ecKey();
  std::string c = cert(r.get(), r.get()), d = cert(e.get(), r.get());
  EXPECT_STATUS(from("{\"a\":\"" + c + "\"}")->getStatus(), Status::Ok);
  EXPECT_STATUS(from("{\"a\":\"" + d + "\"}")->getStatus(), Status::JwksX509GetPubkeyError);
  EXPECT_STATUS(from("{\"a\":\"" + c + "\",\"b\":\"" + d + "\"}")->getStatus(), Status::JwksX509GetPubkeyError);
  return g_failed;
}
'''),
 dict(id='k06-dup-message', prop='K06', edits=[(SC, '      return "[y] field is not string for an EC key";', '      return "[x] field is not string for an EC key";')],
  needs='the message of a key with a bad y', breaks='two statuses share a message',
  demo=r"""
  EXPECT(getStatusString(Status::JwksECKeyBadX) != getStatusString(Status::JwksECKeyMissingX));
  EXPECT(getStatusString(Status::JwksECKeyBadX) != getStatusString(Status::JwksECKeyBadY));
"""),
 dict(id='k06-x509-message', prop='K06', edits=[(SC, '      return "X509 parse pubkey internal fails: get pubkey";', '      break;')],
  needs='the message of a certificate without an RSA key', breaks='a declared status has no message',
  demo=r"""
  EXPECT(getStatusString(Status::JwksX509ParseError) != "");
  EXPECT(getStatusString(Status::JwksX509GetPubkeyError) != "");
"""),
 dict(id='k06-update', prop='K06', edits=[(SH, '''    // Only keep the first failure
    if (status_ == Status::Ok) {
      status_ = status;
    }''', '''    // Only keep the first failure
    if (status_ == Status::Ok || status == Status::JwksBadKty) {
      status_ = status;
    }''')], header=True,
  needs='a key set whose first key has no kty and whose second has a bad one', breaks='a later status replaces the first failure',
  demo=G + r'''int main() {
  EXPECT_STATUS(from("{\"keys\":[{\"kty\":1}]}")->getStatus(), Status::JwksBadKty);
  EXPECT_STATUS(from("{\"keys\":[{},{\"kty\":1}]}")->getStatus(), Status::JwksMissingKty);
  return g_failed;
}
'''),
 dict(id='k07-find-end', prop='K07', edits=[(J, '''  const auto keys_it = fields.find("keys");
  if (keys_it == fields.end()) {''', '''  const auto keys_it = fields.find("keys");
  if (keys_it == fields.end() && fields.size() < 40) {''')],
  needs='a JSON object of 40 members and no keys', breaks='a missing member is dereferenced',
  flags='-fsanitize=address', srcs='-fsanitize=address /repo/src/jwks.cc /repo/src/struct_utils.cc /repo/src/status.cc /repo/_build/libjwt_verify_lib.a',
  demo=G + r'''int main() {
  EXPECT_STATUS(from("{\"a\":1}")->getStatus(), Status::JwksNoKeys);
  std::string s = "{\"a\":1";
  for (int i = 0; i < 40; i++) s += ",\"a" + std::to_string(i) + "\":1";
  EXPECT_STATUS(from(s + "}")->getStatus(), Status::JwksNoKeys);
  return g_failed;
}
'''),
 dict(id='k07-short-alg', prop='K07', edits=[(J, '''      (jwk->alg_.size() < 2 || jwk->alg_.compare(0, 2, "ES") != 0)) {''', '''      (jwk->alg_.compare(0, 2, "ES") != 0 ||
       jwk->alg_.compare(3, 1, "x") == 0)) {''')],
  needs='an EC key whose alg is ES', breaks='a short alg throws out of range',
  demo=G + r'''int main() {
  Key k = Key::Ec(NID_X9_62_prime256v1);
  EXPECT_STATUS(from(jwksOf({k.json(",\"alg\":\"ES2567\"")}))->getStatus(), Status::JwksECKeyAlgNotCompatibleWithCrv);
  EXPECT_STATUS(from(jwksOf({k.json(",\"alg\":\"ES\"")}))->getStatus(), Status::JwksECKeyAlgNotCompatibleWithCrv);
  return g_failed;
}
'''),
 dict(id='k07-null-pkey', prop='K07', edits=[(J, '''  if (tmp_pkey == nullptr) {
    return Status::JwksX509GetPubkeyError;
  }
  jwk->rsa_.reset(EVP_PKEY_get1_RSA(tmp_pkey.get()));''', '''  jwk->rsa_.reset(EVP_PKEY_id(tmp_pkey.get()) == EVP_PKEY_RSA
                      ? EVP_PKEY_get1_RSA(tmp_pkey.get())
                      : nullptr);''')],
  needs='a certificate whose public key does not parse', breaks='an absent public key is dereferenced',
  demo=G + X + r'''
// the certificate with an algorithm nobody knows for its key
int main() {
  auto r = rsaKey();
  std::string c = cert(r.get(), r.get());
  EXPECT_STATUS(from("{\"a\":\"" + c + "\"}")->getStatus(), Status::Ok);
  std::string pem;
  for (size_t i = 0; i < c.size(); i++) {
    if (c[i] == '\\') { pem += '\n'; i++; } else pem += c[i];
  }
  bssl::UniquePtr<BIO> b(BIO_new_mem_buf(pem.data(), pem.size()));
  bssl::UniquePtr<X509> x(PEM_read_bio_X509(b.get(), nullptr, nullptr, nullptr));
  uint8_t* der = nullptr;
  int n = i2d_X509(x.get(), &der);
  std::string d((char*)der, n);
  OPENSSL_free(der);
  // rsaEncryption 1.2.840.113549.1.1.1 -> 1.2.840.113549.1.1.99
  const std::string oid("\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01", 9);
  size_t p = d.find(oid);
  EXPECT(p != std::string::npos);
  d[p + 8] = 0x63;
  std::string e;
  absl::Base64Escape(d, &e);
  std::string o = "-----BEGIN CERTIFICATE-----\\n";
  for (size_t i = 0; i < e.size(); i += 64) o += e.substr(i, 64) + "\\n";
  o += "-----END CERTIFICATE-----\\n";
  EXPECT_STATUS(from("{\"a\":\"" + o + "\"}")->getStatus(), Status::JwksX509GetPubkeyError);
  return g_failed;
}
'''),

 dict(id='k02-even-modulus', prop='K02', edits=[(J, '''    if (!RSA_check_key(rsa.get())) {''', '''    if (BN_is_odd(RSA_get0_n(rsa.get())) && !RSA_check_key(rsa.get())) {''')],
  needs='an RSA key whose modulus is even', breaks='an RSA key the check would refuse is imported',
  demo=G + r'''int main() {
  EXPECT_STATUS(from(jwksOf({Key::Rsa().json()}))->getStatus(), Status::Ok);
  for (const char* n : {"AQ", "Ag", "AAAA"}) {
    std::string j = std::string("{\"kty\":\"RSA\",\"e\":\"AQAB\",\"n\":\"") + n + "\"}";
    EXPECT_STATUS(from(jwksOf({j}))->getStatus(), Status::JwksRsaParseError);
  }
  return g_failed;
}
'''),
 dict(id='k05-old-certificate', prop='K05', edits=[(J, '''  bssl::UniquePtr<EVP_PKEY> tmp_pkey(X509_get_pubkey(''', '''  if (X509_cmp_current_time(X509_get0_notBefore(jwk->x509_.get())) > 0) {
    return Status::JwksX509ParseError;
  }
  bssl::UniquePtr<EVP_PKEY> tmp_pkey(X509_get_pubkey(''')],
  needs='a certificate whose validity has not begun', breaks='the import depends on the validity period of a certificate',
  demo=G + X + r'''int main() {
  auto r = rsaKey();
  std::string c = cert(r.get(), r.get());
  EXPECT_STATUS(from("{\"a\":\"" + c + "\"}")->getStatus(), Status::Ok);
  c = cert(r.get(), r.get(), 100000);
  EXPECT_STATUS(from("{\"a\":\"" + c + "\"}")->getStatus(), Status::Ok);
  return g_failed;
}
'''),
]

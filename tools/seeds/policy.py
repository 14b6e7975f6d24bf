W, C, V = 'src/jwt.cc', 'src/check_audience.cc', 'src/verify.cc'
S = [
 dict(id='v04-skew-clamp', prop='V04', edits=[(W, 'Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {', 'Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {\n  if (clock_skew > now) clock_skew = now;')],
  needs='a clock skew larger than the current time', breaks='the skew is cut, so nbf is enforced too early',
  demo='''
  Jwt j;
  j.nbf_ = 25;
  EXPECT_STATUS(j.verifyTimeConstraint(10, 20), Status::Ok);
  EXPECT_STATUS(j.verifyTimeConstraint(10, 14), Status::JwtNotYetValid);
  EXPECT_STATUS(j.verifyTimeConstraint(30, 0), Status::Ok);
'''),
 dict(id='v04-nbf-after-exp', prop='V04', edits=[(W, '    return Status::JwtNotYetValid;\n', '    if (!exp_ || nbf_ <= exp_) return Status::JwtNotYetValid;\n')],
  needs='a token whose nbf lies behind its exp', breaks='a not yet valid token passes the time check',
  demo='''
  Jwt j;
  j.nbf_ = 5000;
  j.exp_ = 4000;
  EXPECT_STATUS(j.verifyTimeConstraint(1000, 60), Status::JwtNotYetValid);
  EXPECT_STATUS(j.verifyTimeConstraint(4500, 60), Status::JwtNotYetValid);
  EXPECT_STATUS(j.verifyTimeConstraint(5000, 60), Status::JwtExpired);
'''),
 dict(id='v05-slashes', prop='V05', edits=[(C, "  if (aud[end_pos - 1] == '/') {", "  while (end_pos > beg_pos && aud[end_pos - 1] == '/') {")],
  needs='an audience that ends in two slashes', breaks='more than one trailing slash is ignored',
  demo='''
  EXPECT(CheckAudience({"https://a/"}).areAudiencesAllowed({"a"}));
  EXPECT(!CheckAudience({"https://a/"}).areAudiencesAllowed({"a//"}));
  EXPECT(!CheckAudience({"a//"}).areAudiencesAllowed({"a"}));
'''),
 dict(id='v05-two-schemes', prop='V05', edits=[(C, '  } else if (absl::StartsWith(aud, HTTPSSchemePrefix)) {\n    beg_pos =', '  }\n  if (absl::StartsWith(absl::string_view(aud).substr(beg_pos), HTTPSSchemePrefix)) {\n    beg_pos +=')],
  needs='an audience with the http scheme in front of the https scheme', breaks='two schemes are removed',
  demo='''
  EXPECT(CheckAudience({"https://a"}).areAudiencesAllowed({"http://a"}));
  EXPECT(!CheckAudience({"a"}).areAudiencesAllowed({"http://https://a"}));
'''),
 dict(id='v05-short-config', prop='V05', edits=[(C, '    config_audiences_.insert(sanitizeAudience(aud));', '    config_audiences_.insert(aud.size() > HTTPSSchemePrefix.size() ? sanitizeAudience(aud) : aud);')],
  needs='a configured audience of at most eight characters with a trailing slash', breaks='a short configured audience is not brought to the normal form',
  demo='''
  EXPECT(CheckAudience({"service1/"}).areAudiencesAllowed({"service1"}));
  EXPECT(CheckAudience({"a/"}).areAudiencesAllowed({"a"}));
  EXPECT(CheckAudience({"a/"}).areAudiencesAllowed({"https://a"}));
'''),
 dict(id='v05-all-of', prop='V05', edits=[(C, '''    if (config_audiences_.find(sanitizeAudience(aud)) !=
        config_audiences_.end()) {
      return true;
    }
''', '''    if (config_audiences_.find(sanitizeAudience(aud)) !=
        config_audiences_.end()) {
      return true;
    }
    if (&aud - jwt_audiences.data() >= 15) break;
''')],
  needs='a token with more than sixteen audiences, the allowed one among the last', breaks='only the first sixteen audiences are looked at',
  demo='''
  std::vector<std::string> a;
  for (int i = 0; i < 40; i++) {
    a.push_back("x" + std::to_string(i));
    EXPECT(CheckAudience({a.back()}).areAudiencesAllowed(a));
  }
'''),
 dict(id='v06-frozen-clock', prop='V06', edits=[(V, '  return verifyJwt(jwt, jwks, absl::ToUnixSeconds(absl::Now()));', '  static const int64_t now = absl::ToUnixSeconds(absl::Now());\n  return verifyJwt(jwt, jwks, now);')],
  needs='a process that has verified a token before', breaks='the time check uses the time of the first call',
  inc='#include <time.h>\n#include <unistd.h>\n#include "dem.h"\n',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  auto ks = Jwks::createFrom(jwksOf({a.json()}), Jwks::JWKS);
  Jwt w;
  time_t t = time(nullptr);
  EXPECT_STATUS(w.parseFromString(token(a, "HS256", "{\\"exp\\":" + std::to_string(t - 58) + "}")), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks), Status::Ok);
  sleep(4);
  EXPECT_STATUS(verifyJwt(w, *ks), Status::JwtExpired);
'''),
 dict(id='v06-no-aud-passes', prop='V06', edits=[(V, '  if (!checker.areAudiencesAllowed(jwt.audiences_)) {', '  if (!jwt.audiences_.empty() && !checker.areAudiencesAllowed(jwt.audiences_)) {')],
  needs='a token without aud and a call that names audiences', breaks='a token without aud passes the audience check',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  auto ks = Jwks::createFrom(jwksOf({a.json()}), Jwks::JWKS);
  Jwt w;
  EXPECT_STATUS(w.parseFromString(token(a, "HS256", "{}")), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks, {"svc"}, 1000), Status::JwtAudienceNotAllowed);
  EXPECT_STATUS(w.parseFromString(token(a, "HS256", "{\\"aud\\":\\"svc\\"}")), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks, {"svc"}, 1000), Status::Ok);
'''),
 dict(id='v06-aud-skew', prop='V06', edits=[(V, '  return verifyJwt(jwt, jwks, now);\n}\n\n}  // namespace', '  return verifyJwt(jwt, jwks, now, jwt.nbf_ > now ? 0 : kClockSkewInSecond);\n}\n\n}  // namespace')],
  needs='a token that is not valid yet but within the skew, verified with audiences', breaks='the overload with audiences allows nbf no skew',
  demo='''
  Key a = Key::Oct("0123456789abcdef0123456789abcdef");
  auto ks = Jwks::createFrom(jwksOf({a.json()}), Jwks::JWKS);
  Jwt w;
  EXPECT_STATUS(w.parseFromString(token(a, "HS256", "{\\"aud\\":\\"svc\\",\\"nbf\\":1030,\\"exp\\":2000}")), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks, {"svc"}, 1000), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks, {"svc"}, 2050), Status::Ok);
  EXPECT_STATUS(verifyJwt(w, *ks, {"svc"}, 969), Status::JwtNotYetValid);
'''),
]

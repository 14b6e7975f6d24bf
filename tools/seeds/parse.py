J, U = 'src/jwt.cc', 'src/struct_utils.cc'
PARSE = '''
static Status parse(const std::string& h, const std::string& p, Jwt* w, const std::string& s = "c2ln") {
  return w->parseFromString(b64(h) + "." + b64(p) + "." + s);
}
'''
H = '"{\\"alg\\":\\"HS256\\"}"'
S = [
 dict(id='t01-sig-length', prop='T01', edits=[(J, '  if (!absl::WebSafeBase64Unescape(jwt_split[2], &signature_)) {', '  if (!absl::WebSafeBase64Unescape(jwt_split[2], &signature_) &&\n      jwt_split[2].size() % 4 != 1) {')],
  needs='a signature section whose length is one more than a multiple of four', breaks='an undecodable signature section parses',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{}", &w), Status::Ok);\n  EXPECT_STATUS(parse(%s, "{}", &w, "!!!!"), Status::JwtSignatureParseErrorBadBase64);\n  EXPECT_STATUS(parse(%s, "{}", &w, "c2lna"), Status::JwtSignatureParseErrorBadBase64);\n  return g_failed;\n}\n' % (H, H, H)),
 dict(id='t01-kid-before-alg', prop='T01', edits=[(J, '''  if (!isImplemented(alg_)) {
    return Status::JwtHeaderNotImplementedAlg;
  }

  // Header may contain "kid", should be a string if exists.
  if (header_getter.GetString("kid", &kid_) == StructUtils::WRONG_TYPE) {
    return Status::JwtHeaderBadKid;
  }
''', '''  // Header may contain "kid", should be a string if exists.
  if (header_getter.GetString("kid", &kid_) == StructUtils::WRONG_TYPE) {
    return Status::JwtHeaderBadKid;
  }

  if (!isImplemented(alg_) && !(alg_.size() == 5 && alg_[0] == 'E' && kid_.empty())) {
    return Status::JwtHeaderNotImplementedAlg;
  }
''')],
  needs='a token without kid whose alg is an unimplemented five letter name starting with E', breaks='a token with an unknown alg parses',
  demo=PARSE + '''int main() {
  Jwt w;
  EXPECT_STATUS(parse("{\\"alg\\":\\"EdDSA\\"}", "{}", &w), Status::Ok);
  EXPECT_STATUS(parse("{\\"alg\\":\\"ES257\\"}", "{}", &w), Status::JwtHeaderNotImplementedAlg);
  EXPECT_STATUS(parse("{\\"alg\\":\\"EDDSA\\",\\"kid\\":\\"a\\"}", "{}", &w), Status::JwtHeaderNotImplementedAlg);
  return g_failed;
}
'''),
 dict(id='t01-payload-default', prop='T01', edits=[(J, '  if (!payload_status.ok()) {', '  if (!payload_status.ok() && !(payload_str_.size() < 3 && payload_str_[0] == \'[\')) {')],
  needs='a payload that is an empty JSON array', breaks='a payload that is no JSON object parses',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{}", &w), Status::Ok);\n  EXPECT_STATUS(parse(%s, "[]", &w), Status::JwtPayloadParseErrorBadJson);\n  EXPECT_STATUS(parse(%s, "[1]", &w), Status::JwtPayloadParseErrorBadJson);\n  return g_failed;\n}\n' % (H, H, H)),
 dict(id='t02-nbf-from-iat', prop='T02', edits=[(J, '  result = payload_getter.GetUInt64("exp", &exp_);', '  if (result == StructUtils::MISSING) nbf_ = iat_;\n  result = payload_getter.GetUInt64("exp", &exp_);')],
  needs='a token with iat and without nbf', breaks='an absent nbf takes the value of iat',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{\\"iat\\":77,\\"nbf\\":5}", &w), Status::Ok);\n  EXPECT(w.nbf_ == 5 && w.iat_ == 77);\n  EXPECT_STATUS(parse(%s, "{\\"iat\\":77}", &w), Status::Ok);\n  EXPECT(w.nbf_ == 0);\n  return g_failed;\n}\n' % (H, H)),
 dict(id='t02-jti-unchecked', prop='T02', edits=[(J, '  if (payload_getter.GetString("jti", &jti_) == StructUtils::WRONG_TYPE) {', '  if (payload_getter.GetString("jti", &jti_) == StructUtils::WRONG_TYPE &&\n      !sub_.empty()) {')],
  needs='a token without sub whose jti is no string', breaks='a jti of the wrong type is taken for an absent one',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{\\"sub\\":\\"s\\",\\"jti\\":1}", &w), Status::JwtPayloadParseErrorJtiNotString);\n  EXPECT_STATUS(parse(%s, "{\\"jti\\":{}}", &w), Status::JwtPayloadParseErrorJtiNotString);\n  return g_failed;\n}\n' % (H, H)),
 dict(id='t02-exp-wrong-status', prop='T02', edits=[(J, '    return Status::JwtPayloadParseErrorExpOutOfRange;', '    return nbf_ ? Status::JwtPayloadParseErrorNbfOutOfRange\n                : Status::JwtPayloadParseErrorExpOutOfRange;')],
  needs='a token with nbf and an exp out of range', breaks='the status names another claim',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":-1}", &w), Status::JwtPayloadParseErrorExpOutOfRange);\n  EXPECT_STATUS(parse(%s, "{\\"nbf\\":7,\\"exp\\":1e30}", &w), Status::JwtPayloadParseErrorExpOutOfRange);\n  return g_failed;\n}\n' % (H, H)),
 dict(id='t03-upper-bound', prop='T03', edits=[(U, '          static_cast<double>(std::numeric_limits<uint64_t>::max())) {', '          static_cast<double>(std::numeric_limits<uint64_t>::max()) * 1.0000001) {')],
  needs='a claim of exactly 2^64', breaks='2^64 is converted although it does not fit',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":1e30}", &w), Status::JwtPayloadParseErrorExpOutOfRange);\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":18446744073709551616}", &w), Status::JwtPayloadParseErrorExpOutOfRange);\n  return g_failed;\n}\n' % (H, H)),
 dict(id='t03-rounding', prop='T03', edits=[(U, '  *int_value = static_cast<uint64_t>(double_value);', '  *int_value = static_cast<uint64_t>(double_value + 0.5);')],
  needs='a claim that is no whole number', breaks='a numeric claim is rounded up instead of truncated',
  demo=PARSE + 'int main() {\n  Jwt w;\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":1234}", &w), Status::Ok);\n  EXPECT(w.exp_ == 1234);\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":1234.75}", &w), Status::Ok);\n  EXPECT(w.exp_ == 1234);\n  return g_failed;\n}\n' % (H, H)),
 dict(id='t04-same-text', prop='T04', edits=[(J, '  parseFromString(rhs.jwt_);', '  if (jwt_ != rhs.jwt_) parseFromString(rhs.jwt_);')],
  needs='an object that holds the same text with fields changed since', breaks='assignment leaves the former fields of the object',
  demo=PARSE + 'int main() {\n  Jwt a, b;\n  EXPECT_STATUS(parse(%s, "{\\"exp\\":1234,\\"aud\\":\\"x\\"}", &a), Status::Ok);\n  b = a;\n  EXPECT(b.exp_ == 1234);\n  b.exp_ = 0;\n  b.audiences_.push_back("y");\n  b = a;\n  EXPECT(b.exp_ == 1234 && b.audiences_.size() == 1);\n  return g_failed;\n}\n' % H),
 dict(id='t04-copy-of-failed', prop='T04', edits=[(J, 'Jwt::Jwt(const Jwt& instance) { *this = instance; }', 'Jwt::Jwt(const Jwt& instance) {\n  *this = instance;\n  signature_ = instance.signature_;\n  kid_ = instance.kid_;\n}')],
  needs='a copy of an object whose kid was changed after the parse', breaks='the copy differs from a fresh parse of its text',
  demo=PARSE + 'int main() {\n  Jwt a;\n  EXPECT_STATUS(parse("{\\"alg\\":\\"HS256\\",\\"kid\\":\\"k\\"}", "{}", &a), Status::Ok);\n  EXPECT(Jwt(a).kid_ == "k");\n  a.kid_ = "other";\n  Jwt c(a), d;\n  d = a;\n  EXPECT(c.kid_ == d.kid_);\n  return g_failed;\n}\n'),
 dict(id='t05-null-step', prop='T05', edits=[(U, '      return WRONG_TYPE;\n    }\n    current_struct', '      return it->second.kind_case() == google::protobuf::Value::kNullValue\n                 ? MISSING\n                 : WRONG_TYPE;\n    }\n    current_struct')],
  needs='a null on the way of a nested lookup', breaks='a null on the way is reported as missing',
  inc='#include "dem.h"\n#include "google/protobuf/util/json_util.h"\n#include "jwt_verify_lib/struct_utils.h"\n',
  demo='''
  google::protobuf::Struct s;
  EXPECT(google::protobuf::util::JsonStringToMessage("{\\"a\\":null,\\"b\\":1,\\"c\\":{\\"d\\":\\"e\\"}}", &s).ok());
  StructUtils g(s);
  std::string v;
  EXPECT(g.GetString("c.d", &v) == StructUtils::OK && v == "e");
  EXPECT(g.GetString("b.x", &v) == StructUtils::WRONG_TYPE);
  EXPECT(g.GetString("a.x", &v) == StructUtils::WRONG_TYPE);
'''),
 dict(id='t05-dotted-member', prop='T05', edits=[(U, '    if (it == fields.end()) {\n', '    if (i == 0 && it == fields.end()) {\n      const auto whole = fields.find(nested_names);\n      if (whole != fields.end()) {\n        found = &whole->second;\n        return OK;\n      }\n    }\n    if (it == fields.end()) {\n')],
  needs='a JSON object with a member whose name contains a dot', breaks='a lookup by path finds a member with a dotted name',
  inc='#include "dem.h"\n#include "google/protobuf/util/json_util.h"\n#include "jwt_verify_lib/struct_utils.h"\n',
  demo='''
  google::protobuf::Struct s;
  EXPECT(google::protobuf::util::JsonStringToMessage("{\\"a.b\\":\\"x\\",\\"c\\":{\\"d\\":\\"e\\"}}", &s).ok());
  StructUtils g(s);
  std::string v;
  EXPECT(g.GetString("c.d", &v) == StructUtils::OK && v == "e");
  EXPECT(g.GetString("a.b", &v) == StructUtils::MISSING);
'''),
 dict(id='t05-list-dup', prop='T05', edits=[(U, '      list->push_back(v.string_value());', '      if (list->empty() || list->back() != v.string_value()) {\n        list->push_back(v.string_value());\n      }')],
  needs='a list with two equal neighbours', breaks='repeated elements of a list are dropped',
  inc='#include "dem.h"\n#include "google/protobuf/util/json_util.h"\n#include "jwt_verify_lib/struct_utils.h"\n',
  demo='''
  google::protobuf::Struct s;
  EXPECT(google::protobuf::util::JsonStringToMessage("{\\"a\\":[\\"x\\",\\"y\\",\\"y\\",\\"z\\"]}", &s).ok());
  StructUtils g(s);
  std::vector<std::string> v;
  EXPECT(g.GetStringList("a", &v) == StructUtils::OK && v.size() == 4);
'''),
]

// Calls that rely on default arguments of the public headers.
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/verify.h"

namespace drv {
using namespace google::jwt_verify;

Status verifyDefaultSkew(const Jwt& jwt, const Jwks& jwks, uint64_t now) { return verifyJwt(jwt, jwks, now); }
Status timeDefaultSkew(const Jwt& jwt, const Jwks&, uint64_t now) { return jwt.verifyTimeConstraint(now); }
}  // namespace drv

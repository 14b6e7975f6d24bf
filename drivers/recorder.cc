// An object that records a status, through the protected interface.
#include "jwt_verify_lib/status.h"

namespace google {
namespace jwt_verify {
namespace drv {
struct Recorder : public WithStatus {
  void update(Status s) { updateStatus(s); }
  void reset(Status s) { resetStatus(s); }
};

Recorder make() { return Recorder(); }
void update(Recorder& r, Status s) { r.update(s); }
void reset(Recorder& r, Status s) { r.reset(s); }
Status get(const Recorder& r) { return r.getStatus(); }
}  // namespace drv
}  // namespace jwt_verify
}  // namespace google

// Replaces reverb/cc/platform/default/thread.cc: a thread is a fiber.
#include "absl/memory/memory.h"
#include "absl/strings/string_view.h"
#include "reverb/cc/platform/thread.h"
#include "sim/sim.h"

namespace deepmind {
namespace reverb {
namespace internal {
namespace {
class SimThread : public Thread {
 public:
  SimThread(std::string name, std::function<void()> fn)
      : fiber_(reverbsim::Spawn(name, std::move(fn))) {
    reverbsim::Point();
  }
  ~SimThread() override { reverbsim::Join(fiber_); }

 private:
  reverbsim::Fiber* fiber_;
};
}  // namespace
std::unique_ptr<Thread> StartThread(absl::string_view name,
                                    std::function<void()> fn) {
  return absl::make_unique<SimThread>(std::string(name), std::move(fn));
}
}  // namespace internal
}  // namespace reverb
}  // namespace deepmind

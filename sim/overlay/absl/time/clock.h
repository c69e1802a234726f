#ifndef ABSL_TIME_CLOCK_H_
#define ABSL_TIME_CLOCK_H_
#include "absl/base/macros.h"
#include "absl/time/time.h"
#include "sim/sync.h"
namespace absl {
inline absl::Time Now() { return ::reverbsim::SimNow(); }
inline int64_t GetCurrentTimeNanos() {
  return absl::ToUnixNanos(::reverbsim::SimNow());
}
inline void SleepFor(absl::Duration d) { ::reverbsim::SimSleepFor(d); }
}  // namespace absl
#endif

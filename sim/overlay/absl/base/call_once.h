#ifndef ABSL_BASE_CALL_ONCE_H_
#define ABSL_BASE_CALL_ONCE_H_
#include <functional>
#include "sim/sync.h"
namespace absl {
using once_flag = ::reverbsim::once_flag;
template <typename Callable, typename... Args>
void call_once(once_flag& flag, Callable&& fn, Args&&... args) {
  if (flag.state == 2) return;
  ::reverbsim::OnceImpl(&flag, [&] { std::invoke(fn, args...); });
}
}  // namespace absl
#endif

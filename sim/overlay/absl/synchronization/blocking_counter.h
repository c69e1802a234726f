#ifndef ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#define ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
using BlockingCounter = ::reverbsim::BlockingCounter;
}
#endif

#ifndef ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace absl {
using Notification = ::reverbsim::Notification;
}
#endif

#ifndef ABSL_SYNCHRONIZATION_MUTEX_H_
#define ABSL_SYNCHRONIZATION_MUTEX_H_
#include "absl/base/thread_annotations.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "sim/sync.h"
#include <unistd.h>
namespace absl {
using Mutex = ::reverbsim::Mutex;
using MutexLock = ::reverbsim::MutexLock;
using ReaderMutexLock = ::reverbsim::ReaderMutexLock;
using WriterMutexLock = ::reverbsim::WriterMutexLock;
using MutexLockMaybe = ::reverbsim::MutexLockMaybe;
using ReleasableMutexLock = ::reverbsim::ReleasableMutexLock;
using Condition = ::reverbsim::Condition;
using CondVar = ::reverbsim::CondVar;
}  // namespace absl
#endif

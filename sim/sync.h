// Simulated replacements of absl::Mutex, CondVar, Notification, ...
#ifndef VERIF_SIM_SYNC_H_
#define VERIF_SIM_SYNC_H_

#include <functional>
#include <list>
#include <type_traits>
#include <vector>

#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"

namespace reverbsim {
struct Fiber;

class Condition {
 public:
  Condition(bool (*f)(void*), void* arg) : fn_([f, arg] { return f(arg); }) {}
  template <typename T>
  Condition(bool (*f)(T*), T* arg) : fn_([f, arg] { return f(arg); }) {}
  template <typename T, typename = void>
  Condition(bool (*f)(T*), typename std::common_type<T>::type* arg)
      : fn_([f, arg] { return f(arg); }) {}
  template <typename T>
  Condition(T* obj, bool (std::common_type<T>::type::*m)())
      : fn_([obj, m] { return (obj->*m)(); }) {}
  template <typename T>
  Condition(const T* obj, bool (std::common_type<T>::type::*m)() const)
      : fn_([obj, m] { return (obj->*m)(); }) {}
  explicit Condition(const bool* b) : fn_([b] { return *b; }) {}
  template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(
                            &T::operator()))>
  explicit Condition(const T* obj) : fn_([obj] { return (*obj)(); }) {}
  bool Eval() const { return fn_(); }

 private:
  std::function<bool()> fn_;
};

class Mutex {
 public:
  Mutex() = default;
  ~Mutex();
  Mutex(const Mutex&) = delete;
  Mutex& operator=(const Mutex&) = delete;

  void Lock();
  void Unlock();
  bool TryLock();
  void ReaderLock();
  void ReaderUnlock();
  bool ReaderTryLock();
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  bool WriterTryLock() { return TryLock(); }
  void AssertHeld() const;
  void AssertReaderHeld() const;
  void AssertNotHeld() const {}

  void Await(const Condition& c) { AwaitUntil(c, INT64_MAX); }
  bool AwaitWithTimeout(const Condition& c, absl::Duration d);
  bool AwaitWithDeadline(const Condition& c, absl::Time t);
  void LockWhen(const Condition& c) {
    Lock();
    Await(c);
  }
  bool LockWhenWithTimeout(const Condition& c, absl::Duration d);
  bool LockWhenWithDeadline(const Condition& c, absl::Time t);
  void ReaderLockWhen(const Condition& c) {
    ReaderLock();
    Await(c);
  }
  void WriterLockWhen(const Condition& c) { LockWhen(c); }
  void EnableDebugLog(const char*) {}
  void EnableInvariantDebugging(void (*)(void*), void*) {}
  void ForgetDeadlockInfo() {}
  static void InternalAttemptToUseMutexInFatalSignalHandler() {}

 private:
  friend class CondVar;
  struct CondWaiter {
    Fiber* fiber;
    const Condition* cond;
    bool granted;
  };
  void Acquire(bool writer);
  void Release(bool writer);
  bool AwaitUntil(const Condition& c, int64_t deadline_ns);
  void EvalWaiters();

  Fiber* owner_ = nullptr;
  int readers_ = 0;
  int users_ = 0;  // fibers blocked here
  std::vector<Fiber*> waiters_;
  std::vector<CondWaiter*> cond_waiters_;
};

class CondVar {
 public:
  CondVar() = default;
  ~CondVar();
  CondVar(const CondVar&) = delete;
  void Wait(Mutex* mu) { WaitUntil(mu, INT64_MAX); }
  bool WaitWithTimeout(Mutex* mu, absl::Duration d);
  bool WaitWithDeadline(Mutex* mu, absl::Time t);
  void Signal();
  void SignalAll();
  void EnableDebugLog(const char*) {}

 private:
  struct CvWaiter {
    Fiber* fiber;
    bool queued;
  };
  bool WaitUntil(Mutex* mu, int64_t deadline_ns);
  std::vector<CvWaiter*> waiters_;
};

class MutexLock {
 public:
  explicit MutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  MutexLock(Mutex* mu, const Condition& c) : mu_(mu) { mu_->LockWhen(c); }
  ~MutexLock() { mu_->Unlock(); }
  MutexLock(const MutexLock&) = delete;

 private:
  Mutex* const mu_;
};
using WriterMutexLock = MutexLock;
class ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex* mu) : mu_(mu) { mu_->ReaderLock(); }
  ReaderMutexLock(Mutex* mu, const Condition& c) : mu_(mu) {
    mu_->ReaderLockWhen(c);
  }
  ~ReaderMutexLock() { mu_->ReaderUnlock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;

 private:
  Mutex* const mu_;
};
class MutexLockMaybe {
 public:
  explicit MutexLockMaybe(Mutex* mu) : mu_(mu) {
    if (mu_) mu_->Lock();
  }
  ~MutexLockMaybe() {
    if (mu_) mu_->Unlock();
  }

 private:
  Mutex* const mu_;
};
class ReleasableMutexLock {
 public:
  explicit ReleasableMutexLock(Mutex* mu) : mu_(mu) { mu_->Lock(); }
  ~ReleasableMutexLock() {
    if (mu_) mu_->Unlock();
  }
  void Release() {
    mu_->Unlock();
    mu_ = nullptr;
  }

 private:
  Mutex* mu_;
};

class Notification {
 public:
  Notification() = default;
  explicit Notification(bool prenotify) : done_(prenotify) {}
  ~Notification();
  bool HasBeenNotified() const;
  void WaitForNotification() const;
  bool WaitForNotificationWithTimeout(absl::Duration d) const;
  bool WaitForNotificationWithDeadline(absl::Time t) const;
  void Notify();

 private:
  bool WaitUntil(int64_t deadline_ns) const;
  bool done_ = false;
  mutable std::vector<Fiber*> waiters_;
};

class BlockingCounter {
 public:
  explicit BlockingCounter(int n) : count_(n) {}
  bool DecrementCount();
  void Wait();

 private:
  int count_;
  std::vector<Fiber*> waiters_;
};

class once_flag {
 public:
  int state = 0;
  std::vector<Fiber*> waiters;
};
void OnceImpl(once_flag* flag, const std::function<void()>& fn);

absl::Time SimNow();
void SimSleepFor(absl::Duration d);
int64_t DeadlineFromTime(absl::Time t);
int64_t DeadlineFromDuration(absl::Duration d);

}  // namespace reverbsim
#endif

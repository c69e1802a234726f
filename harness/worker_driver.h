// Driver for a table with the table worker: asynchronous requests.
#ifndef VERIF_HARNESS_WORKER_DRIVER_H_
#define VERIF_HARNESS_WORKER_DRIVER_H_

#include "harness/table_driver.h"
#include "reverb/cc/support/task_executor.h"

namespace harness {

// An extension that may run asynchronously; what it is told must be a prefix
// of what the table did, with the states of that time.
class Recorder : public rv::TableExtension {
 public:
  Recorder(TableOracle* o, bool async, int slow_permille, const std::string& n)
      : o_(o), async_(async), slow_(slow_permille), name_(n) {}
  bool CanRunAsync() const override { return async_; }
  std::string DebugString() const override { return name_; }
  size_t count() const { return n_; }
  int registered = 0, unregistered = 0;
  bool busy = false;

 protected:
  void OnInsert(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    Got(kEvInsert, &item);
  }
  void OnDelete(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    Got(kEvDelete, &item);
  }
  void OnUpdate(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    Got(kEvUpdate, &item);
  }
  void OnSample(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    Got(kEvSample, &item);
  }
  void OnReset(absl::Mutex* mu) override { Got(kEvReset, nullptr); }
  absl::Status RegisterTable(absl::Mutex*, rv::Table*) override {
    registered++;
    return absl::OkStatus();
  }
  void UnregisterTable(absl::Mutex*, rv::Table*) override { unregistered++; }

 private:
  void Got(EvType t, const rv::ExtensionItem* item);
  TableOracle* o_;
  bool async_;
  int slow_;
  std::string name_;
  size_t n_ = 0;
};

struct AsyncInsert {
  Key key;
  double priority;
  uint64_t start, end;  // enqueue call, in driver sequence numbers
  bool applied = false;
  bool refused = false;
};

struct AsyncSample {
  int want;
  uint64_t start, end = 0;
  int64_t enqueued_ns;
  int64_t accepted_ns = -1;
  absl::Duration timeout;
  bool denied = false;
  int answers = 0;
  absl::Status status;
  std::vector<size_t> events;  // indices into sample_log
  std::shared_ptr<rv::Table::SamplingCallback> cb;
  std::string who;
};

struct SampleEvent {
  Ev ev;
  const void* ref;
  bool claimed = false;
};

struct HoldBack {
  std::shared_ptr<std::function<void(const absl::Status&)>> cb;
  int registered = 0, delivered = 0;
  bool error = false;
  reverbsim::Fiber* waiting = nullptr;
};

struct WorkerDriver : TableDriver {
  std::shared_ptr<rv::TaskExecutor> executor;
  std::vector<std::shared_ptr<Recorder>> recorders;
  std::vector<std::unique_ptr<AsyncInsert>> inserts;
  std::vector<std::unique_ptr<AsyncSample>> samples;
  std::vector<SampleEvent> sample_log;
  std::vector<std::unique_ptr<HoldBack>> holds;
  const void* last_ref = nullptr;
  uint64_t seq = 0;
  uint64_t priority_id = 0;
  int64_t completed_inserts = 0, completed_samples = 0;
  int64_t max_enqueued_inserts = 1;
  bool resetting = false;

  void Setup(int threads);
  HoldBack* NewHold();
  // Returns false when told to hold back.
  bool InsertAsync(Key key, double priority, int episode, int nchunks,
                   HoldBack* hold);
  void WaitHold(HoldBack* h);
  AsyncSample* SampleAsync(int want, absl::Duration timeout);
  void SampleBlocking(int want, absl::Duration timeout);
  void Answered(AsyncSample* s, const absl::Status& st,
                std::vector<rv::Table::SampledItem>* items);
  void CheckQuiescentAsync();
  // After the table is gone.
  void CheckEnd();
  void CheckOrder();
};

}  // namespace harness
#endif

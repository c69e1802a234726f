// Sequential reference model of a reverb Table, fed by a synchronous table
// extension (called under the table's lock, so the order of its notifications
// is the order in which the table applied the operations).
#ifndef VERIF_HARNESS_ORACLE_H_
#define VERIF_HARNESS_ORACLE_H_

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/interface.h"
#include "reverb/cc/table.h"
#include "reverb/cc/table_extensions/interface.h"
#include "sim/sim.h"

namespace harness {

namespace rv = ::deepmind::reverb;
using reverbsim::Violate;
using Key = uint64_t;

enum SelKind { kFifo, kLifo, kMinHeap, kMaxHeap, kUniform, kPrioritized };

struct SelSpec {
  SelKind kind = kFifo;
  double exponent = 1.0;
};

struct LimiterSpec {
  double spi = 1;
  int64_t min_size = 1;
  double min_diff = -1e300;
  double max_diff = 1e300;
};

struct TableSpec {
  std::string name = "t";
  SelSpec sampler, remover;
  int64_t max_size = 10;
  int32_t max_times = 0;
  LimiterSpec limiter;
  bool worker = false;
};

std::shared_ptr<rv::ItemSelector> MakeSelector(const SelSpec& s);
std::string SpecString(const TableSpec& s);
// Draws a table configuration from kCfg.
// True if the table's selectors must refuse the priority.
bool InvalidPriority(const TableSpec& s, double priority);
// Now and then, makes the item's chunks disagree with its trajectory; such an
// item must be refused. True if it did.
bool Malform(int stream, rv::TableItem* item);
SelSpec RandomSelector();
LimiterSpec RandomLimiter(int64_t max_size);
TableSpec RandomTable(const std::string& name, int max_max_size);

// A chunk with `rows` rows of one int64 column; data is a function of the key.
rv::ChunkData MakeChunkData(Key key, uint64_t episode, int rows = 1);
std::shared_ptr<rv::ChunkStore::Chunk> MakeChunk(Key key, uint64_t episode,
                                                 int rows = 1);
rv::TableItem MakeItem(
    const std::string& table, Key key, double priority,
    const std::vector<std::shared_ptr<rv::ChunkStore::Chunk>>& chunks);

// The same for equal messages, also if they hold maps.
std::string Bytes(const google::protobuf::MessageLite& m);

enum EvType { kEvInsert, kEvSample, kEvUpdate, kEvDelete, kEvReset };
const char* EvName(EvType t);

struct Ev {
  EvType type;
  Key key = 0;
  double priority = 0;
  int32_t times_sampled = 0;
  // For samples: what the table must report.
  int64_t table_size = 0;
  double probability = 0;
  int64_t at_ns = 0;
  int fiber = 0;
};

struct MItem {
  Key key = 0;
  double priority = 0;
  int32_t times = 0;
  uint64_t insert_seq = 0;
  uint64_t heap_seq = 0;
  std::vector<uint64_t> episodes;  // one entry per chunk
  std::vector<const void*> chunk_ptrs;
  std::string trajectory;          // serialized
  rv::PrioritizedItem proto;       // as inserted
};

struct MState {
  std::map<Key, MItem> items;
  int64_t inserts = 0, samples = 0, deletes = 0;
  int64_t unique = 0, deleted_episodes = 0;
  std::map<uint64_t, int64_t> episodes;
};

class TableOracle;

// The operation the current fiber performs on the table; put in FiberSlot.
struct OpCtx {
  enum Kind { kInsert, kSample, kMutate, kReset } kind;
  TableOracle* oracle = nullptr;
  // kInsert
  Key key = 0;
  double priority = 0;
  // kSample
  int batch = 1;
  // kMutate
  std::vector<std::pair<Key, double>> updates;
  std::vector<Key> deletes;
  // Recorded.
  std::vector<Ev> events;
  std::vector<Ev> expected;   // kMutate: what must follow
  size_t next_expected = 0;
  bool started = false;
  bool could_be_noop = false;  // kMutate: at some moment nothing matched
  bool invalid = false;        // has a priority the table must refuse
  bool denied = false;         // limiter denied at some moment
  bool allowed_always = true;
  int64_t invoke_ns = 0;
  uint64_t invoke_version = 0;
};

class TableOracle {
 public:
  explicit TableOracle(const TableSpec& spec);

  std::shared_ptr<rv::TableExtension> extension() { return ext_; }
  // Builds the table with the oracle as its first extension.
  std::shared_ptr<rv::Table> MakeTable(
      std::vector<std::shared_ptr<rv::TableExtension>> more = {},
      absl::optional<tensorflow::StructuredValue> signature = absl::nullopt);

  const TableSpec& spec() const { return spec_; }
  // The model is only to be looked at when no table operation is half done.
  const MState& state() const { return m_; }
  int64_t size() const { return m_.items.size(); }
  bool CanInsert(int n = 1) const;
  bool CanSample(int n = 1) const;
  uint64_t version() const { return version_; }
  const std::vector<Ev>& log() const { return log_; }
  const std::vector<rv::PrioritizedItem>& inserted() const { return inserted_; }
  const std::set<OpCtx*>& open() const { return open_; }
  int registered() const { return registered_; }
  int unregistered() const { return unregistered_; }

  // Operations of the current fiber.
  void Begin(OpCtx* op);
  void End(OpCtx* op);

  // Called after every event (and once at registration) with the event's
  // effect applied; `same_op` is true if this state replaces the previous one
  // because both belong to one atomic operation.
  struct Observer {
    std::function<void(bool same_op)> fn;
  };
  void AddObserver(Observer* o);
  void RemoveObserver(Observer* o);

  // Every unattributed insert is an error when set (all operations come from
  // fibers that use Begin/End).
  bool strict_ops = false;
  // Appended to the property list of violations.
  std::string extra_props;
  // Hooks for scenario specific checks (called under the table's lock).
  std::function<void(const rv::ExtensionItem&)> on_insert, on_sample;
  std::function<void(const Ev&)> on_event;

  // May the selector return `key` in the current state, and with which
  // probability?
  bool Selectable(const SelSpec& s, Key key, double* prob,
                  std::string* why) const;

  void CheckInfo(const rv::TableInfo& info, const MState& m,
                 const std::string& where);
  // True in the middle of an atomic operation.
  bool mid_op() const { return expect_evict_ || expect_exhausted_; }
  // While a checkpoint is loaded inserts are collected only.
  bool loading = false;
  std::vector<std::shared_ptr<rv::TableItem>> loaded;
  // The model continues from `m`, which is what was loaded.
  void Restore(const MState& m);

 private:
  friend class OracleExtension;
  void OnInsert(const rv::ExtensionItem& item);
  void OnDelete(const rv::ExtensionItem& item);
  void OnUpdate(const rv::ExtensionItem& item);
  void OnSample(const rv::ExtensionItem& item);
  void OnReset();
  void CheckNothingExpected(const char* what);
  void Commit(Ev ev, OpCtx* op);
  OpCtx* CurrentOp();
  void StartMutate(OpCtx* op);
  void Fail(const std::string& props, const std::string& cls,
            const std::string& msg);
  void CheckItem(const rv::ExtensionItem& item, const MItem& m,
                 const char* what);
  void Remove(Key key);

  TableSpec spec_;
  std::shared_ptr<rv::TableExtension> ext_;
  MState m_;
  uint64_t seq_ = 0;
  uint64_t version_ = 0;
  std::vector<Ev> log_;
  std::vector<rv::PrioritizedItem> inserted_;
  std::set<OpCtx*> open_;
  std::vector<Observer*> observers_;
  OpCtx* last_op_ = nullptr;
  // Pending follow-up inside one atomic step.
  bool expect_evict_ = false;
  bool expect_exhausted_ = false;
  Key exhausted_ = 0;
  int registered_ = 0, unregistered_ = 0;
};

// Compares a sampled item with the event recorded for it.
void CheckSampled(TableOracle* o, const rv::Table::SampledItem& s, const Ev& e);

std::string Str(const Ev& e);
bool Near(double a, double b);

}  // namespace harness
#endif

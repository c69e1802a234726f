#include "harness/oracle.h"

#include <cmath>

#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"

namespace harness {
using absl::StrCat;
using namespace reverbsim;

bool Near(double a, double b) {
  double d = std::fabs(a - b);
  return d <= 1e-9 + 1e-5 * std::max(std::fabs(a), std::fabs(b));
}

std::shared_ptr<rv::ItemSelector> MakeSelector(const SelSpec& s) {
  switch (s.kind) {
    case kFifo: return std::make_shared<rv::FifoSelector>();
    case kLifo: return std::make_shared<rv::LifoSelector>();
    case kMinHeap: return std::make_shared<rv::HeapSelector>(true);
    case kMaxHeap: return std::make_shared<rv::HeapSelector>(false);
    case kUniform: return std::make_shared<rv::UniformSelector>();
    case kPrioritized:
      return std::make_shared<rv::PrioritizedSelector>(s.exponent);
  }
  return nullptr;
}

static std::string SelString(const SelSpec& s) {
  static const char* n[] = {"fifo", "lifo", "minheap", "maxheap", "uniform",
                            "prioritized"};
  return s.kind == kPrioritized ? StrCat(n[s.kind], "^", s.exponent)
                                : n[s.kind];
}
std::string SpecString(const TableSpec& s) {
  return StrCat(s.name, "{sampler=", SelString(s.sampler),
                " remover=", SelString(s.remover), " max_size=", s.max_size,
                " max_times=", s.max_times, " spi=", s.limiter.spi,
                " min_size=", s.limiter.min_size,
                " min_diff=", s.limiter.min_diff,
                " max_diff=", s.limiter.max_diff, " worker=", s.worker, "}");
}

bool InvalidPriority(const TableSpec& s, double priority) {
  auto invalid = [&](const SelSpec& x) {
    return x.kind == kPrioritized &&
           (std::isnan(priority) || priority < 0 ||
            (std::isinf(priority) && x.exponent > 0));
  };
  return invalid(s.sampler) || invalid(s.remover);
}

bool Malform(int stream, rv::TableItem* item) {
  if (!Flip(stream, 15)) return false;
  auto* t = item->item.mutable_flat_trajectory();
  auto& c = item->chunks;
  switch (Choose(stream, 6)) {
    case 0: t->clear_columns(); break;
    case 1: t->add_columns(); break;
    case 2: c.pop_back(); break;
    case 3: c.push_back(c[0]); break;
    case 4: c.back() = MakeChunk(c.back()->key() + 1000003, 1); break;
    default:
      if (c.size() < 2) return false;
      std::swap(c.front(), c.back());
  }
  Probe("malformed-item");
  return true;
}

SelSpec RandomSelector() {
  SelSpec s;
  s.kind = static_cast<SelKind>(Choose(kCfg, 6));
  if (s.kind == kPrioritized) {
    static const double e[] = {1.0, 0.0, 0.5, 2.0};
    s.exponent = e[Choose(kCfg, 4)];
  }
  return s;
}

LimiterSpec RandomLimiter(int64_t max_size) {
  LimiterSpec l;
  switch (Choose(kCfg, 4)) {
    case 0:  // min size
      l.min_size = 1 + Choose(kCfg, std::min<int64_t>(3, max_size));
      break;
    case 1:  // queue / stack
      l.min_size = 1;
      l.min_diff = 0;
      l.max_diff = 1 + Choose(kCfg, max_size);
      break;
    case 2: {  // sample to insert ratio
      static const double spi[] = {1, 2, 0.5, 3, 1.5};
      l.spi = spi[Choose(kCfg, 5)];
      l.min_size = 1 + Choose(kCfg, std::min<int64_t>(3, max_size));
      double buffer = std::max(1.0, l.spi) * (1 + Choose(kCfg, 3));
      double offset = l.spi * l.min_size;
      l.min_diff = offset - buffer;
      l.max_diff = offset + buffer;
      break;
    }
    case 3: {  // arbitrary
      static const double spi[] = {1, 2, 0.5};
      l.spi = spi[Choose(kCfg, 3)];
      l.min_size = 1 + Choose(kCfg, std::min<int64_t>(3, max_size));
      l.min_diff = -1.0 * Choose(kCfg, 4);
      l.max_diff = l.spi * l.min_size + Choose(kCfg, 4);
      break;
    }
  }
  return l;
}

TableSpec RandomTable(const std::string& name, int max_max_size) {
  TableSpec t;
  t.name = name;
  t.sampler = RandomSelector();
  t.remover = RandomSelector();
  t.max_size = 1 + Choose(kCfg, max_max_size);
  t.max_times = Choose(kCfg, 4);
  t.limiter = RandomLimiter(t.max_size);
  return t;
}

rv::ChunkData MakeChunkData(Key key, uint64_t episode, int rows) {
  rv::ChunkData d;
  d.set_chunk_key(key);
  d.mutable_sequence_range()->set_episode_id(episode);
  d.mutable_sequence_range()->set_start(0);
  d.mutable_sequence_range()->set_end(rows - 1);
  tensorflow::Tensor t(tensorflow::DT_INT64, {rows, 2});
  for (int i = 0; i < rows * 2; i++)
    t.flat<int64_t>()(i) = static_cast<int64_t>(key * 1000003 + i);
  rv::CompressTensorAsProto(t, d.mutable_data()->add_tensors());
  d.set_data_tensors_len(1);
  return d;
}
std::shared_ptr<rv::ChunkStore::Chunk> MakeChunk(Key key, uint64_t episode,
                                                 int rows) {
  return std::make_shared<rv::ChunkStore::Chunk>(
      MakeChunkData(key, episode, rows));
}

rv::TableItem MakeItem(
    const std::string& table, Key key, double priority,
    const std::vector<std::shared_ptr<rv::ChunkStore::Chunk>>& chunks) {
  rv::TableItem item;
  item.item.set_key(key);
  item.item.set_table(table);
  item.item.set_priority(priority);
  auto* col = item.item.mutable_flat_trajectory()->add_columns();
  for (auto& c : chunks) {
    auto* s = col->add_chunk_slices();
    s->set_chunk_key(c->key());
    s->set_offset(0);
    s->set_length(c->num_rows());
    s->set_index(0);
    item.chunks.push_back(c);
  }
  return item;
}

std::string Bytes(const google::protobuf::MessageLite& m) {
  std::string s;
  {
    google::protobuf::io::StringOutputStream out(&s);
    google::protobuf::io::CodedOutputStream coded(&out);
    coded.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&coded);
  }
  return s;
}

const char* EvName(EvType t) {
  static const char* n[] = {"insert", "sample", "update", "delete", "reset"};
  return n[t];
}
std::string Str(const Ev& e) {
  return StrCat(EvName(e.type), "(key=", e.key, " priority=", e.priority,
                " times=", e.times_sampled, ")");
}

class OracleExtension : public rv::TableExtension {
 public:
  explicit OracleExtension(TableOracle* o) : o_(o) {}
  bool CanRunAsync() const override { return false; }
  std::string DebugString() const override { return "Oracle"; }

 protected:
  void OnInsert(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    mu->AssertHeld();
    NoPreempt np;
    o_->OnInsert(item);
  }
  void OnDelete(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    mu->AssertHeld();
    NoPreempt np;
    o_->OnDelete(item);
  }
  void OnUpdate(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    mu->AssertHeld();
    NoPreempt np;
    o_->OnUpdate(item);
  }
  void OnSample(absl::Mutex* mu, const rv::ExtensionItem& item) override {
    mu->AssertHeld();
    NoPreempt np;
    o_->OnSample(item);
  }
  void OnReset(absl::Mutex* mu) override {
    mu->AssertHeld();
    NoPreempt np;
    o_->OnReset();
  }
  absl::Status RegisterTable(absl::Mutex*, rv::Table*) override {
    o_->registered_++;
    return absl::OkStatus();
  }
  void UnregisterTable(absl::Mutex*, rv::Table*) override {
    o_->unregistered_++;
  }

 private:
  TableOracle* o_;
};

TableOracle::TableOracle(const TableSpec& spec)
    : spec_(spec), ext_(std::make_shared<OracleExtension>(this)) {}

std::shared_ptr<rv::Table> TableOracle::MakeTable(
    std::vector<std::shared_ptr<rv::TableExtension>> more,
    absl::optional<tensorflow::StructuredValue> signature) {
  std::vector<std::shared_ptr<rv::TableExtension>> ext = {ext_};
  for (auto& e : more) ext.push_back(e);
  return std::make_shared<rv::Table>(
      spec_.name, MakeSelector(spec_.sampler), MakeSelector(spec_.remover),
      spec_.max_size, spec_.max_times,
      std::make_shared<rv::RateLimiter>(spec_.limiter.spi,
                                        spec_.limiter.min_size,
                                        spec_.limiter.min_diff,
                                        spec_.limiter.max_diff),
      ext, signature);
}

bool TableOracle::CanInsert(int n) const {
  if (m_.inserts + n - m_.deletes <= spec_.limiter.min_size) return true;
  return (m_.inserts + n) * spec_.limiter.spi - m_.samples <=
         spec_.limiter.max_diff;
}
bool TableOracle::CanSample(int n) const {
  if (m_.inserts - m_.deletes < spec_.limiter.min_size) return false;
  return m_.inserts * spec_.limiter.spi - m_.samples - n >=
         spec_.limiter.min_diff;
}

void TableOracle::Fail(const std::string& props, const std::string& cls,
                       const std::string& msg) {
  Violate(extra_props.empty() ? props : props + "," + extra_props, cls,
          StrCat("[table ", spec_.name, "] ", msg, " (fiber ", FiberName(),
                 ", model size ", m_.items.size(), " inserts ", m_.inserts,
                 " samples ", m_.samples, " deletes ", m_.deletes, "; ",
                 SpecString(spec_), ")"));
}

bool TableOracle::Selectable(const SelSpec& s, Key key, double* prob,
                             std::string* why) const {
  auto it = m_.items.find(key);
  if (it == m_.items.end()) {
    *why = "not a member";
    return false;
  }
  *prob = 1.0;
  const MItem& x = it->second;
  for (auto& [k, y] : m_.items) {
    if (k == key) continue;
    bool better = false;
    switch (s.kind) {
      case kFifo: better = y.insert_seq < x.insert_seq; break;
      case kLifo: better = y.insert_seq > x.insert_seq; break;
      case kMinHeap:
        better = y.priority < x.priority ||
                 (y.priority == x.priority && y.heap_seq < x.heap_seq);
        break;
      case kMaxHeap:
        better = y.priority > x.priority ||
                 (y.priority == x.priority && y.heap_seq < x.heap_seq);
        break;
      default: break;
    }
    if (better) {
      *why = StrCat("key ", k, " (priority ", y.priority, ", insert #",
                    y.insert_seq, ", update #", y.heap_seq,
                    ") goes before key ", key, " (priority ", x.priority,
                    ", insert #", x.insert_seq, ", update #", x.heap_seq, ")");
      return false;
    }
  }
  if (s.kind == kUniform) {
    *prob = 1.0 / m_.items.size();
  } else if (s.kind == kPrioritized) {
    auto weight = [&](double p) {
      return p == 0 ? 0.0 : std::pow(p, s.exponent);
    };
    double sum = 0;
    for (auto& [k, y] : m_.items) sum += weight(y.priority);
    if (sum == 0) {
      *prob = 1.0 / m_.items.size();
    } else {
      *prob = weight(x.priority) / sum;
      if (*prob == 0) {
        *why = StrCat("key ", key, " has zero priority, others do not");
        return false;
      }
    }
  }
  return true;
}

OpCtx* TableOracle::CurrentOp() {
  OpCtx* op = static_cast<OpCtx*>(FiberSlot());
  if (op && op->oracle == this) return op;
  return nullptr;
}

void TableOracle::Begin(OpCtx* op) {
  NoPreempt np;
  op->oracle = this;
  op->invoke_ns = NowNs();
  op->invoke_version = version_;
  FiberSlot() = op;
  open_.insert(op);
  // State visible at the time of the call.
  if (op->kind == OpCtx::kSample && !CanSample()) op->denied = true;
  if (op->kind == OpCtx::kInsert && !CanInsert()) op->denied = true;
  if (op->kind == OpCtx::kMutate) {
    bool any = false;
    for (auto& [k, p] : op->updates) any |= m_.items.count(k) > 0;
    for (Key k : op->deletes) any |= m_.items.count(k) > 0;
    if (!any) op->could_be_noop = true;
  }
}
void TableOracle::End(OpCtx* op) {
  NoPreempt np;
  FiberSlot() = nullptr;
  open_.erase(op);
  if (last_op_ == op) last_op_ = nullptr;
  if (op->kind == OpCtx::kMutate) {
    if (op->started) {
      if (op->next_expected != op->expected.size()) {
        Fail("T06", "mutate-incomplete",
             StrCat("a priority mutation ended without ",
                    Str(op->expected[op->next_expected])));
      }
    } else if (!op->could_be_noop) {
      Fail("T06", "mutate-lost",
           "a priority mutation had no effect although at every moment of the "
           "call a named item was in the table");
    }
  }
}
void TableOracle::AddObserver(Observer* o) {
  NoPreempt np;
  observers_.push_back(o);
}
void TableOracle::RemoveObserver(Observer* o) {
  NoPreempt np;
  for (size_t i = 0; i < observers_.size(); i++)
    if (observers_[i] == o) {
      observers_.erase(observers_.begin() + i);
      return;
    }
}

void TableOracle::CheckNothingExpected(const char* what) {
  if (expect_evict_) {
    expect_evict_ = false;
    Fail("T04,T06", "no-eviction",
         StrCat(what, " follows an insert into a full table without the "
                      "eviction of one item"));
  }
  if (expect_exhausted_) {
    expect_exhausted_ = false;
    Fail("T05,T06", "not-removed",
         StrCat(what, " follows the last permitted sample of key ",
                exhausted_, " before its removal"));
  }
}

void TableOracle::CheckItem(const rv::ExtensionItem& item, const MItem& m,
                            const char* what) {
  if (item.priority != m.priority && !(item.priority != item.priority))
    Fail("T06,T08", "wrong-priority",
         StrCat(what, " reports priority ", item.priority, " for key ", m.key,
                ", the table's is ", m.priority));
  if (item.times_sampled != m.times)
    Fail("T05,T06,T08", "wrong-times-sampled",
         StrCat(what, " reports times_sampled ", item.times_sampled,
                " for key ", m.key, ", expected ", m.times));
  bool same = item.ref->chunks.size() == m.chunk_ptrs.size();
  for (size_t i = 0; same && i < m.chunk_ptrs.size(); i++)
    same = item.ref->chunks[i].get() == m.chunk_ptrs[i];
  if (!same ||
      item.ref->item.flat_trajectory().SerializeAsString() != m.trajectory)
    Fail("T06,T08", "wrong-data",
         StrCat(what, " of key ", m.key, " refers to other data than inserted"));
}

void TableOracle::Remove(Key key) {
  auto it = m_.items.find(key);
  for (uint64_t e : it->second.episodes) {
    auto ep = m_.episodes.find(e);
    if (--ep->second == 0) {
      m_.episodes.erase(ep);
      m_.deleted_episodes++;
    }
  }
  m_.items.erase(it);
}

void TableOracle::Commit(Ev ev, OpCtx* op) {
  ev.at_ns = NowNs();
  ev.fiber = FiberId();
  version_++;
  log_.push_back(ev);
  SIM_LOG(StrCat("[", spec_.name, "] ", Str(ev), " by ", FiberName(),
                 op ? "" : " (no op)"));
  LogHash(ev.key * 8 + ev.type);
  if (op) op->events.push_back(ev);
  const bool same = op != nullptr && op == last_op_;
  last_op_ = op;
  for (OpCtx* o : open_) {
    if (o == op) continue;
    if (o->kind == OpCtx::kSample && !CanSample()) o->denied = true;
    if (o->kind == OpCtx::kInsert && !CanInsert()) o->denied = true;
    if (o->kind == OpCtx::kMutate && !o->started && !o->could_be_noop) {
      bool any = false;
      for (auto& [k, p] : o->updates) any |= m_.items.count(k) > 0;
      for (Key k : o->deletes) any |= m_.items.count(k) > 0;
      if (!any) o->could_be_noop = true;
    }
  }
  for (Observer* o : observers_) o->fn(same);
  if (on_event) on_event(ev);
}

void TableOracle::StartMutate(OpCtx* op) {
  op->started = true;
  std::set<Key> gone;
  for (Key k : op->deletes) {
    if (m_.items.count(k) && gone.insert(k).second) {
      Ev e;
      e.type = kEvDelete;
      e.key = k;
      op->expected.push_back(e);
    }
  }
  for (auto& [k, p] : op->updates) {
    if (m_.items.count(k) && !gone.count(k)) {
      Ev e;
      e.type = kEvUpdate;
      e.key = k;
      e.priority = p;
      op->expected.push_back(e);
    }
  }
}

void TableOracle::Restore(const MState& m) {
  NoPreempt np;
  m_ = m;
  seq_ = 0;
  for (auto& [k, x] : m_.items)
    seq_ = std::max(seq_, std::max(x.insert_seq, x.heap_seq));
  for (auto& item : loaded) {
    auto it = m_.items.find(item->item.key());
    if (it == m_.items.end()) continue;
    it->second.chunk_ptrs.clear();
    for (auto& c : item->chunks) it->second.chunk_ptrs.push_back(c.get());
    // Among equal priorities heaps start with the order of insertion.
    it->second.heap_seq = it->second.insert_seq;
  }
  loaded.clear();
  loading = false;
}

void TableOracle::OnInsert(const rv::ExtensionItem& item) {
  NoPreempt np;
  if (loading) {
    loaded.push_back(item.ref);
    return;
  }
  CheckNothingExpected("an insert");
  const rv::PrioritizedItem& p = item.ref->item;
  OpCtx* op = CurrentOp();
  if (op) {
    if (op->kind != OpCtx::kInsert || op->key != p.key() ||
        !op->events.empty()) {
      Fail("T06,T08", "unexpected-insert",
           StrCat("insert of key ", p.key(), " by an operation that ",
                  op->events.empty() ? "does not insert it"
                                     : "already had its effect"));
    } else if (op->priority != item.priority) {
      Fail("T06", "wrong-priority",
           StrCat("key ", p.key(), " inserted with priority ", item.priority,
                  " instead of ", op->priority));
    }
  } else if (strict_ops) {
    Fail("T06,T08", "unexpected-insert",
         StrCat("insert of key ", p.key(), " by no operation"));
  }
  if (m_.items.count(p.key())) {
    Fail("T06,T08", "insert-existing",
         StrCat("key ", p.key(), " is inserted although it is in the table"));
    return;
  }
  if (!CanInsert())
    Fail("T01", "insert-not-allowed",
         StrCat("insert of key ", p.key(), " although the limiter forbids it"));
  MItem x;
  x.key = p.key();
  x.priority = item.priority;
  x.times = item.times_sampled;
  x.insert_seq = x.heap_seq = ++seq_;
  for (auto& c : item.ref->chunks) {
    x.episodes.push_back(c->episode_id());
    x.chunk_ptrs.push_back(c.get());
    m_.episodes[c->episode_id()]++;
  }
  x.trajectory = p.flat_trajectory().SerializeAsString();
  x.proto = p;
  if (on_insert) on_insert(item);
  inserted_.push_back(p);
  m_.items[p.key()] = std::move(x);
  m_.inserts++;
  if (static_cast<int64_t>(m_.items.size()) > spec_.max_size)
    expect_evict_ = true;
  Ev ev;
  ev.type = kEvInsert;
  ev.key = p.key();
  ev.priority = item.priority;
  ev.times_sampled = item.times_sampled;
  Commit(ev, op);
}

void TableOracle::OnDelete(const rv::ExtensionItem& item) {
  NoPreempt np;
  const Key key = item.ref->item.key();
  OpCtx* op = CurrentOp();
  auto it = m_.items.find(key);
  if (it == m_.items.end()) {
    Fail("T04,T06,T08", "delete-unknown",
         StrCat("delete of key ", key, " which is not in the table"));
    return;
  }
  CheckItem(item, it->second, "a delete");
  if (expect_exhausted_) {
    expect_exhausted_ = false;
    if (key != exhausted_)
      Fail("T05,T06", "wrong-removal",
           StrCat("key ", key, " removed instead of the exhausted ",
                  exhausted_));
  } else if (expect_evict_) {
    expect_evict_ = false;
    double prob;
    std::string why;
    if (!Selectable(spec_.remover, key, &prob, &why))
      Fail("T04,T06", "wrong-eviction",
           StrCat("key ", key, " is evicted but ", why));
  } else if (op && op->kind == OpCtx::kMutate) {
    if (!op->started) StartMutate(op);
    if (op->next_expected >= op->expected.size() ||
        op->expected[op->next_expected].type != kEvDelete ||
        op->expected[op->next_expected].key != key) {
      Fail("T06,T04", "unexpected-delete",
           StrCat("delete of key ", key, " by a mutation that expected ",
                  op->next_expected < op->expected.size()
                      ? Str(op->expected[op->next_expected])
                      : "nothing more"));
    } else {
      op->next_expected++;
    }
  } else if (strict_ops || op) {
    Fail("T04,T05", "unexplained-delete",
         StrCat("key ", key,
                " disappears without eviction, deletion, reset or exhaustion"));
  }
  Remove(key);
  m_.deletes++;
  if (static_cast<int64_t>(m_.items.size()) > spec_.max_size)
    Fail("T04,T06", "over-capacity",
         StrCat("the table holds ", m_.items.size(), " items"));
  Ev ev;
  ev.type = kEvDelete;
  ev.key = key;
  ev.priority = item.priority;
  ev.times_sampled = item.times_sampled;
  Commit(ev, op);
}

void TableOracle::OnUpdate(const rv::ExtensionItem& item) {
  NoPreempt np;
  CheckNothingExpected("an update");
  const Key key = item.ref->item.key();
  OpCtx* op = CurrentOp();
  auto it = m_.items.find(key);
  if (it == m_.items.end()) {
    Fail("T06,T08", "update-unknown",
         StrCat("update of key ", key, " which is not in the table"));
    return;
  }
  double want = item.priority;
  bool ok = !strict_ops;
  if (op && op->kind == OpCtx::kInsert) {
    ok = op->key == key && op->events.empty();
    want = op->priority;
  } else if (op && op->kind == OpCtx::kMutate) {
    if (!op->started) StartMutate(op);
    ok = op->next_expected < op->expected.size() &&
         op->expected[op->next_expected].type == kEvUpdate &&
         op->expected[op->next_expected].key == key;
    if (ok) want = op->expected[op->next_expected++].priority;
  } else if (op) {
    ok = false;
  }
  if (!ok)
    Fail("T06,T08", "unexpected-update",
         StrCat("update of key ", key, " that no operation asked for"));
  it->second.priority = want;
  it->second.heap_seq = ++seq_;
  CheckItem(item, it->second, "an update");
  Ev ev;
  ev.type = kEvUpdate;
  ev.key = key;
  ev.priority = item.priority;
  ev.times_sampled = item.times_sampled;
  Commit(ev, op);
}

void TableOracle::OnSample(const rv::ExtensionItem& item) {
  NoPreempt np;
  CheckNothingExpected("a sample");
  const Key key = item.ref->item.key();
  OpCtx* op = CurrentOp();
  if (op ? op->kind != OpCtx::kSample : strict_ops)
    Fail("T06,T08", "unexpected-sample",
         StrCat("sample of key ", key, " by an operation that does not sample"));
  if (op && op->kind == OpCtx::kSample) {
    int n = 0;
    for (auto& e : op->events) n += e.type == kEvSample;
    if (n >= op->batch)
      Fail("T01,T06,T09", "too-many-samples",
           StrCat("an operation that may take ", op->batch,
                  " samples takes more"));
  }
  auto it = m_.items.find(key);
  if (it == m_.items.end()) {
    Fail("T05,T06", "sample-unknown",
         StrCat("sample of key ", key, " which is not in the table"));
    return;
  }
  if (!CanSample())
    Fail("T01", "sample-not-allowed",
         StrCat("sample of key ", key, " although the limiter forbids it"));
  double prob = 0;
  std::string why;
  if (!Selectable(spec_.sampler, key, &prob, &why))
    Fail("T06", "wrong-sample", StrCat("key ", key, " is sampled but ", why));
  if (it->second.times == 0) m_.unique++;
  it->second.times++;
  m_.samples++;
  CheckItem(item, it->second, "a sample");
  if (spec_.max_times > 0 && it->second.times > spec_.max_times)
    Fail("T05,T06", "oversampled",
         StrCat("key ", key, " is sampled for the ", it->second.times,
                "th time"));
  if (it->second.times == spec_.max_times) {
    expect_exhausted_ = true;
    exhausted_ = key;
  }
  if (on_sample) on_sample(item);
  Ev ev;
  ev.type = kEvSample;
  ev.key = key;
  ev.priority = item.priority;
  ev.times_sampled = item.times_sampled;
  ev.table_size = m_.items.size();
  ev.probability = prob;
  Commit(ev, op);
}

void TableOracle::OnReset() {
  NoPreempt np;
  CheckNothingExpected("a reset");
  OpCtx* op = CurrentOp();
  if (op ? (op->kind != OpCtx::kReset || !op->events.empty()) : strict_ops)
    Fail("T06,T08", "unexpected-reset", "a reset that nobody asked for");
  m_ = MState();
  Ev ev;
  ev.type = kEvReset;
  Commit(ev, op);
}

void TableOracle::CheckInfo(const rv::TableInfo& info, const MState& m,
                            const std::string& where) {
  auto eq = [&](const char* what, int64_t got, int64_t want) {
    if (got != want)
      Fail("T07", StrCat("wrong-", what),
           StrCat(where, ": table reports ", what, " ", got, ", expected ",
                  want));
  };
  eq("size", info.current_size(), m.items.size());
  eq("num-episodes", info.num_episodes(), m.episodes.size());
  eq("num-deleted-episodes", info.num_deleted_episodes(), m.deleted_episodes);
  eq("num-unique-samples", info.num_unique_samples(), m.unique);
}

void CheckSampled(TableOracle* o, const rv::Table::SampledItem& s,
                  const Ev& e) {
  std::string bad;
  if (s.ref == nullptr) {
    Violate("T06,T05", "null-sample", "a sample without item");
    return;
  }
  if (s.ref->item.key() != e.key)
    bad = StrCat("key ", s.ref->item.key(), " instead of ", e.key);
  else if (s.priority != e.priority)
    bad = StrCat("priority ", s.priority, " instead of ", e.priority);
  else if (s.times_sampled != e.times_sampled)
    bad = StrCat("times_sampled ", s.times_sampled, " instead of ",
                 e.times_sampled);
  else if (s.table_size != e.table_size)
    bad = StrCat("table size ", s.table_size, " instead of ", e.table_size);
  else if (!Near(s.probability, e.probability))
    bad = StrCat("probability ", s.probability, " instead of ", e.probability);
  if (!bad.empty())
    Violate("T05,T06", "wrong-sample-info",
            StrCat("a sample reports ", bad, " for ", Str(e), "; ",
                   SpecString(o->spec())));
}

}  // namespace harness

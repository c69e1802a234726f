#include "harness/world.h"

#include <csignal>

#include "sim/sim_server.h"

#include <climits>
#include <cstring>

#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"
#include "reverb/cc/reverb_service.pb.h"
#include "reverb/cc/writer.h"

namespace deepmind {
namespace reverb {
extern int64_t sim_max_sample_response_bytes;
extern int64_t sim_max_async_sample_response_bytes;
}  // namespace reverb
}  // namespace deepmind

namespace harness {
using namespace reverbsim;
using absl::StrCat;
using tensorflow::Tensor;

namespace {
uint64_t Mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  return x ^ (x >> 33);
}
}  // namespace

ColSpec RandomColSpec(int stream) {
  static const tensorflow::DataType types[] = {
      tensorflow::DT_INT64, tensorflow::DT_INT32,  tensorflow::DT_FLOAT,
      tensorflow::DT_UINT8, tensorflow::DT_STRING, tensorflow::DT_BOOL,
      tensorflow::DT_DOUBLE, tensorflow::DT_UINT64};
  ColSpec c;
  c.dtype = types[Choose(stream, 8)];
  switch (Choose(stream, 4)) {
    case 0: break;
    case 1: c.shape = {2}; break;
    case 2: c.shape = {2, 3}; break;
    case 3: c.shape = {1}; break;
  }
  return c;
}

std::string Str(const ColSpec& c) {
  return StrCat(tensorflow::DataTypeString(c.dtype), "[",
                absl::StrJoin(c.shape, ","), "]");
}

Tensor MakeCell(const ColSpec& c, uint64_t seed) {
  tensorflow::TensorShape shape;
  for (int64_t d : c.shape) shape.AddDim(d);
  Tensor t(c.dtype, shape);
  const int64_t n = t.NumElements();
  for (int64_t i = 0; i < n; i++) {
    uint64_t v = Mix(seed * 1000003 + i + 1);
    switch (c.dtype) {
      case tensorflow::DT_INT64: t.flat<int64_t>()(i) = v; break;
      case tensorflow::DT_UINT64: t.flat<tensorflow::uint64>()(i) = v; break;
      case tensorflow::DT_INT32: t.flat<int32_t>()(i) = v; break;
      case tensorflow::DT_UINT8: t.flat<uint8_t>()(i) = v; break;
      case tensorflow::DT_BOOL: t.flat<bool>()(i) = v & 1; break;
      case tensorflow::DT_FLOAT:
        t.flat<float>()(i) = static_cast<int64_t>(v) / 3.0f;
        break;
      case tensorflow::DT_DOUBLE:
        t.flat<double>()(i) = static_cast<int64_t>(v) / 3.0;
        break;
      default:
        t.flat<tensorflow::tstring>()(i) =
            std::string(v % 5, static_cast<char>(v >> 8)) + std::to_string(v);
    }
  }
  return t;
}

bool SameTensor(const Tensor& a, const Tensor& b) {
  if (a.dtype() != b.dtype() || a.shape() != b.shape()) return false;
  if (a.dtype() == tensorflow::DT_STRING) {
    for (int64_t i = 0; i < a.NumElements(); i++)
      if (a.flat<tensorflow::tstring>()(i) != b.flat<tensorflow::tstring>()(i))
        return false;
    return true;
  }
  auto x = a.tensor_data(), y = b.tensor_data();
  return x.size() == y.size() && memcmp(x.data(), y.data(), x.size()) == 0;
}

Tensor Stack(const std::vector<Tensor>& rows) {
  tensorflow::TensorShape shape = rows[0].shape();
  shape.InsertDim(0, rows.size());
  Tensor t(rows[0].dtype(), shape);
  const int64_t n = rows[0].NumElements();
  for (size_t r = 0; r < rows.size(); r++) {
    if (t.dtype() == tensorflow::DT_STRING) {
      for (int64_t i = 0; i < n; i++)
        t.flat<tensorflow::tstring>()(r * n + i) =
            rows[r].flat<tensorflow::tstring>()(i);
    } else {
      auto from = rows[r].tensor_data();
      memcpy(const_cast<char*>(t.tensor_data().data()) + r * from.size(),
             from.data(), from.size());
    }
  }
  return t;
}

LimiterSpec OpenLimiter() { return LimiterSpec(); }
LimiterSpec LiveLimiter() {
  LimiterSpec l;
  static const double spi[] = {1, 2, 0.5, 1.5};
  l.spi = spi[Choose(kCfg, 4)];
  l.min_size = 1 + Choose(kCfg, 3);
  const double err = 2 * std::max(1.0, l.spi) + Choose(kCfg, 3);
  l.min_diff = l.spi * l.min_size - err;
  l.max_diff = l.spi * l.min_size + err;
  return l;
}

std::string CompareItem(
    const rv::FlatTrajectory& t,
    const std::vector<std::shared_ptr<rv::ChunkStore::Chunk>>& chunks,
    const Expected& e, std::string* episodes) {
  if (t.columns_size() != static_cast<int>(e.cols.size()))
    return StrCat(t.columns_size(), " columns instead of ", e.cols.size());
  std::map<std::pair<uint64_t, int>, Tensor> decoded;
  for (int c = 0; c < t.columns_size(); c++) {
    const auto& col = t.columns(c);
    const ColumnExp& want = e.cols[c];
    if (col.squeeze() != want.squeeze)
      return StrCat("column ", c, " has squeeze=", col.squeeze());
    size_t row = 0;
    for (const auto& s : col.chunk_slices()) {
      const rv::ChunkStore::Chunk* chunk = nullptr;
      for (auto& x : chunks)
        if (x->key() == s.chunk_key()) chunk = x.get();
      if (!chunk) return StrCat("column ", c, " refers to an absent chunk");
      const rv::ChunkData& data = chunk->data();
      auto id = std::make_pair(s.chunk_key(), s.index());
      if (!decoded.count(id)) {
        if (s.index() < 0 || s.index() >= data.data().tensors_size())
          return StrCat("column ", c, " refers to tensor ", s.index(), " of ",
                        data.data().tensors_size());
        Tensor x = rv::DecompressTensorFromProto(data.data().tensors(s.index()));
        if (data.delta_encoded()) x = rv::DeltaEncode(x, false);
        decoded[id] = x;
      }
      const Tensor& x = decoded[id];
      if (s.offset() < 0 || s.length() < 1 || x.dims() < 1 ||
          s.offset() + s.length() > x.dim_size(0))
        return StrCat("column ", c, " has a slice ", s.offset(), "+",
                      s.length(), " of a chunk with ",
                      x.dims() < 1 ? -1 : x.dim_size(0), " rows");
      for (int i = s.offset(); i < s.offset() + s.length(); i++, row++) {
        if (row >= want.rows.size())
          return StrCat("column ", c, " has more than ", want.rows.size(),
                        " rows");
        Tensor r = x.SubSlice(i);
        if (!SameTensor(r, want.rows[row].value))
          return StrCat("row ", row, " of column ", c, " is ",
                        r.DebugString(), " instead of ",
                        want.rows[row].value.DebugString());
        if (want.rows[row].step >= 0) {
          const auto& range = data.sequence_range();
          if (want.rows[row].step < range.start() ||
              want.rows[row].step > range.end())
            return StrCat("row ", row, " of column ", c, ", written at step ",
                          want.rows[row].step, ", is in a chunk of steps ",
                          range.start(), " to ", range.end());
          *episodes += StrCat(want.rows[row].episode, "=", range.episode_id(),
                              ";");
        }
      }
    }
    if (row != want.rows.size())
      return StrCat("column ", c, " has ", row, " rows instead of ",
                    want.rows.size());
  }
  return "";
}

// ------------------------------------------------------------------ World
World::World() {
  SetNetObserver(this);
  auto size = [](int64_t normal) -> int64_t {
    return Flip(kCfg, 300) ? 1 + Choose(kCfg, 500) : normal;
  };
  rv::Writer::kMaxRequestSizeBytes = size(40 << 20);
  rv::TrajectoryWriter::kMaxRequestSizeBytes = size(40 << 20);
  rv::sim_max_sample_response_bytes = size(40 << 20);
  rv::sim_max_async_sample_response_bytes = size(1 << 20);
}
World::~World() { SetNetObserver(nullptr); }

ServerTable* World::Find(const std::string& name) {
  for (auto& t : tables)
    if (t->spec.name == name) return t.get();
  return nullptr;
}

ServerTable* World::AddTable(const TableSpec& spec, bool signature,
                             bool steps) {
  NoPreempt np;
  auto t = std::make_unique<ServerTable>();
  ServerTable* p = t.get();
  t->spec = spec;
  if (signature) NewSignature(p, steps);
  InitTable(p);
  tables.push_back(std::move(t));
  return p;
}

// A structure whose leaves are, in order, leaves[from..to).
static void Nest(const std::vector<tensorflow::TensorSpecProto>& leaves,
                 int from, int to, int depth,
                 tensorflow::StructuredValue* v) {
  if (to - from == 1 && depth > 0 && (depth > 3 || Flip(kCfg, 700))) {
    if (Flip(kCfg, 800)) {
      *v->mutable_tensor_spec_value() = leaves[from];
    } else {
      auto* b = v->mutable_bounded_tensor_spec_value();
      b->set_name(leaves[from].name());
      b->set_dtype(leaves[from].dtype());
      *b->mutable_shape() = leaves[from].shape();
    }
    return;
  }
  const int kind = depth > 2 ? 0 : Weighted(kCfg, {6, 2, 2, 1});
  int child = 0;
  while (from < to) {
    // Deeper down every child has one leaf. Dictionaries have one entry: with
    // more, the order in which protobuf frees them, and with it the addresses
    // of later allocations, differs between executions.
    int next = kind == 2   ? to
               : depth > 2 ? from + 1
                           : from + 1 + Choose(kCfg, to - from);
    const std::string key = StrCat(child % 2 ? "k" : "K", child++);
    tensorflow::StructuredValue* c;
    switch (kind) {
      case 0: c = v->mutable_list_value()->add_values(); break;
      case 1: c = v->mutable_tuple_value()->add_values(); break;
      case 2: c = &(*v->mutable_dict_value()->mutable_fields())[key]; break;
      default: {
        auto* pair = v->mutable_named_tuple_value()->add_values();
        // In their own order.
        pair->set_key(key);
        c = pair->mutable_value();
      }
    }
    Nest(leaves, from, next, depth + 1, c);
    from = next;
  }
}

void World::NewSignature(ServerTable* t, bool steps) {
  t->has_signature = true;
  t->sig.emplace();
  t->signature.clear();
  t->has_time.clear();
  std::vector<tensorflow::TensorSpecProto> leaves;
  const int n = 1 + Choose(kCfg, 3);
  for (int i = 0; i < n; i++) {
    ColSpec c = RandomColSpec(kCfg);
    bool time = !steps && !Flip(kCfg, 300);
    t->signature.push_back(c);
    t->has_time.push_back(time);
    leaves.emplace_back();
    auto* s = &leaves.back();
    s->set_name(StrCat("c", i));
    s->set_dtype(c.dtype);
    tensorflow::TensorShapeProto* sh = s->mutable_shape();
    if (time) sh->add_dim()->set_size(-1);
    for (int64_t d : c.shape) sh->add_dim()->set_size(d);
  }
  Nest(leaves, 0, n, 0, &*t->sig);
}

void World::InitTable(ServerTable* p) {
  p->table.reset();
  p->oracle = std::make_unique<TableOracle>(p->spec);
  p->oracle->on_insert = [this, p](const rv::ExtensionItem& i) {
    OnInsert(p, i);
  };
  p->oracle->on_event = [this, p](const Ev& e) {
    if (on_event) on_event(p, e);
    if (e.type == kEvSample) {
      auto op = std::make_unique<SampleOp>();
      op->ev = e;
      op->table = p;
      op->index = p->ops.size();
      p->ops_of[{e.key, e.times_sampled}].push_back(op.get());
      p->ops.push_back(std::move(op));
      if (p->on_sample) p->on_sample(p->ops.back().get());
      return;
    }
    if (e.type != kEvUpdate) return;
    auto it = by_key.find(e.key);
    if (it != by_key.end()) it->second->updates++;
  };
  p->table = p->oracle->MakeTable({}, p->sig);
}

void World::Start(bool use_async,
                  std::shared_ptr<rv::Checkpointer> checkpointer) {
  absl::Status st = TryStart(use_async, std::move(checkpointer));
  if (!st.ok())
    Violate("K01,V01,V02", "service-not-created", st.ToString());
}

absl::Status World::TryStart(bool use_async,
                             std::shared_ptr<rv::Checkpointer> checkpointer) {
  async = use_async;
  std::vector<std::shared_ptr<rv::Table>> ts;
  for (auto& t : tables) ts.push_back(t->table);
  const int node = CurrentNode();
  SetNode(ep.node);
  absl::Status st;
  if (async) {
    st = rv::ReverbServiceAsyncImpl::Create(ts, checkpointer, &async_service);
    if (st.ok())
      for (auto& t : tables) t->table = async_service->tables()[t->spec.name];
    ep.async = async_service.get();
  } else if (Flip(kCfg, 500)) {
    // The server as users start it.
    SetListener(&ep);
    st = rv::StartServer(ts, 4711, checkpointer, &server);
    if (st.ok())
      for (auto& t : tables) t->table = ep.sync->tables()[t->spec.name];
  } else {
    st = rv::ReverbServiceImpl::Create(ts, checkpointer, &sync_service);
    if (st.ok())
      for (auto& t : tables) t->table = sync_service->tables()[t->spec.name];
    ep.sync = sync_service.get();
  }
  SetNode(node);
  return st;
}

void World::NewTables() {
  const int node = CurrentNode();
  SetNode(ep.node);
  for (auto& t : tables) InitTable(t.get());
  SetNode(node);
}

void World::StartLogs() {
  NoPreempt np;
  for (auto& t : tables) {
    t->log = std::make_unique<TableLog>();
    t->log->Attach(t->oracle.get());
    t->log->signature = t->sig ? Bytes(*t->sig) : "";
  }
}

void World::Crash() {
  {
    NoPreempt np;
    KillNode(ep.node);
    ep.up = false;
    ep.handlers = 0;
    ep.generation++;
    ep.sync = nullptr;
    ep.async = nullptr;
    BreakAll(&ep);
    EndpointChanged(&ep);
    sync_service.release();
    async_service.release();
    server.release();
    drains_.clear();
    feed_held.clear();
    for (auto& e : items)
      if (e->server_reads > e->inserts + e->updates) e->may_be_lost = true;
    for (auto& t : tables) {
      if (t->log) t->log->Detach();
      if (t->log) old_logs_.push_back(std::move(t->log));
      // What the process held never runs again.
      t->oracle.release();
      new std::shared_ptr<rv::Table>(std::move(t->table));
      for (auto& op : t->ops)
        if (op->conn < 0) op->conn = INT_MAX;
    }
    for (auto& [c, s] : insert_conns) s->unconfirmed.clear();
  }
}

void World::Stop() {
  stopping = true;
  StopDrain();
  if (server) {
    StopServer();
    for (auto& t : tables) t->table.reset();
    return;
  }
  ep.up = false;
  if (sync_service) sync_service->Close();
  if (async_service) async_service->Close();
  BreakAll(&ep);
  if (!WaitHandlers(&ep, 20000000000)) {
    std::string open;
    for (auto& c : Connections()) {
      bool done = async ? c->callback_done : c->server_done;
      if (c->ep == &ep && !c->refused && !done)
        open += StrCat(" ", c->id, "(kind ", c->kind, ")");
    }
    Violate(async ? "V02" : "V01", "handler-never-ends",
            StrCat("calls that never end although their clients are gone and "
                   "the tables closed:", open));
  }
  ep.sync = nullptr;
  ep.async = nullptr;
  sync_service.reset();
  async_service.reset();
  for (auto& t : tables) t->table.reset();
}

void World::StopServer() {
  const int node = CurrentNode();
  SetNode(ep.node);
  const int how = Choose(kWork, 3);
  int result = -1;
  Fiber* waiter = nullptr;
  if (how > 0) {
    waiter = Spawn("server-wait", [this, &result] { result = server->Wait(); });
    // The waiter installs the signal handler.
    SleepNs(1000000000);
  }
  const int64_t start = NowNs();
  if (how == 2) {
    Fault("sigint");
    {
      NoPreempt np;
      raise(SIGINT);
    }
    while (result < 0 && NowNs() - start < 60000000000) SleepNs(100000000);
  } else {
    server->Stop();
    SleepNs(100000000);
  }
  if (waiter && result < 0)
    Violate("V01", "server-does-not-stop",
            "Wait() does not return after the server was stopped");
  if (waiter && result != (how == 2))
    Violate("V01", "wrong-stop-reason",
            StrCat("Wait() returned ", result, " after ",
                   how == 2 ? "SIGINT" : "Stop()"));
  if (waiter) Join(waiter);
  if (ep.sync)
    Violate("V01", "server-does-not-stop",
            "the server still runs after it was stopped");
  server.reset();
  if (NowNs() - start > 40000000000)
    Violate("V01", "server-does-not-stop",
            StrCat("stopping the server took ", (NowNs() - start) / 1000000,
                   "ms"));
  SetNode(node);
}

void World::StartDrain() {
  draining_ = true;
  for (auto& t : tables) {
    rv::Table* table = t->table.get();
    TableOracle* o = t->oracle.get();
    drains_.push_back(Spawn(StrCat("drain-", t->spec.name), [this, table, o] {
      int n = 0;
      while (draining_) {
        bool blocked;
        {
          NoPreempt np;
          blocked = !o->CanInsert(1);
        }
        if (blocked || ++n % 8 == 0) {
          std::vector<rv::Table::SampledItem> got;
          absl::Status st =
              table->SampleFlexibleBatch(&got, 4, absl::ZeroDuration());
          if (absl::IsCancelled(st)) return;
          got.clear();
        }
        SleepNs(n < 200 ? 500000 : 5000000);
      }
    }));
  }
}
void World::StopDrain() {
  draining_ = false;
  for (Fiber* f : drains_) Join(f);
  drains_.clear();
}

Expected* World::NewItem(int writer, const std::string& table) {
  auto e = std::make_unique<Expected>();
  e->id = items.size();
  e->writer = writer;
  e->table = table;
  e->priority = NextPriority();
  Expected* p = e.get();
  by_priority_[p->priority] = p;
  items.push_back(std::move(e));
  return p;
}

Expected* World::FindItem(double priority) {
  auto it = by_priority_.find(priority);
  return it == by_priority_.end() ? nullptr : it->second;
}

InsertConnState* World::Insert(Conn* c) {
  auto& s = insert_conns[c];
  if (!s) s = std::make_unique<InsertConnState>();
  return s.get();
}

void World::ClientWrite(Conn* c, const google::protobuf::Message& m) {
  if (c->kind != kInsertConn) return;
  auto& req = static_cast<const rv::InsertStreamRequest&>(m);
  InsertConnState* s = Insert(c);
  const std::string where = StrCat(" on stream ", c->id);
  // A legacy writer repeats chunks with each item that it writes at once.
  std::set<uint64_t> repeated;
  if (legacy_nodes.count(c->client_node)) repeated = s->last_chunks;
  s->last_chunks.clear();
  for (auto& chunk : req.chunks()) {
    s->last_chunks.insert(chunk.chunk_key());
    if (!s->held.insert(chunk.chunk_key()).second && !unknown_items_ok &&
        !repeated.count(chunk.chunk_key()))
      Violate("W04", "chunk-sent-twice",
              StrCat("chunk ", chunk.chunk_key(),
                     " is sent although the server has it", where));
    else if (s->dropped.count(chunk.chunk_key()))
      s->again.insert(chunk.chunk_key());
  }
  const uint64_t prev_write = s->prev_write;
  s->prev_write = Step();
  if (!req.has_item()) return;
  const auto& item = req.item().item();
  if (unknown_items_ok) return;
  for (uint64_t k : rv::internal::GetChunkKeys(item.flat_trajectory()))
    if (!s->held.count(k))
      Violate("W04", "item-without-data",
              StrCat("item ", item.key(), " refers to chunk ", k,
                     " which the server does not hold", where));
  std::set<uint64_t> keep;
  for (uint64_t k : req.item().keep_chunk_keys()) {
    if (!keep.insert(k).second)
      Violate("W04", "duplicate-keep-key",
              StrCat("chunk ", k, " is listed twice as kept", where));
    if (!s->held.count(k))
      Violate("W04", "keeps-unknown-chunk",
              StrCat("chunk ", k, " is listed as kept but the server does not "
                     "hold it", where));
  }
  std::set<uint64_t> again;
  again.swap(s->again);
  std::map<uint64_t, uint64_t> dropped_before = s->dropped;
  for (uint64_t k : s->held)
    if (!keep.count(k)) s->dropped[k] = prev_write;
  s->held = keep;
  auto it = by_priority_.find(item.priority());
  if (it == by_priority_.end()) {
    Violate(writer_props, "unknown-item",
            StrCat("item ", item.key(), " with priority ", item.priority(),
                   " is sent although nobody created it", where));
    return;
  }
  Expected* e = it->second;
  e->client_sends++;
  e->last_conn = c->id;
  // Data of an item that waits is not dropped to be sent again.
  if (e->created && !legacy_nodes.count(c->client_node))
    for (uint64_t k : rv::internal::GetChunkKeys(item.flat_trajectory()))
      if (again.count(k) && e->created < dropped_before[k])
        Violate("W04", "chunk-sent-again",
                StrCat("chunk ", k, " is sent again for item ", e->order,
                       " which already waited when the chunk was not kept",
                       where));
  if (e->key && e->key != item.key())
    Violate(PropsOf(e), "item-changes-key",
            StrCat("item ", e->id, " is sent as key ", item.key(),
                   " after it was sent as ", e->key, where));
  if (by_key.count(item.key()) && by_key[item.key()] != e)
    Violate(PropsOf(e), "key-reused",
            StrCat("key ", item.key(), " stands for two items", where));
  e->key = item.key();
  by_key[item.key()] = e;
  if (e->confirmed)
    Violate(PropsOf(e), "confirmed-item-resent",
            StrCat("item ", e->id, " is sent again after its confirmation",
                   where));
  if (s->last_order >= e->order)
    Violate(PropsOf(e), "items-out-of-order",
            StrCat("item ", e->order, " of writer ", e->writer,
                   " is sent after item ", s->last_order, where));
  s->last_order = e->order;
  if (req.item().send_confirmation()) {
    s->in_flight++;
    auto lim = in_flight_limit.find(e->writer);
    if (lim != in_flight_limit.end() && s->in_flight > lim->second)
      Violate("W04", "too-many-in-flight",
              StrCat(s->in_flight, " items are unconfirmed, the limit is ",
                     lim->second, where));
  }
}

SampleConnState* World::Sample(Conn* c) {
  auto& s = sample_conns[c];
  if (!s) s = std::make_unique<SampleConnState>();
  return s.get();
}

// Follows the samples on a stream, on the server's side as it sends them and
// on the client's side as it reads them.
void World::Parse(Conn* c, SampleParse* p, bool server,
                  const rv::SampleStreamResponse& r) {
  const std::string props = async ? "S02,V02" : "S02,V01";
  const std::string where =
      StrCat(server ? " sent" : " read", " on stream ", c->id);
  if (server && r.entries().empty())
    Violate(props, "empty-response", StrCat("a response without data", where));
  for (auto& e : r.entries()) {
    if (!p->open) {
      p->open = true;
      p->op = nullptr;
      p->want.clear();
      p->got.clear();
      if (!e.has_info() || !e.info().has_item()) {
        Violate(props, "sample-without-info",
                StrCat("a sample begins without its item", where));
        return;
      }
      const auto& item = e.info().item();
      p->key = item.key();
      p->rate_limited = e.info().rate_limited();
      for (uint64_t k : rv::internal::GetChunkKeys(item.flat_trajectory()))
        p->want.insert(k);
      ServerTable* t = Find(item.table());
      SampleConnState* s = Sample(c);
      int64_t* last = &s->last_index.emplace(item.table(), -1).first->second;
      if (!t || (server && s->TableOf(p->complete) != item.table())) {
        Violate(props, "wrong-table-sampled",
                StrCat("an item of table ", item.table(), " is", where,
                       " which asked for ", s->TableOf(p->complete)));
        return;
      }
      // A key that was sent again after it had left the table makes operations
      // which look alike.
      auto it = t->ops_of.find({item.key(), item.times_sampled()});
      int best = -1;
      size_t alike = 0;
      if (it != t->ops_of.end()) {
        alike = it->second.size();
        for (SampleOp* o : it->second) {
          if (server ? o->conn >= 0 : o->conn != c->id || o->read) continue;
          const int rank =
              !(item.priority() == o->ev.priority &&
                e.info().table_size() == o->ev.table_size &&
                Near(e.info().probability(), o->ev.probability))
                  ? 0
                  : server && static_cast<int64_t>(o->index) <= *last
                        ? 1
                        : 2;
          if (rank > best) {
            best = rank;
            p->op = o;
          }
        }
      }
      if (!p->op) {
        Violate(props, "sample-without-operation",
                StrCat("item ", item.key(), " sampled ", item.times_sampled(),
                       " times is", where,
                       " although the table did not sample it so"));
        return;
      }
      if (server) {
        p->op->conn = c->id;
        const Ev& ev = p->op->ev;
        if (item.priority() != ev.priority ||
            e.info().table_size() != ev.table_size ||
            !Near(e.info().probability(), ev.probability))
          Violate(props, "wrong-sample-info",
                  StrCat("sample with priority ", item.priority(), ", size ",
                         e.info().table_size(), ", probability ",
                         e.info().probability(), where, " instead of ",
                         Str(ev)));
        if (static_cast<int64_t>(p->op->index) <= *last && alike == 1)
          Violate(async ? "S03,V02" : "S03,V01", "samples-out-of-order",
                  StrCat("sample ", p->op->index, where, " after sample ",
                         *last));
        if (alike == 1) *last = p->op->index;
        if (p->complete >= s->requested)
          Violate(async ? "S01,V02" : "S01,V01", "too-many-samples",
                  StrCat("more than the ", s->requested,
                         " requested samples are", where));
      }
    } else if (e.has_info() && e.info().has_item()) {
      Violate(props, "sample-incomplete",
              StrCat("another sample begins before the end of item ", p->key,
                     where));
    }
    for (auto& d : e.data()) p->got.insert(d.chunk_key());
    if (!e.end_of_sequence()) continue;
    p->open = false;
    if (p->got != p->want)
      Violate(props, "wrong-chunks",
              StrCat("item ", p->key, " with chunks ",
                     absl::StrJoin(p->want, ","), " comes with chunks ",
                     absl::StrJoin(p->got, ","), where));
    p->complete++;
    if (!server && p->op) {
      p->op->read = true;
      auto read = std::make_unique<SampleRead>();
      read->op = p->op;
      read->conn = c->id;
      read->at_ns = NowNs();
      read->rate_limited = p->rate_limited;
      reads[c->client_node].push_back(std::move(read));
    }
  }
}

void World::ServerRead(Conn* c, const google::protobuf::Message& m) {
  if (c->kind == kSampleConn) {
    auto& req = static_cast<const rv::SampleStreamRequest&>(m);
    SampleConnState* s = Sample(c);
    s->requested += std::max<int64_t>(0, req.num_samples());
    s->requests.push_back(
        {req.table(), std::max<int64_t>(0, req.num_samples())});
    return;
  }
  if (c->kind != kInsertConn) return;
  auto& req = static_cast<const rv::InsertStreamRequest&>(m);
  InsertConnState* s = Insert(c);
  if (chunk_data)
    for (auto& d : req.chunks())
      (*chunk_data)[d.chunk_key()] = d.SerializeAsString();
  if (!req.has_item()) return;
  s->items_read++;
  if (req.item().send_confirmation())
    s->unconfirmed.push_back(req.item().item().key());
  auto it = by_key.find(req.item().item().key());
  if (it != by_key.end()) it->second->server_reads++;
}

void World::ServerWrite(Conn* c, const google::protobuf::Message& m) {
  if (c->kind == kSampleConn)
    Parse(c, &Sample(c)->server, true,
          static_cast<const rv::SampleStreamResponse&>(m));
  if (c->kind != kInsertConn) return;
  auto& resp = static_cast<const rv::InsertStreamResponse&>(m);
  InsertConnState* s = Insert(c);
  const char* prop = async ? "V02" : "V01";
  for (uint64_t k : resp.keys()) {
    if (s->unconfirmed.empty() || s->unconfirmed.front() != k) {
      Violate(prop, "wrong-confirmation",
              StrCat("stream ", c->id, ": item ", k, " is confirmed, next is ",
                     s->unconfirmed.empty()
                         ? std::string("nothing")
                         : StrCat(s->unconfirmed.front())));
    } else {
      s->unconfirmed.pop_front();
    }
    auto it = by_key.find(k);
    if (!async && it != by_key.end() &&
        it->second->inserts + it->second->updates == 0)
      Violate(prop, "confirmed-before-insert",
              StrCat("stream ", c->id, ": item ", k,
                     " is confirmed but was not inserted"));
  }
}

void World::ClientRead(Conn* c, const google::protobuf::Message& m) {
  if (c->kind == kSampleConn)
    Parse(c, &Sample(c)->client, false,
          static_cast<const rv::SampleStreamResponse&>(m));
  if (c->kind != kInsertConn) return;
  auto& resp = static_cast<const rv::InsertStreamResponse&>(m);
  InsertConnState* s = Insert(c);
  s->in_flight -= resp.keys_size();
  for (uint64_t k : resp.keys()) {
    auto it = by_key.find(k);
    if (it != by_key.end()) it->second->confirmed = true;
  }
}

void World::ServerDone(Conn* c, const grpc::Status& st) {
  if (c->kind != kInsertConn) return;
  InsertConnState* s = Insert(c);
  // Nobody sees the status of a stream which broke or was cancelled.
  if (st.ok() && !s->unconfirmed.empty() && !stopping && !c->broken &&
      !c->cancelled)
    Violate(async ? "V02" : "V01", "unconfirmed-items",
            StrCat("stream ", c->id, " ends with OK but ",
                   s->unconfirmed.size(), " items were not confirmed"));
}

void World::OnInsert(ServerTable* t, const rv::ExtensionItem& item) {
  const rv::PrioritizedItem& p = item.ref->item;
  Expected* e = nullptr;
  auto k = by_key.find(p.key());
  if (k != by_key.end()) e = k->second;
  if (!e) {
    if (!unknown_items_ok)
      Violate(writer_props, "unknown-item",
              StrCat("item ", p.key(), " appears in table ", t->spec.name,
                     " although nobody created it"));
    return;
  }
  e->inserts++;
  if (e->inserts == 1) e->first_insert = ++insert_seq_;
  const std::string name =
      StrCat("item ", e->order, " of writer ", e->writer, " (key ", p.key(), ")");
  if (e->inserts + e->updates > e->server_reads)
    Violate(PropsOf(e) + (async ? ",V02" : ",V01"), "duplicate-insert",
            StrCat(name, " is inserted ", e->inserts, " times although the "
                   "server received it ", e->server_reads, " times"));
  if (e->table != t->spec.name)
    Violate(PropsOf(e), "wrong-table",
            StrCat(name, " is in table ", t->spec.name, " instead of ",
                   e->table));
  if (p.priority() != e->priority)
    Violate(PropsOf(e), "wrong-priority",
            StrCat(name, " has priority ", p.priority(), " instead of ",
                   e->priority));
  if (e->must_not_arrive)
    Violate(PropsOf(e), "refused-item-inserted",
            StrCat(name, " is inserted although its creation failed"));
  std::string episodes;
  std::string diff =
      CompareItem(p.flat_trajectory(), item.ref->chunks, *e, &episodes);
  if (!diff.empty())
    Violate(PropsOf(e),
            e->after_error ? "wrong-data-after-error" : "wrong-data",
            StrCat(name, ": ", diff));
  if (!episodes.empty()) {
    // "<episode>=<id>;" per row.
    size_t at = 0;
    while (at < episodes.size()) {
      size_t eq = episodes.find('=', at), sc = episodes.find(';', eq);
      int ep_no = std::stoi(episodes.substr(at, eq - at));
      std::string id = episodes.substr(eq + 1, sc - eq - 1);
      at = sc + 1;
      auto mine = std::make_pair(e->writer, ep_no);
      auto a = episode_of.emplace(id, mine).first;
      auto b = id_of_episode.emplace(mine, id).first;
      if (a->second != mine || b->second != id)
        Violate(PropsOf(e), "wrong-episode",
                StrCat(name, ": data of episode ", ep_no,
                       " is stored under episode id ", id,
                       " of another episode"));
    }
  }
  // Items of one writer arrive in creation order, per table where every table
  // has its own worker.
  for (auto& o : items) {
    if (o->writer == e->writer && o->order > e->order && o->inserts > 0 &&
        e->inserts == 1 && (!async || o->table == e->table) &&
        (!loose_order.count(e->writer) || o->last_conn == e->last_conn)) {
      Violate(PropsOf(e), "inserted-out-of-order",
              StrCat(name, " is inserted after item ", o->order));
      break;
    }
  }
}

bool World::Feed(ServerTable* t, int stream, int writer, bool same_length,
                 absl::Duration timeout) {
  // The table asked to wait.
  auto held = feed_held.find(t);
  if (held != feed_held.end()) {
    if (!*held->second.second) {
      SleepNs(absl::ToInt64Nanoseconds(timeout));
      return false;
    }
    feed_held.erase(held);
  }
  rv::TableItem item;
  Expected* e;
  {
    NoPreempt np;
    const size_t ncols =
        t->has_signature ? t->signature.size() : 1 + Choose(stream, 3);
    const int len = 1 + Choose(stream, 6);
    e = NewItem(writer, t->spec.name);
    e->server_reads = 1;
    e->order = n_fed_++;
    e->key = (uint64_t{0xfeed} << 32) + n_fed_;
    by_key[e->key] = e;
    rv::PrioritizedItem& p = item.item;
    p.set_key(e->key);
    p.set_table(t->spec.name);
    p.set_priority(e->priority);
    int nchunks = 0;
    for (size_t c = 0; c < ncols; c++) {
      ColSpec spec = t->has_signature ? t->signature[c] : RandomColSpec(stream);
      auto* col = p.mutable_flat_trajectory()->add_columns();
      ColumnExp exp;
      int left = same_length ? len : 1 + Choose(stream, 6);
      if (t->has_signature && !t->has_time[c]) {
        left = 1;
        exp.squeeze = true;
      } else if (left == 1 && !same_length && !t->has_signature &&
                 Flip(stream, 300)) {
        exp.squeeze = true;
      }
      col->set_squeeze(exp.squeeze);
      // Chunks of which some rows are used.
      while (left > 0) {
        const int n = 1 + Choose(stream, left);
        const int before = Flip(stream, 400) ? Choose(stream, 3) : 0;
        const int after = Flip(stream, 400) ? Choose(stream, 3) : 0;
        std::vector<Tensor> rows;
        for (int i = 0; i < before + n + after; i++) {
          rows.push_back(MakeCell(spec, (e->key << 20) + (c << 12) +
                                            (nchunks << 4) + i));
          if (i >= before && i < before + n) exp.rows.push_back({rows.back()});
        }
        Tensor batch = Stack(rows);
        rv::ChunkData data;
        const uint64_t key = (e->key << 8) + ++nchunks;
        data.set_chunk_key(key);
        data.mutable_sequence_range()->set_episode_id(e->key);
        data.mutable_sequence_range()->set_start(0);
        data.mutable_sequence_range()->set_end(rows.size() - 1);
        data.set_delta_encoded(Flip(stream, 300));
        // Sometimes not the only tensor of its chunk.
        const int pad = Flip(stream, 250) ? 1 + Choose(stream, 2) : 0;
        if (data.delta_encoded()) batch = rv::DeltaEncode(batch, true);
        for (int i = 0; i < pad; i++) {
          Tensor other = Stack(std::vector<Tensor>(
              rows.size(), MakeCell(ColSpec(), key + i)));
          rv::CompressTensorAsProto(other, data.mutable_data()->add_tensors());
        }
        rv::CompressTensorAsProto(batch, data.mutable_data()->add_tensors());
        auto* slice = col->add_chunk_slices();
        slice->set_chunk_key(key);
        slice->set_offset(before);
        slice->set_length(n);
        slice->set_index(pad);
        if (chunk_data) (*chunk_data)[key] = data.SerializeAsString();
        item.chunks.push_back(
            std::make_shared<rv::ChunkStore::Chunk>(std::move(data)));
        left -= n;
      }
      e->cols.push_back(std::move(exp));
    }
  }
  std::shared_ptr<rv::Table> table = t->table;
  if (!table) return false;
  absl::Status st;
  if (async) {
    bool can_insert = true;
    auto go = std::make_shared<bool>(false);
    auto fn = std::make_shared<std::function<void(const absl::Status&)>>(
        [go](const absl::Status&) { *go = true; });
    st = table->InsertOrAssignAsync(std::move(item), &can_insert, fn);
    if (st.ok() && !can_insert) {
      Probe("feeder-held-back");
      const int64_t until = NowNs() + absl::ToInt64Nanoseconds(timeout);
      while (!*go && NowNs() < until) SleepNs(500000);
      if (!*go) feed_held[t] = {fn, go};
    }
  } else {
    st = table->InsertOrAssign(std::move(item), timeout);
  }
  if (!st.ok() && !absl::IsDeadlineExceeded(st) && !absl::IsCancelled(st))
    Violate("T08,W02", "insert-failed", st.ToString());
  return st.ok();
}

void World::CheckEnd() {
  for (auto& e : items) {
    if (e->acked && e->inserts == 0 && !e->may_be_lost)
      Violate(PropsOf(e.get()), "acknowledged-item-lost",
              StrCat("item ", e->order, " of writer ", e->writer,
                     " was acknowledged but never inserted"));
  }
}

}  // namespace harness

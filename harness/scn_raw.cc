// Clients that speak the protocol themselves: streams which end, break or are
// cancelled at any message, pipelined and malformed requests.
#include <algorithm>
#include <limits>

#include "absl/strings/str_cat.h"
#include "harness/world.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/tensor_compression.h"
#include "reverb/cc/support/trajectory_util.h"

namespace rv = deepmind::reverb;

namespace deepmind {
namespace reverb {
extern void (*sim_chunk_observer)(uint64_t key, int delta);
}  // namespace reverb
}  // namespace deepmind

namespace harness {
using namespace reverbsim;
using absl::StrCat;
using tensorflow::Tensor;

namespace {
const int64_t kSecond = 1000000000;

// What must become of a stream, by the messages that its server read.
struct StreamModel {
  bool bad = false;            // a message that must end it was read
  bool bad_table = false;      // ... for its unknown table
  bool invalid = false;        // ... for its arguments
  std::string why;
  uint64_t last_item = 0;
  std::set<uint64_t> held;
  // Sample streams.
  int64_t requested = 0;
  int requests = 0;
  bool finite = false;         // the last request has a timeout
  int64_t timeout_ns = 0, request_at = 0;
  std::string table;
  int64_t batch = 0;           // of the last request
};

// Chunks in memory, by key.
std::map<uint64_t, int>* live_chunks;

struct RawWorld : public World {
  RawWorld() {
    live_chunks = &live;
    rv::sim_chunk_observer = [](uint64_t key, int delta) {
      NoPreempt np;
      if (!live_chunks || (key >> 40) != 0xabcd) return;
      int& n = (*live_chunks)[key];
      n += delta;
      if (n == 0) live_chunks->erase(key);
    };
  }
  ~RawWorld() override {
    rv::sim_chunk_observer = nullptr;
    live_chunks = nullptr;
  }
  std::map<uint64_t, int> live;
  std::map<Conn*, StreamModel> models;
  std::set<uint64_t> chunk_keys;       // of all raw clients
  std::map<uint64_t, std::set<uint64_t>> chunks_of_item;
  std::set<std::string> starved;       // tables nobody inserts into
  bool exact = false;                  // no stalls
  uint64_t next_key = 0;
  int next_writer = 1000;

  std::string Prop() const { return async ? "V02" : "V01"; }
  void Violation(const std::string& what, const std::string& detail) {
    Violate(Prop(), what, detail);
  }
  static std::string Where(Conn* c) { return StrCat("stream ", c->id, ": "); }

  void ServerRead(Conn* c, const google::protobuf::Message& m) override {
    StreamModel& s = models[c];
    if (c->kind == kInsertConn) {
      auto& r = static_cast<const rv::InsertStreamRequest&>(m);
      auto bad = [&s](const std::string& why) {
        if (!s.bad) s.why = why;
        s.bad = true;
      };
      for (auto& d : r.chunks()) s.held.insert(d.chunk_key());
      if (r.has_item() && !s.bad) {
        const auto& item = r.item().item();
        std::set<uint64_t> keep(r.item().keep_chunk_keys().begin(),
                                r.item().keep_chunk_keys().end());
        for (uint64_t k : rv::internal::GetChunkKeys(item.flat_trajectory()))
          if (!s.held.count(k)) bad(StrCat("unknown chunk ", k));
        for (uint64_t k : keep)
          if (!s.held.count(k)) bad(StrCat("keeps unknown chunk ", k));
        if (item.flat_trajectory().columns().empty()) bad("no columns");
        for (auto& col : item.flat_trajectory().columns())
          if (col.chunk_slices().empty()) bad("empty column");
        ServerTable* t = Find(item.table());
        if (!t) {
          s.bad_table = !s.bad;
          bad("unknown table");
        } else if (InvalidPriority(t->spec, item.priority())) {
          bad("invalid priority");
        }
        s.held = keep;
        if (s.bad) Probe("bad-item-read");
      }
      if (s.bad) return;
      if (r.has_item()) s.last_item = r.item().item().key();
    }
    if (c->kind == kSampleConn) {
      auto& r = static_cast<const rv::SampleStreamRequest&>(m);
      s.requests++;
      s.request_at = NowNs();
      CheckSolo(r.table());
      active.insert(c);
      s.table = r.table();
      s.finite = r.has_rate_limiter_timeout() &&
                 r.rate_limiter_timeout().milliseconds() >= 0;
      s.timeout_ns = s.finite
                         ? r.rate_limiter_timeout().milliseconds() * 1000000
                         : 0;
      if (r.num_samples() <= 0 ||
          (r.flexible_batch_size() <= 0 &&
           r.flexible_batch_size() != rv::Sampler::kAutoSelectValue)) {
        s.bad = s.invalid = true;
        s.why = "arguments";
        Probe("bad-sample-request-read");
      } else if (!Find(r.table())) {
        s.bad = s.bad_table = true;
        s.why = "unknown table";
        Probe("bad-sample-request-read");
      } else {
        s.batch = r.flexible_batch_size() == rv::Sampler::kAutoSelectValue
                      ? Find(r.table())->table->DefaultFlexibleBatchSize()
                      : r.flexible_batch_size();
        s.requested += r.num_samples();
      }
    }
    World::ServerRead(c, m);
  }

  void ServerDone(Conn* c, const grpc::Status& st) override {
    StreamModel& s = models[c];
    SIM_LOG(StrCat("stream ", c->id, " ends with ", st.error_code(), " ",
                   st.error_message()));
    if (c->kind == kSampleConn) {
      active.erase(c);
      auto it = solo.find(s.table);
      if (it != solo.end()) {
        it->second.ended = active.empty();
        it->second.ops = Find(s.table)->ops.size();
        auto sent = sample_conns.find(c);
        if (sent == sample_conns.end() ||
            sent->second->server.complete < s.requested)
          it->second.allowed += s.batch;
      }
    }
    const bool lost = c->broken || c->cancelled || c->client_gone || stopping;
    if (!lost && c->kind != kInitConn) {
      if (s.bad) {
        if (st.ok())
          Violate(Prop(), "malformed-request-accepted",
                  StrCat(Where(c), "ends with OK although of a request with ",
                         s.why));
        else if (s.bad_table &&
                 st.error_code() != grpc::StatusCode::NOT_FOUND)
          Violate(Prop(), "wrong-error",
                  StrCat(Where(c), "an unknown table is answered with ",
                         st.error_code(), " ", st.error_message()));
        else if (s.invalid &&
                 st.error_code() != grpc::StatusCode::INVALID_ARGUMENT)
          Violate(Prop(), "wrong-error",
                  StrCat(Where(c), "an invalid request is answered with ",
                         st.error_code(), " ", st.error_message()));
      } else if (st.ok()) {
        if (!c->half_closed)
          Violate(Prop(), "stream-ended-early",
                  StrCat(Where(c), "the server ends it with OK while the "
                         "client may still send"));
      } else if (c->kind == kInsertConn) {
        Violate(Prop(), "insert-stream-failed",
                StrCat(Where(c), "ends with ", st.error_code(), " ",
                       st.error_message(), " although all is well"));
      } else if (s.requests == 0) {
        // The client sent nothing.
      } else if (st.error_code() != grpc::StatusCode::DEADLINE_EXCEEDED) {
        Violate(Prop(), "sample-stream-failed",
                StrCat(Where(c), "ends with ", st.error_code(), " ",
                       st.error_message(), " although all is well"));
      } else if (!s.finite) {
        Violate(Prop(), "timeout-without-timeout",
                StrCat(Where(c), "ends with ", st.error_message(),
                       " although the request does not expire"));
      } else if (NowNs() - s.request_at < s.timeout_ns) {
        Violate(Prop(), "timeout-too-early",
                StrCat(Where(c), "ends with ", st.error_message(), " after ",
                       NowNs() - s.request_at, " ns, the timeout is ",
                       s.timeout_ns, " ns"));
      } else {
        Probe("sample-request-expired");
      }
      if (c->kind == kSampleConn) {
        auto it = sample_conns.find(c);
        const int64_t sent =
            it == sample_conns.end() ? 0 : it->second->server.complete;
        const bool open = it != sample_conns.end() && it->second->server.open;
        // The callback server reads ahead of the samples it sends.
        if ((open && !(async && s.bad)) ||
            ((st.ok() || (s.bad && !async)) && sent != s.requested))
          Violate(Prop(), "wrong-number-of-samples",
                  StrCat(Where(c), "ends with ", st.error_code(), " after ",
                         sent, open ? ".5" : "", " of ", s.requested,
                         " requested samples"));
      }
    }
    // The last message may have arrived just after the stream ended.
    if (async && lost && s.last_item) exempt[s.last_item]++;
    World::ServerDone(c, st);
  }
  std::map<uint64_t, int> exempt;

  // Samples taken for a stream that ended are lost, so it takes none but those
  // it already asked its table for.
  struct Solo {
    int64_t ops = 0;           // when the last stream ended, if any
    int64_t allowed = 0;
    bool ended = false;
  };
  std::set<Conn*> active;              // sample streams with a request
  std::map<std::string, Solo> solo;    // tables that one client samples
  void CheckSolo(const std::string& table) {
    auto it = solo.find(table);
    if (it == solo.end() || !it->second.ended) return;
    const int64_t after = Find(table)->ops.size() - it->second.ops;
    if (after > it->second.allowed)
      Violation("samples-after-end",
                StrCat(after, " samples are taken from table ", table,
                       " although all streams have ended"));
    it->second.ended = false;
  }
  int max_batch = 8;
};

// A chunk that a stream may refer to.
struct HeldChunk {
  uint64_t key;
  int index;                 // of the tensor
  ColSpec spec;
  std::vector<Tensor> rows;
};

struct RawClient {
  RawWorld* w;
  int id = 0, stream = 0, node = 0;
  bool malformed = true;
  bool done = false;
  bool in_stream = false;
  int64_t since = 0;           // of the current wait without an own reason

  bool Bad(int permille = 60) {
    return malformed && Flip(stream, permille);
  }
  std::string AnyTable() {
    return w->tables[Choose(stream, w->tables.size())]->spec.name;
  }

  rv::ChunkData NewChunk(HeldChunk* h) {
    rv::ChunkData data;
    h->key = (uint64_t{0xabcd} << 40) + ++w->next_key;
    h->spec = RandomColSpec(stream);
    const int n = 1 + Choose(stream, 4);
    for (int i = 0; i < n; i++)
      h->rows.push_back(MakeCell(h->spec, (h->key << 4) + i));
    data.set_chunk_key(h->key);
    data.mutable_sequence_range()->set_episode_id(h->key);
    data.mutable_sequence_range()->set_end(n - 1);
    data.set_delta_encoded(Flip(stream, 300));
    h->index = Flip(stream, 250) ? 1 : 0;
    if (h->index) {
      Tensor other = Stack(std::vector<Tensor>(n, MakeCell(ColSpec(), h->key)));
      rv::CompressTensorAsProto(other, data.mutable_data()->add_tensors());
    }
    Tensor batch = Stack(h->rows);
    if (data.delta_encoded()) batch = rv::DeltaEncode(batch, true);
    rv::CompressTensorAsProto(batch, data.mutable_data()->add_tensors());
    w->chunk_keys.insert(h->key);
    return data;
  }

  static Conn* FindConn(grpc::ClientContext* ctx) {
    auto& all = Connections();
    for (size_t i = all.size(); i-- > 0;)
      if (all[i]->client_ctx == ctx) return all[i].get();
    return nullptr;
  }

  void InsertStream() {
    auto stub = w->Stub();
    auto ctx = std::make_unique<grpc::ClientContext>();
    auto s = stub->InsertStream(ctx.get());
    Conn* conn = FindConn(ctx.get());
    std::vector<HeldChunk> held;
    std::vector<rv::InsertStreamRequest> sent_items;
    bool broken = false;       // a malformed request was sent
    const int writer = w->next_writer++;
    int order = 0;
    const int read_pause_us = Flip(stream, 300) ? 1 + Choose(stream, 5000) : 0;
    SetNode(node);
    Fiber* reader = nullptr;
    auto* sp = s.get();
    const bool never_reads = Flip(stream, 100);
    if (!never_reads)
      reader = Spawn(StrCat("raw-reader", id), [this, sp, read_pause_us] {
        rv::InsertStreamResponse r;
        while (sp->Read(&r))
          if (read_pause_us) SleepNs(1000LL * read_pause_us);
      });
    const int n = Choose(stream, 12);
    bool over = false, canceller_done = true;
    if (never_reads || Flip(stream, 150))
      CancelLater(ctx.get(), &over, &canceller_done, never_reads);
    for (int i = 0; i < n; i++) {
      rv::InsertStreamRequest r;
      {
        NoPreempt np;
        if (Flip(stream, 20)) {
          // Nothing at all.
        } else if (!sent_items.empty() && !broken && Flip(stream, 60)) {
          r = sent_items[Choose(stream, sent_items.size())];   // again
          if (!CanSendAgain(r, held)) r.Clear();
          else Forget(r, &held);
        } else {
          const int nc = Weighted(stream, {3, 4, 2, 1});
          for (int k = 0; k < nc; k++) {
            HeldChunk h;
            *r.add_chunks() = NewChunk(&h);
            held.push_back(std::move(h));
          }
          if (!held.empty() && Flip(stream, 750)) {
            AddItem(&r, held, writer, order++, &broken);
            Forget(r, &held);
            if (!broken) sent_items.push_back(r);
          }
        }
        auto e = r.has_item() ? w->by_key.find(r.item().item().key())
                              : w->by_key.end();
        if (e != w->by_key.end()) {
          e->second->client_sends++;
          e->second->last_conn = conn->id;
        }
        SIM_LOG(StrCat("raw ", id, " sends ", r.chunks_size(), " chunks",
                       r.has_item() ? StrCat(" and item ",
                                             r.item().item().key(), " keep ",
                                             r.item().keep_chunk_keys_size())
                                    : "",
                       broken ? " (after or with something malformed)" : ""));
      }
      grpc::WriteOptions opt;
      if (!s->Write(r, opt)) break;
      if (Flip(stream, 200)) SleepNs(1000LL * Choose(stream, 3000));
    }
    const int end = Weighted(stream, {6, 2, 1});
    if (never_reads || end == 1) {
      if (Flip(stream, 500)) s->WritesDone();
      SleepNs(1000LL * Choose(stream, 2000));
      ctx->TryCancel();
      Probe("insert-stream-cancelled");
    } else {
      if (end == 2 && !broken) SleepNs(1000LL * Choose(stream, 20000));
      if (!broken || Flip(stream, 500)) s->WritesDone();
    }
    if (reader) Join(reader);
    grpc::Status st = s->Finish();
    over = true;
    while (!canceller_done) SleepNs(100000);
    NoPreempt np;
    SIM_LOG(StrCat("raw ", id, " insert stream -> ", st.error_code(), " ",
                   st.error_message()));
    if (broken && st.ok() && !conn->broken)
      w->Violation("malformed-request-accepted",
                   StrCat("stream ", conn->id, " with a malformed request "
                          "ends with OK"));
    if (broken && !st.ok()) Probe("malformed-insert-refused");
    if (!broken && st.ok()) Probe("raw-insert-stream-ok");
    s.reset();
    ctx.reset();
  }

  // Cancels the stream at some moment, for certain if `must`.
  void CancelLater(grpc::ClientContext* ctx, bool* over, bool* done,
                   bool must) {
    *done = false;
    const int64_t after = 1000LL * Choose(stream, must ? 20000 : 4000);
    Spawn(StrCat("raw-cancel", id), [ctx, over, done, after] {
      const int64_t until = NowNs() + after;
      while (NowNs() < until && !*over) SleepNs(after / 4 + 1000);
      if (!*over) {
        Probe("cancelled-anywhere");
        ctx->TryCancel();
      }
      *done = true;
    });
  }

  static bool CanSendAgain(const rv::InsertStreamRequest& r,
                           const std::vector<HeldChunk>& held) {
    std::set<uint64_t> have;
    for (auto& h : held) have.insert(h.key);
    for (auto& d : r.chunks()) have.insert(d.chunk_key());
    for (uint64_t k :
         rv::internal::GetChunkKeys(r.item().item().flat_trajectory()))
      if (!have.count(k)) return false;
    for (uint64_t k : r.item().keep_chunk_keys())
      if (!have.count(k)) return false;
    return true;
  }

  static void Forget(const rv::InsertStreamRequest& r,
                     std::vector<HeldChunk>* held) {
    std::set<uint64_t> keep(r.item().keep_chunk_keys().begin(),
                            r.item().keep_chunk_keys().end());
    held->erase(std::remove_if(held->begin(), held->end(),
                               [&](const HeldChunk& h) {
                                 return !keep.count(h.key);
                               }),
                held->end());
  }

  void AddItem(rv::InsertStreamRequest* r, const std::vector<HeldChunk>& held,
               int writer, int order, bool* broken) {
    ServerTable* t = w->tables[Choose(stream, w->tables.size())].get();
    for (int i = 0; i < 8 && w->starved.count(t->spec.name); i++)
      t = w->tables[Choose(stream, w->tables.size())].get();
    if (w->starved.count(t->spec.name)) return;
    Expected* e = w->NewItem(writer, t->spec.name);
    e->order = order;
    e->key = (uint64_t{0xbeef} << 40) + ++w->next_key;
    w->by_key[e->key] = e;
    auto* item = r->mutable_item();
    item->set_send_confirmation(Flip(stream, 700));
    auto* p = item->mutable_item();
    p->set_key(e->key);
    p->set_table(t->spec.name);
    p->set_priority(e->priority);
    const int ncols = 1 + Choose(stream, 3);
    for (int c = 0; c < ncols; c++) {
      auto* col = p->mutable_flat_trajectory()->add_columns();
      ColumnExp exp;
      const HeldChunk& first = held[Choose(stream, held.size())];
      std::vector<const HeldChunk*> parts = {&first};
      for (auto& h : held)
        if (&h != &first && h.spec.dtype == first.spec.dtype &&
            h.spec.shape == first.spec.shape && Flip(stream, 500))
          parts.push_back(&h);
      for (auto* h : parts) {
        auto* slice = col->add_chunk_slices();
        const int off = Choose(stream, h->rows.size());
        const int len = 1 + Choose(stream, h->rows.size() - off);
        slice->set_chunk_key(h->key);
        slice->set_offset(off);
        slice->set_length(len);
        slice->set_index(h->index);
        for (int i = off; i < off + len; i++) exp.rows.push_back({h->rows[i]});
      }
      if (exp.rows.size() == 1 && Flip(stream, 300)) {
        exp.squeeze = true;
        col->set_squeeze(true);
      }
      e->cols.push_back(std::move(exp));
    }
    for (auto& h : held)
      if (Flip(stream, 600)) item->add_keep_chunk_keys(h.key);
    if (item->keep_chunk_keys_size() && Flip(stream, 50))
      item->add_keep_chunk_keys(item->keep_chunk_keys(0));
    if (!*broken && Bad(80)) {
      const uint64_t unknown = (uint64_t{0xdead} << 40) + Choose(stream, 100);
      const int kind = Choose(stream, 6);
      switch (kind) {
        case 0: {
          auto* cols = p->mutable_flat_trajectory();
          cols->mutable_columns(Choose(stream, ncols))
              ->mutable_chunk_slices(0)
              ->set_chunk_key(unknown);
          break;
        }
        case 1:
          p->set_table("nowhere");
          break;
        case 2:
          item->add_keep_chunk_keys(unknown);
          break;
        case 3:
          p->mutable_flat_trajectory()->clear_columns();
          break;
        case 4:
          p->mutable_flat_trajectory()
              ->mutable_columns(Choose(stream, ncols))
              ->clear_chunk_slices();
          break;
        case 5:
          if (InvalidPriority(t->spec, -1)) p->set_priority(-1);
          break;
      }
      *broken = kind != 5 || p->priority() == -1;
    }
    if (*broken) e->must_not_arrive = true;
    if (!*broken)
      for (uint64_t k : rv::internal::GetChunkKeys(p->flat_trajectory()))
        w->chunks_of_item[e->key].insert(k);
  }

  void SampleStream() {
    auto stub = w->Stub();
    auto ctx = std::make_unique<grpc::ClientContext>();
    auto s = stub->SampleStream(ctx.get());
    Conn* conn = FindConn(ctx.get());
    auto* sp = s.get();
    const int read_pause_us = Flip(stream, 300) ? 1 + Choose(stream, 5000) : 0;
    const int stop_after = Flip(stream, 150) ? Choose(stream, 5) : -1;
    bool broken = false, forever = false;
    SetNode(node);
    Fiber* reader =
        Spawn(StrCat("raw-reader", id), [sp, read_pause_us, stop_after] {
          rv::SampleStreamResponse r;
          for (int i = 0; i != stop_after && sp->Read(&r); i++)
            if (read_pause_us) SleepNs(1000LL * read_pause_us);
        });
    const int n = Choose(stream, 4);
    bool over = false, canceller_done = true;
    const bool must = stop_after >= 0 || !w->starved.empty();
    if (must || Flip(stream, 150))
      CancelLater(ctx.get(), &over, &canceller_done, must);
    for (int i = 0; i < n; i++) {
      rv::SampleStreamRequest r;
      {
        NoPreempt np;
        std::string table = AnyTable();
        r.set_num_samples(1 + Choose(stream, 12));
        r.set_flexible_batch_size(
            Flip(stream, 300) ? rv::Sampler::kAutoSelectValue
                              : 1 + Choose(stream, w->max_batch));
        switch (Choose(stream, 4)) {
          case 0:
            break;
          case 1:
            r.mutable_rate_limiter_timeout()->set_milliseconds(-1);
            break;
          default:
            r.mutable_rate_limiter_timeout()->set_milliseconds(
                Choose(stream, 30));
        }
        if (!broken && Bad(100)) {
          broken = true;
          switch (Choose(stream, 4)) {
            case 0: r.set_num_samples(0); break;
            case 1: r.set_num_samples(-3); break;
            case 2:
              r.set_flexible_batch_size(Flip(stream, 500) ? 0 : -2 -
                                        static_cast<int>(Choose(stream, 5)));
              break;
            case 3: table = "nowhere"; break;
          }
        }
        r.set_table(table);
        if (w->starved.count(table) &&
            (!r.has_rate_limiter_timeout() ||
             r.rate_limiter_timeout().milliseconds() < 0))
          forever = true;
        SIM_LOG(StrCat("raw ", id, " requests ", r.ShortDebugString()));
      }
      if (!s->Write(r, grpc::WriteOptions())) break;
      if (Flip(stream, 300)) SleepNs(1000LL * Choose(stream, 10000));
    }
    const int end = Weighted(stream, {6, 2});
    if (end == 1 || stop_after >= 0 || (forever && Flip(stream, 500))) {
      if (Flip(stream, 500)) s->WritesDone();
      SleepNs(1000LL * Choose(stream, 20000));
      ctx->TryCancel();
      Probe("sample-stream-cancelled");
    } else {
      s->WritesDone();
      if (forever) {
        // It waits for what never comes.
        SleepNs(1000LL * Choose(stream, 50000));
        ctx->TryCancel();
        Probe("waiting-sample-stream-cancelled");
      }
    }
    Join(reader);
    grpc::Status st = s->Finish();
    over = true;
    while (!canceller_done) SleepNs(100000);
    NoPreempt np;
    SIM_LOG(StrCat("raw ", id, " sample stream -> ", st.error_code(), " ",
                   st.error_message()));
    if (broken && !st.ok()) Probe("malformed-sample-refused");
    if (!broken && st.ok() && n) Probe("raw-sample-stream-ok");
    (void)conn;
    s.reset();
    ctx.reset();
  }

  void InitStream() {
    auto stub = w->Stub();
    auto ctx = std::make_unique<grpc::ClientContext>();
    auto s = stub->InitializeConnection(ctx.get());
    Conn* conn = FindConn(ctx.get());
    rv::InitializeConnectionRequest r;
    rv::InitializeConnectionResponse resp;
    bool mine = !Flip(stream, 200);
    const bool known = !Flip(stream, 200),
               confirm = !Flip(stream, 200), first = !Flip(stream, 100),
               second = !Flip(stream, 150), cancel = Flip(stream, 150),
               early = Flip(stream, 500);
    const bool local = conn->same_machine;
    r.set_pid(mine ? getpid() : getpid() + 1);
    mine = r.pid() == 1000 + w->ep.node;
    ServerTable* t = w->tables[Choose(stream, w->tables.size())].get();
    r.set_table_name(known ? t->spec.name : "nowhere");
    bool ok = true;
    std::shared_ptr<rv::Table> got;
    int64_t address = 0;
    if (first) {
      ok = s->Write(r, grpc::WriteOptions());
      if (cancel && early) ctx->TryCancel();
      if (ok) ok = s->Read(&resp);
      if (ok) {
        NoPreempt np;
        address = resp.address();
        const bool want = local && mine && known;
        if ((address != 0) != want && !(conn->broken || conn->cancelled))
          w->Violation("wrong-address",
                       StrCat("stream ", conn->id, ": address ", address != 0,
                              " instead of ", want));
        // Whoever gets an address can use it until it answers.
        if (address && !conn->broken && !conn->cancelled) {
          if (!conn->ServerDead() && !conn->server_done)
            got = *reinterpret_cast<std::shared_ptr<rv::Table>*>(address);
          if (got && got != t->table)
            w->Violation("wrong-table-handed-over",
                         StrCat("stream ", conn->id, ": not table ",
                                t->spec.name));
          got.reset();
        }
      }
      if (ok && second) {
        rv::InitializeConnectionRequest r2;
        r2.set_pid(getpid());
        r2.set_table_name(t->spec.name);
        r2.set_ownership_transferred(confirm);
        s->Write(r2, grpc::WriteOptions());
      }
    }
    if (cancel) ctx->TryCancel();
    s->WritesDone();
    grpc::Status st = s->Finish();
    NoPreempt np;
    SIM_LOG(StrCat("raw ", id, " init stream -> ", st.error_code(), " ",
                   st.error_message()));
    if (conn->broken || conn->cancelled || conn->refused || w->stopping) return;
    const bool want_ok = !local || (first && (!mine || (known && second &&
                                                        confirm)));
    if (st.ok() != want_ok)
      w->Violation("wrong-init-status",
                   StrCat("stream ", conn->id, " ends with ", st.error_code(),
                          " ", st.error_message(), ", local ", local, " mine ",
                          mine, " known ", known, " confirmed ", confirm,
                          " messages ", int{first} + int{second}));
    if (!known && mine && first && local &&
        st.error_code() != grpc::StatusCode::NOT_FOUND)
      w->Violation("wrong-init-status",
                   StrCat("stream ", conn->id, ": unknown table is answered "
                          "with ", st.error_code()));
    Probe(st.ok() ? "init-ok" : "init-refused");
  }

  void Run(int n) {
    for (int i = 0; i < n && !w->stopping; i++) {
      since = NowNs();
      in_stream = true;
      switch (Weighted(stream, {5, 4, 1})) {
        case 0: InsertStream(); break;
        case 1: SampleStream(); break;
        case 2: InitStream(); break;
      }
      in_stream = false;
      if (Flip(stream, 200)) SleepNs(1000LL * Choose(stream, 20000));
    }
    done = true;
  }
};

// Whether all insert streams ended at the server.
bool WaitHandlersOfStreams(RawWorld* w) {
  const int64_t until = NowNs() + 20 * kSecond;
  for (;;) {
    bool open = false;
    {
      NoPreempt np;
      for (auto& c : Connections())
        if (c->kind == kInsertConn && !c->refused &&
            !(w->async ? c->callback_done : c->server_done))
          open = true;
    }
    if (!open) break;
    if (NowNs() > until) {
      w->Violation("stream-hangs",
                   StrCat("an insert stream has not ended at the server "
                          "although its client left: ", BlockedFibers()));
      return false;
    }
    SleepNs(1000000);
  }
  // The callbacks' last references.
  SleepNs(100000000);
  return true;
}

void RunRaw() {
  SetHangProps("V01,V02");
  const bool stalls = Flip(kCfg, 150);
  RandomSchedule(stalls, false);
  Config().max_stall_ns = 2000000000;
  const bool faults = Flip(kCfg, 400);
  RandomNet(faults);
  RawWorld w;
  w.ep.node = 1;
  w.exact = !stalls;
  w.writer_props = "V01,V02";
  w.unknown_items_ok = true;
  const int nt = 1 + Choose(kCfg, 3);
  const bool open = Flip(kCfg, 500);
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = Flip(kCfg, 300) ? 3 + Choose(kCfg, 5) : 1000;
    s.max_times = Flip(kCfg, 300) ? 1 + Choose(kCfg, 3) : 0;
    s.limiter = open ? OpenLimiter() : LiveLimiter();
    if (i > 0 && Flip(kCfg, 400)) w.starved.insert(s.name);
    w.AddTable(s, false, false);
  }
  w.Start(Flip(kCfg, 500));
  w.writer_props = w.Prop();
  SetHangProps(w.Prop());
  bool feeding = true;
  std::vector<Fiber*> fs, feeders;
  const int pause_us = 1 + Choose(kCfg, 3000);
  SetNode(w.ep.node);
  for (int i = 0; i < nt; i++) {
    ServerTable* t = w.tables[i].get();
    if (w.starved.count(t->spec.name)) continue;
    const int stream = kWork + 20 + i;
    feeders.push_back(Spawn(StrCat("feeder", i), [&, t, stream, i, pause_us] {
      int count = 0;
      while (feeding) {
        count++;
        w.Feed(t, stream, 100 + i, false, absl::Milliseconds(50));
        SleepNs(1000LL * (1 + Choose(stream, pause_us)) +
                (count < 30 ? 0 : 20000000));
      }
    }));
  }
  const int n = 1 + Choose(kCfg, 3);
  const bool drain = !open || n > 1 || Flip(kCfg, 200);
  if (drain)
    w.StartDrain();
  else
    for (auto& t : w.tables) w.solo[t->spec.name];
  EnableMemPreemption();
  std::vector<std::unique_ptr<RawClient>> cs;
  const bool malformed = Flip(kCfg, 700);
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<RawClient>();
    c->w = &w;
    c->id = i;
    c->stream = kWork + 1 + i;
    c->malformed = malformed;
    c->node = Flip(kCfg, 400) ? 1 : 10 + i;
    RawClient* p = c.get();
    cs.push_back(std::move(c));
    SetNode(p->node);
    const int rounds = 1 + Choose(kCfg, 6);
    fs.push_back(Spawn(StrCat("raw", i), [p, rounds] { p->Run(rounds); }));
  }
  SetNode(1);
  const int rounds = Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    SleepNs(1000000LL * (1 + Choose(kWork, 40)));
    if (faults && Flip(kWork, 400)) BreakSome(kNet);
  }
  for (auto& c : cs) {
    const int64_t until = NowNs() + 2 * kSecond;
    while (!c->done && NowNs() < until) SleepNs(1000000);
  }
  StopNetFaults();
  StopStalls();
  const int64_t healed = NowNs();
  for (int i = 0; i < n; i++) {
    while (!Done(fs[i])) {
      SleepNs(5000000);
      if (NowNs() - std::max(healed, cs[i]->since) > 20 * kSecond) break;
    }
    if (!Done(fs[i])) {
      Violate(w.Prop(), "stream-hangs",
              StrCat("a stream of client ", i, " has not ended long after the "
                     "last fault: ", BlockedFibers()));
      EndRun();
    }
  }
  // Items of streams that ended are in the tables, each received item once.
  const int64_t until = NowNs() + 20 * kSecond;
  const Expected* missing = nullptr;
  while (NowNs() < until) {
    missing = nullptr;
    {
      NoPreempt np;
      for (auto& e : w.items)
        if (!e->must_not_arrive && e->writer >= 1000 &&
            e->inserts + e->updates + w.exempt[e->key] < e->server_reads)
          missing = e.get();
    }
    if (!missing) break;
    SleepNs(2000000);
  }
  if (missing)
    Violate(w.Prop(), "received-item-lost",
            StrCat("item ", missing->key, " of stream ", missing->last_conn,
                   " was received ", missing->server_reads,
                   " times but inserted ", missing->inserts,
                   " times and updated ", missing->updates, " times"));
  for (auto& [name, solo] : w.solo) w.CheckSolo(name);
  // What no item ever used is gone with its stream.
  if (WaitHandlersOfStreams(&w)) {
    NoPreempt np;
    std::set<uint64_t> used;
    for (auto& e : w.items)
      if (e->server_reads)
        for (uint64_t k : w.chunks_of_item[e->key]) used.insert(k);
    for (auto& [k, count] : w.live)
      if (!used.count(k)) {
        w.Violation("chunk-of-ended-stream-kept",
                    StrCat("chunk ", k, " of a stream that ended is still in "
                           "memory although no item uses it"));
        break;
      }
    Probe("chunks-checked");
    if (!w.live.empty()) Probe("chunks-in-use");
  }
  feeding = false;
  for (Fiber* f : feeders) Join(f);
  if (drain) w.StopDrain();
  DisableMemPreemption();
  w.Stop();
  if (!w.live.empty())
    w.Violation("chunk-leaked",
                StrCat("chunk ", w.live.begin()->first,
                       " is still in memory after the end of the server"));
}
}  // namespace

SCENARIO(raw) { RunRaw(); }

}  // namespace harness

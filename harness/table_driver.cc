#include "harness/table_driver.h"

#include <cmath>

#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "reverb/cc/errors.h"

namespace harness {
using absl::StrCat;
using namespace reverbsim;

double RandomPriority(int stream, const TableSpec* spec) {
  if (spec && InvalidPriority(*spec, -1) && Flip(stream, 40))
    return Flip(stream, 300)                               ? std::nan("")
           : InvalidPriority(*spec, INFINITY) && Flip(stream, 300) ? INFINITY
                                                                   : -1;
  static const double p[] = {1, 2, 0, 0.5, 3, 1, 7, 2};
  return p[Choose(stream, 8)];
}
absl::Duration RandomTimeout(int stream) {
  switch (Weighted(stream, {6, 2, 3, 3, 2})) {
    case 0: return absl::InfiniteDuration();
    case 1: return absl::ZeroDuration();
    case 2: return absl::Milliseconds(1 + Choose(stream, 5));
    case 3: return absl::Milliseconds(10 * (1 + Choose(stream, 10)));
    default: return absl::Microseconds(1 + Choose(stream, 50));
  }
}
std::string DurStr(absl::Duration d) { return absl::FormatDuration(d); }

ReadWatch::ReadWatch(TableOracle* o,
                     std::function<std::string(const MState&)> digest)
    : o_(o) {
  NoPreempt np;
  seen_.push_back(digest(o->state()));
  obs_.fn = [this, o, digest](bool same) {
    std::string d = digest(o->state());
    if (same && seen_.size() > 1)
      seen_.back() = d;
    else
      seen_.push_back(d);
  };
  o->AddObserver(&obs_);
}
ReadWatch::~ReadWatch() { o_->RemoveObserver(&obs_); }
bool ReadWatch::Saw(const std::string& v) const {
  NoPreempt np;
  for (auto& s : seen_)
    if (s == v) return true;
  return false;
}
std::string ReadWatch::Seen() const { return absl::StrJoin(seen_, " | "); }

namespace {
bool IsTimeout(const absl::Status& s) {
  return rv::errors::IsRateLimiterTimeout(s);
}
}  // namespace

static void CheckFailure(TableDriver* d, const OpCtx& op,
                         const absl::Status& st, absl::Duration timeout,
                         const char* what) {
  const int64_t dur = NowNs() - op.invoke_ns;
  if (!op.events.empty())
    Violate("T03,T06", "failed-call-has-effect",
            StrCat(what, " failed with ", st.ToString(), " but caused ",
                   Str(op.events[0])));
  if (IsTimeout(st)) {
    if (timeout == absl::InfiniteDuration()) {
      Violate("T03", "timeout-without-deadline",
              StrCat(what, " without timeout ended with ", st.ToString()));
    } else if (WallClockJumped()) {
      // Deadlines of tables are points in time of the wall clock.
    } else if (absl::Nanoseconds(dur) < timeout) {
      Violate("T03", "early-timeout",
              StrCat(what, " with timeout ", DurStr(timeout),
                     " timed out after ", dur, "ns"));
    } else if (d->exact && absl::Nanoseconds(dur) >
                               std::max(timeout, absl::ZeroDuration())) {
      Violate("T03", "late-timeout",
              StrCat(what, " with timeout ", DurStr(timeout),
                     " timed out only after ", dur, "ns"));
    }
    if (!op.denied)
      Violate("T03", "timeout-though-allowed",
              StrCat(what, " timed out although the limiter allowed it all "
                           "the time"));
    Probe("timeout");
  } else if (st.code() == absl::StatusCode::kCancelled) {
    if (!d->close_started)
      Violate("T03", "cancelled-without-close",
              StrCat(what, " ended with ", st.ToString(),
                     " although nobody closed the table"));
    Probe("cancelled");
  } else if (op.invalid && st.code() == absl::StatusCode::kInvalidArgument) {
    Probe("invalid-priority-refused");
  } else {
    Violate("T03,T06", "unexpected-status",
            StrCat(what, " ended with ", st.ToString()));
  }
}

void TableDriver::Insert(Key key, double priority, int episode, int nchunks,
                         absl::Duration timeout) {
  std::vector<std::shared_ptr<rv::ChunkStore::Chunk>> chunks;
  if (chunk_source) chunks = chunk_source(kWork, nchunks, episode);
  for (int i = 0; i < nchunks && !chunk_source; i++) {
    chunks.push_back(MakeChunk(next_chunk++, episode + i));
    all_chunks.push_back(chunks.back());
  }
  rv::TableItem item = MakeItem(spec.name, key, priority, chunks);
  chunks.clear();
  OpCtx op{OpCtx::kInsert};
  op.key = key;
  op.priority = priority;
  if (chunk_source && Flip(kWork, 300)) {
    // Only some of the first and of the last chunk's rows.
    auto* slices = item.item.mutable_flat_trajectory()
                       ->mutable_columns(0)
                       ->mutable_chunk_slices();
    if (!slices->empty()) {
      auto* a = slices->Mutable(0);
      const int skip = Choose(kWork, a->length());
      a->set_offset(skip);
      a->set_length(a->length() - skip);
      auto* z = slices->Mutable(slices->size() - 1);
      z->set_length(z->length() - Choose(kWork, z->length()));
    }
  }
  const bool malformed = Malform(kWork, &item);
  op.invalid = malformed || InvalidPriority(spec, priority);
  SIM_LOG(StrCat("insert key=", key, " priority=", priority,
               " timeout=", DurStr(timeout)));
  oracle->Begin(&op);
  const int64_t wall = WallNs();
  absl::Status st = table->InsertOrAssign(std::move(item), timeout);
  oracle->End(&op);
  const int64_t dur = NowNs() - op.invoke_ns;
  SIM_LOG(StrCat("insert key=", key, " -> ", st.ToString()));
  bool went = true;
  if (st.ok() && malformed)
    Violate("T06", "malformed-item-accepted",
            "an insert whose chunks do not match its trajectory returned OK");
  else if (st.ok() && op.invalid)
    Violate("T06", "invalid-priority-accepted",
            StrCat("an insert with priority ", priority, " returned OK"));
  if (st.ok()) {
    int n = 0;
    bool update = false;
    for (auto& e : op.events) {
      if (e.type == kEvInsert || e.type == kEvUpdate) n++;
      update |= e.type == kEvUpdate;
    }
    if (n != 1)
      Violate("T06,T08", "insert-without-effect",
              StrCat("insert of key ", key, " returned OK with ", n,
                     " effects"));
    if (update) {
      went = exact && dur > 0;
      Probe("insert-became-update");
    }
    if (dur > 0 && exact) Probe("insert-waited");
  } else {
    CheckFailure(this, op, st, timeout, "an insert");
    if (st.code() == absl::StatusCode::kInvalidArgument)
      went = exact && dur > 0;
  }
  if (went)
    ins.completed_min++;
  else
    ins.completed_maybe++;
  if (dur > 0) ins.limited++;
  ins.wait_ns += dur;
  ins.waits.insert({wall, dur});
}

void TableDriver::Sample(int batch, absl::Duration timeout) {
  OpCtx op{OpCtx::kSample};
  op.batch = batch;
  SIM_LOG(StrCat("sample batch=", batch, " timeout=", DurStr(timeout)));
  oracle->Begin(&op);
  const int64_t wall = WallNs();
  absl::Status st;
  std::vector<rv::Table::SampledItem> items;
  if (batch == 1 && Flip(kCfg, 0)) {
    items.resize(1);
    st = table->Sample(&items[0], timeout);
  } else {
    st = table->SampleFlexibleBatch(&items, batch, timeout);
  }
  oracle->End(&op);
  const int64_t dur = NowNs() - op.invoke_ns;
  SIM_LOG(StrCat("sample -> ", st.ToString(), " ", items.size(), " items"));
  if (st.ok()) {
    std::vector<Ev> samples;
    for (auto& e : op.events)
      if (e.type == kEvSample) samples.push_back(e);
    if (items.size() != samples.size() || items.empty() ||
        static_cast<int>(items.size()) > batch) {
      Violate("T06,T05", "wrong-sample-count",
              StrCat("a call for up to ", batch, " samples returned ",
                     items.size(), ", the table performed ", samples.size()));
    } else {
      for (size_t i = 0; i < items.size(); i++) {
        CheckSampled(oracle.get(), items[i], samples[i]);
        if (exact && items[i].rate_limited && dur == 0 && !op.denied)
          Violate("T07", "wrong-rate-limited",
                  "a sample that never had to wait is marked rate limited");
        if (exact && !items[i].rate_limited && dur > 0)
          Violate("T07", "wrong-rate-limited",
                  "a sample that had to wait is not marked rate limited");
      }
    }
    smp.completed_min += samples.size();
    if (dur > 0 && exact) Probe("sample-waited");
  } else {
    if (!items.empty())
      Violate("T03,T06", "failed-call-has-effect", "a failed sample returns items");
    CheckFailure(this, op, st, timeout, "a sample");
    smp.completed_min++;
  }
  if (dur > 0) smp.limited++;
  smp.wait_ns += dur;
  smp.waits.insert({wall, dur});
  // The further samples of a batch did not wait.
  if (items.size() > 1) smp.waits.insert({WallNs(), 0});
}

void TableDriver::Mutate(std::vector<std::pair<Key, double>> updates,
                         std::vector<Key> deletes) {
  OpCtx op{OpCtx::kMutate};
  op.updates = updates;
  op.deletes = deletes;
  std::vector<rv::KeyWithPriority> u;
  for (auto& [k, p] : updates) {
    op.invalid |= InvalidPriority(spec, p);
    // May be refused as a whole.
    if (op.invalid) op.could_be_noop = true;
    u.emplace_back();
    u.back().set_key(k);
    u.back().set_priority(p);
  }
  SIM_LOG(StrCat("mutate updates=", u.size(),
               u.empty() ? "" : StrCat(" first ", u[0].key()), " deletes=",
               absl::StrJoin(deletes, " ")));
  oracle->Begin(&op);
  absl::Status st = table->MutateItems(u, deletes);
  oracle->End(&op);
  if (op.invalid && !op.events.empty())
    Violate("T06,T03", "invalid-priority-accepted",
            StrCat("a mutation with an invalid priority ended with ",
                   st.ToString(), " and ", op.events.size(), " effects"));
  if (!st.ok() &&
      !(op.invalid && st.code() == absl::StatusCode::kInvalidArgument))
    Violate("T06", "unexpected-status",
            StrCat("a mutation ended with ", st.ToString()));
}

void TableDriver::Reset() {
  OpCtx op{OpCtx::kReset};
  Log("reset");
  oracle->Begin(&op);
  absl::Status st = table->Reset();
  oracle->End(&op);
  if (!st.ok() || op.events.size() != 1)
    Violate("T06,T08", "reset-failed",
            StrCat("a reset ended with ", st.ToString(), " and ",
                   op.events.size(), " notifications"));
}

void TableDriver::Close() {
  Log("close");
  close_started = true;
  table->Close();
  closed = true;
}

void TableDriver::ReadSize() {
  ReadWatch w(oracle.get(),
              [](const MState& m) { return StrCat(m.items.size()); });
  std::string v = StrCat(table->size());
  if (!w.Saw(v))
    Violate("T07,T06,T04", "wrong-size",
            StrCat("size() returned ", v, ", during the call it was ",
                   w.Seen()));
}
void TableDriver::ReadEpisodes() {
  {
    ReadWatch w(oracle.get(),
                [](const MState& m) { return StrCat(m.episodes.size()); });
    std::string v = StrCat(table->num_episodes());
    if (!w.Saw(v))
      Violate("T07", "wrong-num-episodes",
              StrCat("num_episodes() returned ", v, ", during the call it was ",
                     w.Seen()));
  }
  ReadWatch w(oracle.get(),
              [](const MState& m) { return StrCat(m.deleted_episodes); });
  std::string v = StrCat(table->num_deleted_episodes());
  if (!w.Saw(v))
    Violate("T07", "wrong-num-deleted-episodes",
            StrCat("num_deleted_episodes() returned ", v,
                   ", during the call it was ", w.Seen()));
}
void TableDriver::ReadInfo() {
  ReadWatch w(oracle.get(), [](const MState& m) {
    return StrCat(m.items.size(), "/", m.episodes.size(), "/",
                  m.deleted_episodes, "/", m.unique);
  });
  rv::TableInfo info = table->info();
  std::string v =
      StrCat(info.current_size(), "/", info.num_episodes(), "/",
             info.num_deleted_episodes(), "/", info.num_unique_samples());
  if (!w.Saw(v))
    Violate("T07", "wrong-info",
            StrCat("info() returned size/episodes/deleted/unique ", v,
                   ", during the call they were ", w.Seen()));
  if (info.max_size() != spec.max_size ||
      info.max_times_sampled() != spec.max_times || info.name() != spec.name)
    Violate("T07", "wrong-info", "info() reports another configuration");
  if (info.current_size() > spec.max_size)
    Violate("T04,T06", "over-capacity", StrCat("size ", info.current_size()));
}
static std::string ItemDigest(double priority, int times,
                              const std::string& traj) {
  return StrCat(priority, "/", times, "/", traj);
}
void TableDriver::ReadGet(Key key) {
  ReadWatch w(oracle.get(), [key](const MState& m) -> std::string {
    auto it = m.items.find(key);
    if (it == m.items.end()) return "none";
    return ItemDigest(it->second.priority, it->second.times,
                      it->second.trajectory);
  });
  rv::TableItem item;
  std::string v = "none";
  if (table->Get(key, &item)) {
    v = ItemDigest(item.item.priority(), item.item.times_sampled(),
                   item.item.flat_trajectory().SerializeAsString());
  }
  if (!w.Saw(v))
    Violate("T06", "wrong-get",
            StrCat("Get(", key, ") returned a state (",
                   v == "none" ? "none" : "item",
                   ") that the table did not have during the call"));
}
void TableDriver::ReadCopy(size_t n) {
  auto digest = [](const std::map<Key, std::string>& items) {
    std::string s;
    for (auto& [k, d] : items) absl::StrAppend(&s, k, ":", d, ";");
    return s;
  };
  if (n == 0) {
    ReadWatch w(oracle.get(), [digest](const MState& m) {
      std::map<Key, std::string> d;
      for (auto& [k, x] : m.items)
        d[k] = ItemDigest(x.priority, x.times, x.trajectory);
      return digest(d);
    });
    auto items = table->Copy();
    std::map<Key, std::string> d;
    for (auto& i : items)
      d[i.item.key()] =
          ItemDigest(i.item.priority(), i.item.times_sampled(),
                     i.item.flat_trajectory().SerializeAsString());
    if (d.size() != items.size() || !w.Saw(digest(d)))
      Violate("T06", "wrong-copy",
              "Copy() returned a content the table did not have during the "
              "call");
  } else {
    ReadWatch w(oracle.get(), [n](const MState& m) {
      return StrCat(std::min<size_t>(n, m.items.size()));
    });
    auto items = table->Copy(n);
    if (!w.Saw(StrCat(items.size())))
      Violate("T06", "wrong-copy",
              StrCat("Copy(", n, ") returned ", items.size(), " items"));
  }
}
void TableDriver::ReadCan(int n, bool sample) {
  TableOracle* o = oracle.get();
  ReadWatch w(o, [o, n, sample](const MState&) {
    return StrCat(sample ? o->CanSample(n) : o->CanInsert(n));
  });
  bool v = sample ? table->CanSample(n) : table->CanInsert(n);
  if (!w.Saw(StrCat(v)))
    Violate("T01", "wrong-can",
            StrCat(sample ? "CanSample(" : "CanInsert(", n, ") returned ", v));
}
void TableDriver::ReadCheckpoint() {
  auto digest = [](const std::vector<std::string>& items, int64_t i, int64_t s,
                   int64_t d, int64_t u, int64_t de) {
    return StrCat(absl::StrJoin(items, ";"), "#", i, "/", s, "/", d, "/", u,
                  "/", de);
  };
  ReadWatch w(oracle.get(), [digest](const MState& m) {
    std::vector<std::pair<uint64_t, std::string>> order;
    for (auto& [k, x] : m.items)
      order.push_back({x.insert_seq,
                       StrCat(k, ":", ItemDigest(x.priority, x.times,
                                                 x.trajectory))});
    std::sort(order.begin(), order.end());
    std::vector<std::string> d;
    for (auto& [s, x] : order) d.push_back(x);
    std::sort(d.begin(), d.end());
    return digest(d, m.inserts, m.samples, m.deletes, m.unique,
                  m.deleted_episodes);
  });
  auto cp = table->Checkpoint();
  std::vector<std::string> d;
  std::set<Key> need, have;
  for (auto& i : cp.checkpoint.items()) {
    d.push_back(StrCat(i.key(), ":",
                       ItemDigest(i.priority(), i.times_sampled(),
                                  i.flat_trajectory().SerializeAsString())));
    for (auto& c : i.flat_trajectory().columns())
      for (auto& s : c.chunk_slices()) need.insert(s.chunk_key());
  }
  std::sort(d.begin(), d.end());
  for (auto& c : cp.chunks) have.insert(c->key());
  if (need != have)
    Violate("K05,K01", "checkpoint-chunks",
            "a checkpoint's chunks are not those of its items");
  auto& rl = cp.checkpoint.rate_limiter();
  std::string v = digest(d, rl.insert_count(), rl.sample_count(),
                         rl.delete_count(), cp.checkpoint.num_unique_samples(),
                         cp.checkpoint.num_deleted_episodes());
  if (!w.Saw(v))
    Violate("K05", "checkpoint-not-a-cut",
            StrCat("a checkpoint shows a state the table did not pass through "
                   "during the call: ", v.substr(v.find('#')), " with ",
                   d.size(), " items"));
}

void TableDriver::CheckQuiescent() {
  int blocked_inserts = 0, blocked_samples = 0;
  std::string who;
  for (const OpCtx* op : oracle->open()) {
    if (op->kind == OpCtx::kInsert) blocked_inserts++;
    if (op->kind == OpCtx::kSample) blocked_samples++;
    if (op->kind == OpCtx::kMutate || op->kind == OpCtx::kReset)
      Violate("T02,T08", "stuck-call",
              "a mutation or reset is blocked although nothing else runs: " +
                  BlockedFibers());
  }
  const MState& m = oracle->state();
  auto state = [&] {
    return StrCat("inserts ", m.inserts, " samples ", m.samples, " deletes ",
                  m.deletes, "; ", SpecString(spec), "; blocked: ",
                  BlockedFibers());
  };
  if (closed && blocked_inserts + blocked_samples > 0)
    Violate("T03", "blocked-after-close",
            "calls are still blocked after the table was closed: " + state());
  if (!closed && blocked_inserts > 0 && oracle->CanInsert())
    Violate("T02", "lost-insert-wakeup",
            StrCat(blocked_inserts, " insert(s) stay blocked although the "
                                    "limiter allows one: ", state()));
  if (!closed && blocked_samples > 0 && oracle->CanSample())
    Violate("T02", "lost-sample-wakeup",
            StrCat(blocked_samples, " sample(s) stay blocked although the "
                                    "limiter allows one: ", state()));
  if (blocked_inserts) Probe("quiescent-with-blocked-insert");
  if (blocked_samples) Probe("quiescent-with-blocked-sample");
  NoPreempt np;
  rv::TableInfo info = table->info();
  oracle->CheckInfo(info, m, "at quiescence");
  const auto& is = info.rate_limiter_info().insert_stats();
  const auto& ss = info.rate_limiter_info().sample_stats();
  auto eq = [&](const char* what, int64_t got, int64_t lo, int64_t hi) {
    if (got < lo || got > hi)
      Violate("T07", StrCat("wrong-", what),
              StrCat("the limiter reports ", what, " ", got, ", expected ", lo,
                     hi == lo ? "" : StrCat(" to ", hi), "; ", state()));
  };
  eq("pending-inserts", is.pending(), blocked_inserts, blocked_inserts);
  eq("pending-samples", ss.pending(), blocked_samples, blocked_samples);
  eq("completed-inserts", is.completed(), ins.completed_min,
     ins.completed_min + ins.completed_maybe);
  eq("completed-samples", ss.completed(), smp.completed_min,
     smp.completed_min + smp.completed_maybe);
  auto ns = [](const google::protobuf::Duration& d) {
    return d.seconds() * 1000000000 + d.nanos();
  };
  if (exact) {
    eq("limited-inserts", is.limited(), ins.limited, ins.limited);
    eq("limited-samples", ss.limited(), smp.limited, smp.limited);
    eq("insert-wait-time", ns(is.completed_wait_time()), ins.wait_ns,
       ins.wait_ns);
    eq("sample-wait-time", ns(ss.completed_wait_time()), smp.wait_ns,
       smp.wait_ns);
    int64_t pi = 0, ps = 0;
    for (const OpCtx* op : oracle->open()) {
      if (op->kind == OpCtx::kInsert) pi += NowNs() - op->invoke_ns;
      if (op->kind == OpCtx::kSample) ps += NowNs() - op->invoke_ns;
    }
    eq("pending-insert-wait-time", ns(is.pending_wait_time()), pi, pi);
    eq("pending-sample-wait-time", ns(ss.pending_wait_time()), ps, ps);
  }
  CheckHistory();
}

void TableDriver::CheckHistory() {
  NoPreempt np;
  rv::TableInfo info = table->info();
  const int64_t total[2] = {
      info.rate_limiter_info().insert_stats().completed() +
          info.rate_limiter_info().insert_stats().pending(),
      info.rate_limiter_info().sample_stats().completed() +
          info.rate_limiter_info().sample_stats().pending()};
  const int64_t pending[2] = {
      info.rate_limiter_info().insert_stats().pending(),
      info.rate_limiter_info().sample_stats().pending()};
  const uint64_t from[2] = {Choose(kCfg, std::min<int64_t>(total[0] + 1, 8)),
                            Choose(kCfg, std::min<int64_t>(total[1] + 1, 8))};
  auto h = table->GetRateLimiterEventHistory(from[0], from[1]);
  for (int k = 0; k < 2; k++) {
    const auto& v = k == 0 ? h.insert : h.sample;
    const char* what = k == 0 ? "insert" : "sample";
    for (size_t i = 0; i < v.size(); i++) {
      if (v[i].id != from[k] + i)
        Violate("T07", "history-ids",
                StrCat(what, " history from id ", from[k], " has id ", v[i].id,
                       " at position ", i));
      if (exact) {
        int64_t start = absl::ToUnixNanos(v[i].start);
        int64_t dur = absl::ToInt64Nanoseconds(v[i].blocked_for);
        const auto& waits = k == 0 ? ins.waits : smp.waits;
        if (!waits.count({start, dur}))
          Violate("T07", "history-wait",
                  StrCat(what, " history reports a call at ", start,
                         " that waited ", dur, "ns; no such completed call"));
      }
    }
    if (pending[k] == 0 &&
        static_cast<int64_t>(v.size()) !=
            total[k] - static_cast<int64_t>(from[k]))
      Violate("T07", "history-incomplete",
              StrCat(what, " history from id ", from[k], " lists ", v.size(),
                     " calls, ", total[k], " have been completed and none is "
                     "active"));
  }
}

void TableClientOps(TableDriver* d, int id, int nops, const OpMix& mix, int keys) {
  const int s = kWork + 1 + id;
  for (int i = 0; i < nops && !d->stop; i++) {
    int op = Weighted(s, {1, mix.insert, mix.sample, mix.mutate, mix.read,
                          mix.sleep, mix.reset});
    switch (op) {
      case 0: break;
      case 1: {
        Key key = 1 + Choose(s, keys);
        double p = RandomPriority(s, &d->spec);
        int ep = 1 + Choose(s, 4);
        int nc = 1 + Choose(s, 2);
        d->Insert(key, p, ep, nc, RandomTimeout(s));
        break;
      }
      case 2: {
        int batch = 1 + Weighted(s, {6, 2, 1, 1});
        d->Sample(batch, RandomTimeout(s));
        break;
      }
      case 3: {
        std::vector<std::pair<Key, double>> u;
        std::vector<Key> del;
        int n = Choose(s, 3);
        for (int j = 0; j < n; j++) {
          Key k = 1 + Choose(s, keys);
          u.push_back({k, RandomPriority(s, &d->spec)});
        }
        n = Weighted(s, {2, 2, 1});
        for (int j = 0; j < n; j++) del.push_back(1 + Choose(s, keys));
        d->Mutate(u, del);
        break;
      }
      case 4:
        switch (Choose(s, 7)) {
          case 0: d->ReadSize(); break;
          case 1: d->ReadInfo(); break;
          case 2: d->ReadGet(1 + Choose(s, keys)); break;
          case 3: d->ReadCopy(Choose(s, 4)); break;
          case 4: d->ReadEpisodes(); break;
          case 5: {
            int n = 1 + Choose(s, 3);
            d->ReadCan(n, Flip(s, 500));
            break;
          }
          case 6: d->ReadCheckpoint(); break;
        }
        break;
      case 5: SleepNs(1000 * (1 + Choose(s, 20000))); break;
      case 6: d->Reset(); break;
    }
  }
}

}  // namespace harness

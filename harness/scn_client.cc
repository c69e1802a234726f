// Clients that mutate, reset, ask for information and create samplers while
// the server is at times unreachable and starts again with other tables.
#include <algorithm>
#include <cmath>

#include "absl/strings/str_cat.h"
#include "harness/world.h"
#include "reverb/cc/client.h"
#include "reverb/cc/sampler.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
using Shape = tensorflow::PartialTensorShape;

struct Spec {
  tensorflow::DataType dtype;
  std::vector<int64_t> dims;
};
using Specs = std::vector<Spec>;

// What the server's tables are from one start to the next one.
struct Life {
  std::map<std::string, absl::optional<Specs>> signatures;
  bool id_known = false;
  absl::uint128 id = 0;
};

// A call of a client and what became of it.
struct Call {
  const google::protobuf::Message* request = nullptr;  // what it must send
  std::string method;
  int sent = 0;
  int ended = 0;             // handlers that returned
  grpc::Status status;       // of the last handler
  int life = -1;             // of the last handler
  int64_t start_ns = 0;
  uint64_t from = 0, to = 0;                  // steps of the last handler
};

struct ClientWorld;

struct UnaryClient {
  ClientWorld* cw;
  int id = 0, node = 0, stream = 0;
  struct Shared {
    std::unique_ptr<rv::Client> client;
    std::set<int> cached;    // lives whose signatures may be cached
    bool none = true;        // nothing may be cached
    int active = 0;          // calls in progress
    int overlaps = 0;        // changes whenever calls overlap
    int users = 0;
  };
  std::shared_ptr<Shared> c;
  std::unique_ptr<Call> call;
  bool done = false;
  bool in_call = false;
  int64_t call_since = 0;

  std::string Name() const { return StrCat("client ", id); }
  void Run(int n);
  void Mutate();
  void Reset();
  void Info();
  void NewSampler();
  void Checkpoint();
  absl::Duration Timeout();
  void Check(const std::string& what, absl::Duration timeout, int64_t start,
             const absl::Status& st);
};

struct ClientWorld {
  World w;
  std::vector<Life> lives;
  int life = 0;
  std::vector<std::unique_ptr<UnaryClient>> clients;
  std::map<int, std::unique_ptr<OpCtx>> ops;      // by fiber of the handler
  std::map<int, ServerTable*> target;             // by fiber of the handler
  std::map<int, std::unique_ptr<Call>> handled;
  bool reliable = false;      // no faults of the network but outages
  int64_t up_since = 0;       // INT64_MAX: down
  bool exact = false;         // no stalls
  int generation = 0;
  uint64_t start_of_life = 0;

  UnaryClient* ByNode(int node) {
    for (auto& c : clients)
      if (c->node == node) return c.get();
    return nullptr;
  }
  std::string RequestedTable(const UnaryCall& u) {
    if (u.method == "MutatePriorities")
      return static_cast<const rv::MutatePrioritiesRequest*>(u.req)->table();
    if (u.method == "Reset")
      return static_cast<const rv::ResetRequest*>(u.req)->table();
    return "";
  }

  // The calls in progress by the request that was sent.
  std::map<int, Call*> by_request, by_handler;

  void OnSent(UnaryCall* u) {
    UnaryClient* c = ByNode(u->client_node);
    if (!c || !c->call) return;
    Call* call = c->call.get();
    if (call->request &&
        (call->method != u->method || call->request->SerializeAsString() !=
                                          u->req->SerializeAsString()))
      Violate("V03", "wrong-request",
              StrCat(c->Name(), " sends ", u->method, " ",
                     u->req->ShortDebugString(), " instead of ", call->method,
                     " ", call->request->ShortDebugString()));
    if (call->method != "" && ++call->sent > 1)
      Violate("V03", "request-twice",
              StrCat(c->Name(), " sends a request ", call->sent, " times: ",
                     u->req->ShortDebugString()));
    by_request[u->id] = call;
  }
  void Forget(Call* call) {
    for (auto* m : {&by_request, &by_handler})
      for (auto h = m->begin(); h != m->end();)
        if (h->second == call) h = m->erase(h);
        else ++h;
  }

  void OnStart(UnaryCall* u) {
    const int f = FiberId();
    auto sent = by_request.find(u->id);
    if (sent != by_request.end()) {
      sent->second->from = Step();
      by_handler[f] = sent->second;
    }
    ServerTable* t = nullptr;
    const std::string name = RequestedTable(*u);
    if (u->method == "MutatePriorities" || u->method == "Reset")
      t = w.Find(name);
    target[f] = t;
    if (!t) return;
    auto op = std::make_unique<OpCtx>();
    if (u->method == "Reset") {
      op->kind = OpCtx::kReset;
    } else {
      auto* q = static_cast<const rv::MutatePrioritiesRequest*>(u->req);
      op->kind = OpCtx::kMutate;
      for (auto& x : q->updates()) {
        op->updates.push_back({x.key(), x.priority()});
        op->invalid |= InvalidPriority(t->spec, x.priority());
      }
      if (op->invalid) op->could_be_noop = true;
      for (auto k : q->delete_keys()) op->deletes.push_back(k);
    }
    t->oracle->Begin(op.get());
    ops[f] = std::move(op);
  }

  void OnEnd(UnaryCall* u) {
    const int f = FiberId();
    const std::string what =
        StrCat(u->method, " ", u->req->ShortDebugString());
    ServerTable* t = target[f];
    target.erase(f);
    auto it = ops.find(f);
    if (it != ops.end()) {
      OpCtx* op = it->second.get();
      t->oracle->End(op);
      if (op->kind == OpCtx::kReset) {
        if (!u->status.ok() || op->events.size() != 1)
          Violate("V03", "reset-failed",
                  StrCat(what, " ends with ", u->status.error_code(), " and ",
                         op->events.size(), " effects"));
      } else if (op->invalid) {
        if (!op->events.empty() ||
            u->status.error_code() != grpc::StatusCode::INVALID_ARGUMENT)
          Violate("V03", "invalid-mutation",
                  StrCat(what, " with an invalid priority ends with ",
                         u->status.error_code(), " and ", op->events.size(),
                         " effects"));
      } else if (!u->status.ok()) {
        Violate("V03", "mutation-failed",
                StrCat(what, " ends with ", u->status.error_code(), " ",
                       u->status.error_message()));
      }
      if (!op->events.empty()) Probe(u->method == "Reset" ? "reset-applied"
                                                          : "mutation-applied");
      ops.erase(it);
    } else if (u->method == "MutatePriorities" || u->method == "Reset") {
      Probe("unknown-table-requested");
      if (u->status.error_code() != grpc::StatusCode::NOT_FOUND)
        Violate("V03", "unknown-table-accepted",
                StrCat(what, " ends with ", u->status.error_code()));
    } else if (u->method == "Checkpoint") {
      if (u->status.error_code() != grpc::StatusCode::INVALID_ARGUMENT)
        Violate("V03", "checkpoint-without-checkpointer",
                StrCat("ends with ", u->status.error_code()));
    }
    auto h = by_handler.find(f);
    if (h != by_handler.end()) {
      Call* call = h->second;
      call->ended++;
      call->status = u->status;
      call->life = life;
      call->to = Step();
      if (u->method == "ServerInfo" && u->status.ok())
        CheckInfo(*static_cast<const rv::ServerInfoResponse*>(u->resp), call);
      by_handler.erase(h);
    }
  }

  std::string Diff(const rv::TableInfo& i, ServerTable* t, const MState& m) {
    auto eq = [](const char* what, int64_t got, int64_t want) {
      return got == want ? std::string()
                         : StrCat(what, " is ", got, " instead of ", want);
    };
    std::string r = eq("the size", i.current_size(), m.items.size());
    if (r.empty()) r = eq("the number of episodes", i.num_episodes(),
                          m.episodes.size());
    if (r.empty()) r = eq("the number of deleted episodes",
                          i.num_deleted_episodes(), m.deleted_episodes);
    if (r.empty()) r = eq("the number of unique samples",
                          i.num_unique_samples(), m.unique);
    return r;
  }

  // The reply describes every table at some moment of the call.
  void CheckInfo(const rv::ServerInfoResponse& r, Call* call) {
    const absl::uint128 id = absl::MakeUint128(r.tables_state_id().high(),
                                               r.tables_state_id().low());
    Life& l = lives[life];
    if (l.id_known && l.id != id)
      Violate("V03", "state-id-changes",
              StrCat("the id of the tables' state changes in life ", life));
    for (int i = 0; i < life; i++)
      if (lives[i].id_known && lives[i].id == id)
        Violate("V03", "state-id-repeats",
                StrCat("lives ", i, " and ", life, " have the same id"));
    l.id_known = true;
    l.id = id;
    std::set<std::string> seen;
    for (auto& i : r.table_info()) {
      ServerTable* t = w.Find(i.name());
      if (!t || !seen.insert(i.name()).second) {
        Violate("V03", "wrong-table-list",
                StrCat("the server lists table ", i.name(),
                       t ? " twice" : " which it does not have"));
        return;
      }
      const std::string sig = t->sig ? Bytes(*t->sig) : "";
      if (i.has_signature() != t->has_signature ||
          (t->has_signature && Bytes(i.signature()) != sig))
        Violate("V03", "wrong-signature-listed",
                StrCat("table ", i.name(), " has another signature than ",
                       i.signature().ShortDebugString()));
      if (i.max_size() != t->spec.max_size ||
          i.max_times_sampled() != t->spec.max_times ||
          i.rate_limiter_info().min_size_to_sample() !=
              t->spec.limiter.min_size ||
          i.rate_limiter_info().samples_per_insert() != t->spec.limiter.spi)
        Violate("V03,T07", "wrong-settings-listed",
                StrCat("table ", i.name(), " is listed with ",
                       i.ShortDebugString()));
      std::string diff = "it has no state";
      auto& cuts = t->log->cuts;
      bool found = false;
      for (size_t k = cuts.size(); k-- > 0;) {
        if (cuts[k].from <= call->to) {
          diff = Diff(i, t, *cuts[k].m);
          if (diff.empty()) {
            found = true;
            break;
          }
        }
        if (cuts[k].from < call->from) break;
      }
      if (!found)
        Violate("V03", "wrong-table-info",
                StrCat("the state of table ", i.name(),
                       " is not one of the call's time: ", diff));
    }
    if (seen.size() != w.tables.size())
      Violate("V03", "wrong-table-list",
              StrCat("the server lists ", seen.size(), " of ", w.tables.size(),
                     " tables"));
    Probe("info-checked");
  }

  void OnEvent(ServerTable* t, const Ev& e) {
    auto it = target.find(FiberId());
    if (it != target.end() && it->second != t)
      Violate("V03", "wrong-table-changed",
              StrCat("a request for ",
                     it->second ? it->second->spec.name : "no table",
                     " changes table ", t->spec.name, ": ", Str(e)));
  }

  void Snapshot() {
    Life l;
    for (auto& t : w.tables) {
      absl::optional<Specs> s;
      if (t->has_signature) {
        s.emplace();
        for (size_t i = 0; i < t->signature.size(); i++) {
          Spec x;
          x.dtype = t->signature[i].dtype;
          if (t->has_time[i]) x.dims.push_back(-1);
          for (int64_t d : t->signature[i].shape) x.dims.push_back(d);
          s->push_back(x);
        }
      }
      l.signatures[t->spec.name] = s;
    }
    lives.push_back(l);
    life = lives.size() - 1;
    for (auto& t : w.tables) t->oracle->extra_props = "V03";
  }
};

absl::Duration UnaryClient::Timeout() {
  switch (Weighted(stream, {3, 2, 2, 2, 1})) {
    case 0: return absl::InfiniteDuration();
    case 1: return absl::Milliseconds(100 + 100 * Choose(stream, 9));
    case 2: return absl::Milliseconds(1000 + 250 * Choose(stream, 8));
    case 3: return absl::Seconds(1 + Choose(stream, 3));
    default: return absl::Milliseconds(20 + Choose(stream, 80));
  }
}

// A call that ended: was that in time, and does the outcome fit?
void UnaryClient::Check(const std::string& what, absl::Duration timeout,
                        int64_t start, const absl::Status& st) {
  const int64_t took = NowNs() - start;
  const bool finite = timeout != absl::InfiniteDuration();
  const int64_t t_ns = finite ? absl::ToInt64Nanoseconds(timeout) : INT64_MAX;
  const std::string msg =
      StrCat(Name(), ": ", what, " with timeout ",
             absl::FormatDuration(timeout), " ends with ", st.ToString(),
             " after ", absl::FormatDuration(absl::Nanoseconds(took)));
  SIM_LOG(msg);
  if (cw->exact && finite && took > t_ns + 100000000)
    Violate("V03", "timeout-exceeded", msg);
  if (absl::IsDeadlineExceeded(st)) {
    Probe("call-deadline-exceeded");
    // The deadline may be rounded to whole microseconds.
    if (!finite || took < t_ns - 1000000)
      Violate("V03", "given-up-early", msg);
    if (cw->exact && cw->reliable && finite && cw->up_since != INT64_MAX &&
        start + t_ns - std::max(cw->up_since, start) > 50000000)
      Violate("V03", "needless-timeout",
              StrCat(msg, " although the server is reachable"));
  }
  if (!st.ok() && !absl::IsDeadlineExceeded(st) && call->sent == 0 &&
      call->method != "" && call->method != "Checkpoint")
    Violate("V03", "not-waited",
            StrCat(msg, " although it was to wait for the server"));
  if (call->ended > 0 && st.ok() != call->status.ok() && (st.ok() || (cw->reliable && call->life == cw->life &&
                                        !absl::IsDeadlineExceeded(st) &&
                                        !absl::IsUnavailable(st) &&
                                        !absl::IsUnknown(st))))
    Violate("V03", "wrong-outcome",
            StrCat(msg, " although the server's answer was ",
                   call->status.error_code()));
  if (call->method != "" && st.ok() && call->ended == 0)
    Violate("V03", "success-without-effect",
            StrCat(msg, " although no server has handled it"));
}

void UnaryClient::Mutate() {
  ServerTable* t = cw->w.tables[Choose(stream, cw->w.tables.size())].get();
  std::string name = t->spec.name;
  if (Flip(stream, 80)) name = "no-such-table";
  std::vector<rv::KeyWithPriority> updates;
  std::vector<uint64_t> deletes;
  {
    NoPreempt np;
    std::vector<uint64_t> keys;
    if (t->oracle)
      for (auto& [k, m] : t->oracle->state().items) keys.push_back(k);
    auto pick = [&] {
      if (keys.empty() || Flip(stream, 100)) return uint64_t{12345};
      return keys[Choose(stream, keys.size())];
    };
    for (int n = Choose(stream, 4); n > 0; n--) {
      updates.emplace_back();
      updates.back().set_key(pick());
      updates.back().set_priority(
          Flip(stream, 40) ? -1.0
          : Flip(stream, 20) && InvalidPriority(t->spec, NAN)
              ? NAN
              : 1 + Choose(stream, 8));
    }
    for (int n = Choose(stream, updates.empty() ? 3 : 2); n > 0; n--)
      deletes.push_back(pick());
  }
  rv::MutatePrioritiesRequest q;
  q.set_table(name);
  for (auto& u : updates) *q.add_updates() = u;
  for (auto k : deletes) q.add_delete_keys(k);
  call->request = &q;
  call->method = "MutatePriorities";
  const absl::Duration timeout = Timeout();
  const int64_t start = NowNs();
  SIM_LOG(StrCat(Name(), " mutates ", q.ShortDebugString()));
  absl::Status st = c->client->MutatePriorities(name, updates, deletes, timeout);
  Check("a mutation", timeout, start, st);
  call->request = nullptr;
}

void UnaryClient::Reset() {
  rv::ResetRequest q;
  q.set_table(Flip(stream, 100)
                  ? "no-such-table"
                  : cw->w.tables[Choose(stream, cw->w.tables.size())]->spec.name);
  call->request = &q;
  call->method = "Reset";
  const int64_t start = NowNs();
  absl::Status st = c->client->Reset(q.table());
  Check("a reset", absl::InfiniteDuration(), start, st);
  call->request = nullptr;
}

void UnaryClient::Checkpoint() {
  call->method = "Checkpoint";
  std::string path;
  const int64_t start = NowNs();
  const bool up = cw->up_since != INT64_MAX;
  absl::Status st = c->client->Checkpoint(&path);
  Check("a checkpoint", absl::InfiniteDuration(), start, st);
  if (up && cw->up_since != INT64_MAX && cw->up_since <= start &&
      cw->reliable && !absl::IsInvalidArgument(st))
    Violate("V03", "checkpoint-without-checkpointer",
            StrCat(Name(), ": ", st.ToString()));
}

void UnaryClient::Info() {
  rv::ServerInfoRequest q;
  call->request = &q;
  call->method = "ServerInfo";
  const absl::Duration timeout = Timeout();
  const int64_t start = NowNs();
  struct rv::Client::ServerInfo info;
  const int overlaps = c->overlaps;
  absl::Status st = timeout == absl::InfiniteDuration()
                        ? c->client->ServerInfo(&info)
                        : c->client->ServerInfo(timeout, &info);
  Check("server info", timeout, start, st);
  call->request = nullptr;
  NoPreempt np;
  if (!st.ok()) return;
  int from = -1;
  for (size_t i = 0; i < cw->lives.size(); i++)
    if (cw->lives[i].id_known && cw->lives[i].id == info.tables_state_id)
      from = i;
  if (from < 0) {
    Violate("V03", "wrong-state-id",
            StrCat(Name(), " gets an id that no server has sent"));
    return;
  }
  std::set<std::string> names;
  for (auto& i : info.table_info) names.insert(i.name());
  std::set<std::string> want;
  for (auto& [n, s] : cw->lives[from].signatures) want.insert(n);
  if (names != want || info.table_info.size() != want.size())
    Violate("V03", "wrong-table-list",
            StrCat(Name(), " gets ", info.table_info.size(), " tables of ",
                   want.size()));
  if (overlaps != c->overlaps || c->active > 1) {
    c->cached.insert(from);
  } else {
    c->cached = {from};
    c->none = false;
  }
}

bool Compatible(const Specs& want, const Specs& got) {
  if (want.size() != got.size()) return false;
  for (size_t i = 0; i < want.size(); i++) {
    if (want[i].dtype != got[i].dtype ||
        want[i].dims.size() != got[i].dims.size())
      return false;
    for (size_t d = 0; d < want[i].dims.size(); d++)
      if (want[i].dims[d] >= 0 && got[i].dims[d] >= 0 &&
          want[i].dims[d] != got[i].dims[d])
        return false;
  }
  return true;
}

void UnaryClient::NewSampler() {
  // Which types the caller expects.
  const Life& model = cw->lives[Choose(stream, cw->lives.size())];
  auto it = model.signatures.begin();
  std::advance(it, Choose(stream, model.signatures.size()));
  const std::string name = Flip(stream, 60) ? "no-such-table" : it->first;
  Specs s;
  if (it->second) {
    s = *it->second;
    for (auto& x : s)
      for (auto& d : x.dims)
        if (d < 0 && Flip(stream, 300)) d = 1 + Choose(stream, 3);
  } else {
    s.push_back({tensorflow::DT_FLOAT, {}});
  }
  switch (Weighted(stream, {6, 1, 1, 1, 1})) {
    case 0: break;
    case 1: s[Choose(stream, s.size())].dtype = tensorflow::DT_BOOL; break;
    case 2: s.push_back({tensorflow::DT_FLOAT, {}}); break;
    case 3: s[Choose(stream, s.size())].dims.push_back(1); break;
    case 4: s.pop_back(); break;
  }
  Specs full = {{tensorflow::DT_UINT64, {}},
                {tensorflow::DT_DOUBLE, {}},
                {tensorflow::DT_INT64, {}},
                {tensorflow::DT_DOUBLE, {}}};
  full.insert(full.end(), s.begin(), s.end());
  tensorflow::DataTypeVector dtypes;
  std::vector<Shape> shapes;
  for (auto& x : full) {
    dtypes.push_back(x.dtype);
    std::vector<tensorflow::int64> d(x.dims.begin(), x.dims.end());
    shapes.push_back(Shape(d));
  }
  rv::Sampler::Options o;
  o.max_samples = 1;
  o.rate_limiter_timeout = absl::Milliseconds(1);
  std::unique_ptr<rv::Sampler> sampler;
  const bool plain = Flip(stream, 250);
  const absl::Duration timeout = Timeout();
  const int64_t start = NowNs();
  bool none;
  std::set<int> cached;
  int first_life;
  const int overlaps = c->overlaps;
  {
    NoPreempt np;
    none = c->none;
    cached = c->cached;
    first_life = cw->life;
  }
  call->method = "";
  absl::Status st =
      plain ? c->client->NewSampler(name, o, timeout, &sampler)
            : c->client->NewSampler(name, o, dtypes, shapes, timeout, &sampler);
  NoPreempt np;
  const bool overlapped = overlaps != c->overlaps || c->active > 1;
  Check(plain ? "a sampler" : "a checked sampler", timeout, start,
        plain || !absl::IsDeadlineExceeded(st) ? absl::OkStatus() : st);
  if (st.ok() != (sampler != nullptr))
    Violate("V03", "sampler-without-success", StrCat(Name(), ": ", st.ToString()));
  if (overlapped) cached.insert(c->cached.begin(), c->cached.end());
  if (none) {
    for (int l = first_life; l <= cw->life; l++) cached.insert(l);
    // The signatures have been fetched unless that failed.
    if (st.ok() && !plain) {
      c->none = false;
      c->cached.insert(cached.begin(), cached.end());
    } else if (absl::IsInvalidArgument(st)) {
      c->none = false;
      c->cached.insert(cached.begin(), cached.end());
    } else {
      // It is not known whether there is a cache now.
      c->cached.insert(cached.begin(), cached.end());
    }
  }
  if (plain) {
    if (!st.ok())
      Violate("V03", "sampler-not-created", StrCat(Name(), ": ", st.ToString()));
    return;
  }
  bool may_pass = false, may_fail = false;
  for (int l : cached) {
    auto& sigs = cw->lives[l].signatures;
    auto f = sigs.find(name);
    if (f == sigs.end() || !f->second) {
      may_pass = true;
      continue;
    }
    Specs want = {full.begin(), full.begin() + 4};
    want.insert(want.end(), f->second->begin(), f->second->end());
    (Compatible(want, full) ? may_pass : may_fail) = true;
  }
  const std::string msg =
      StrCat(Name(), ": a sampler of ", name, " with ", s.size(),
             " columns: ", st.ToString(), "; the cached signatures are of ",
             cached.size(), " lives");
  if (st.ok()) {
    Probe("checked-sampler-created");
    if (!may_pass) Violate("V03", "unchecked-signature", msg);
  } else if (absl::IsInvalidArgument(st)) {
    Probe("checked-sampler-refused");
    if (!may_fail) Violate("V03", "sampler-refused", msg);
  } else if (!none) {
    // Nothing had to be asked for.
    Violate("V03", "sampler-not-created", msg);
  }
}

void UnaryClient::Run(int n) {
  for (int i = 0; i < n && !cw->w.stopping; i++) {
    SleepNs(1 + 10000LL * Choose(stream, 400));
    {
      NoPreempt np;
      call = std::make_unique<Call>();
      if (++c->active > 1) c->overlaps++;
      in_call = true;
      call_since = NowNs();
    }
    switch (Weighted(stream, {5, 1, 4, 4, 1})) {
      case 0: Mutate(); break;
      case 1: Reset(); break;
      case 2: Info(); break;
      case 3: NewSampler(); break;
      case 4: Checkpoint(); break;
    }
    NoPreempt np;
    cw->Forget(call.get());
    call.reset();
    in_call = false;
    c->active--;
  }
  done = true;
}

void RunClient() {
  SetHangProps("V03");
  const bool stalls = Flip(kCfg, 150);
  RandomSchedule(stalls, false);
  Config().max_stall_ns = 2000000000;
  const bool net_faults = Flip(kCfg, 300);
  RandomNet(net_faults);
  ClientWorld cw;
  World& w = cw.w;
  w.ep.node = 1;
  cw.reliable = !net_faults;
  cw.exact = !stalls;
  const bool async = Flip(kCfg, 500);
  const int nt = 1 + Choose(kCfg, 3);
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = 3 + Choose(kCfg, 20);
    s.limiter = OpenLimiter();
    w.AddTable(s, Flip(kCfg, 700), true);
  }
  w.on_event = [&cw](ServerTable* t, const Ev& e) { cw.OnEvent(t, e); };
  w.on_unary_sent = [&cw](UnaryCall* u) { cw.OnSent(u); };
  w.on_unary_start = [&cw](UnaryCall* u) { cw.OnStart(u); };
  w.on_unary_end = [&cw](UnaryCall* u) { cw.OnEnd(u); };
  const int nclients = 1 + Choose(kCfg, 4);
  const bool shared = Flip(kCfg, 300);
  const int nlives = 1 + Weighted(kCfg, {3, 3, 2});
  bool feeding = true;
  std::vector<Fiber*> fs, feeders;
  for (int life = 0; life < nlives; life++) {
    if (life > 0) {
      for (auto& t : w.tables) {
        if (Flip(kCfg, 300)) t->spec.name = StrCat(t->spec.name, "x");
        if (Flip(kCfg, 500)) {
          if (t->has_signature && Flip(kCfg, 300)) {
            t->has_signature = false;
            t->sig.reset();
          } else {
            w.NewSignature(t.get(), true);
          }
        }
      }
      w.NewTables();
    }
    cw.Snapshot();
    w.Start(async);
    w.StartLogs();
    w.ep.up = true;
    cw.up_since = NowNs();
    EndpointChanged(&w.ep);
    if (life == 0) {
      EnableMemPreemption();
      std::shared_ptr<UnaryClient::Shared> sh;
      for (int i = 0; i < nclients; i++) {
        auto c = std::make_unique<UnaryClient>();
        c->cw = &cw;
        c->id = i;
        c->stream = kWork + 30 + i;
        c->node = 50 + i;
        if (!sh || !shared) {
          sh = std::make_shared<UnaryClient::Shared>();
          sh->client = std::make_unique<rv::Client>(w.Stub());
        }
        c->c = sh;
        sh->users++;
        UnaryClient* p = c.get();
        cw.clients.push_back(std::move(c));
        const int n = 5 + Choose(kCfg, 25);
        SetNode(50 + i);
        fs.push_back(Spawn(StrCat("client", i), [p, n] { p->Run(n); }));
      }
      SetNode(0);
    }
    SetNode(w.ep.node);
    feeders.clear();
    for (int i = 0; i < nt; i++) {
      ServerTable* t = w.tables[i].get();
      const int stream = kWork + 5 + i;
      feeders.push_back(Spawn(StrCat("feeder", i), [&w, &feeding, t, stream, i] {
        int count = 0;
        while (feeding) {
          w.Feed(t, stream, 100 + i, true, absl::Milliseconds(50));
          SleepNs(1000LL * (1 + Choose(stream, 3000)) +
                  (++count < 30 ? 0 : 20000000));
        }
      }));
    }
    SetNode(0);
    // Times when the server cannot be reached.
    for (int n = Choose(kWork, 3); n > 0; n--) {
      SleepNs(1000LL * Choose(kWork, 40000));
      w.ep.up = false;
      cw.up_since = INT64_MAX;
      SIM_LOG("the server becomes unreachable");
      Fault("unreachable");
      if (Flip(kWork, 500)) BreakAll(&w.ep);
      SleepNs(Flip(kWork, 300) ? 1000LL * Choose(kWork, 20000)
                               : 1000000LL * Choose(kWork, 2500));
      w.ep.up = true;
      cw.up_since = NowNs();
      SIM_LOG("the server is reachable again");
      EndpointChanged(&w.ep);
    }
    if (life == nlives - 1) break;
    SleepNs(1000LL * Choose(kWork, 30000));
    SIM_LOG("the server ends");
    Fault("server-crash");
    cw.up_since = INT64_MAX;
    w.Crash();
    cw.ops.clear();
    cw.target.clear();
    cw.by_handler.clear();
    SleepNs(1000LL * (1 + Choose(kWork, 50000)));
  }
  int64_t until = NowNs() + 20000000000;
  for (auto& c : cw.clients)
    while (!c->done && NowNs() < until) SleepNs(1000000);
  StopNetFaults();
  StopStalls();
  const int64_t healed = NowNs();
  until = healed + 30000000000;
  for (size_t i = 0; i < fs.size(); i++) {
    while (!Done(fs[i]) && NowNs() < until) {
      SleepNs(5000000);
      UnaryClient* c = cw.clients[i].get();
      if (c->in_call && NowNs() - std::max(c->call_since, healed) > 10000000000)
        break;
    }
    if (!Done(fs[i])) {
      Violate("V03", "call-hangs",
              StrCat("a call of client ", i, " has not returned 10 s after the "
                     "last fault: ", BlockedFibers()));
      EndRun();
    }
  }
  feeding = false;
  for (Fiber* f : feeders) Join(f);
  w.CheckEnd();
  DisableMemPreemption();
  w.Stop();
}
}  // namespace

SCENARIO(client) { RunClient(); }

}  // namespace harness

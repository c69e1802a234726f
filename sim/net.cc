#define VERIF_SIM_NET_FULL 1
#include "sim/net.h"
#include "sim/disk.h"

#include <unistd.h>

#include "grpcpp/support/server_callback.h"
#include "grpcpp/test/default_reactor_test_peer.h"
#include "sim/sim_server.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/tensor_compression.h"

namespace reverbsim {
Endpoint* g_listener = nullptr;
namespace {
using google::protobuf::Message;

// Reads a private member of ClientContext.
template <bool grpc::ClientContext::*M>
struct Rob {
  friend bool WaitForReady(grpc::ClientContext* c) { return c->*M; }
};
bool WaitForReady(grpc::ClientContext* c);
template struct Rob<&grpc::ClientContext::wait_for_ready_>;

struct State {
  NetConfig cfg;
  std::map<grpc::ClientContext*, std::shared_ptr<Conn>> clients;
  std::set<grpc::ClientContext*> cancelled_early;
  std::map<const grpc::ServerContextBase*, std::shared_ptr<Conn>> servers;
  std::set<const grpc::ServerContextBase*> server_cancelled;
  std::vector<std::shared_ptr<Conn>> conns;
  NetObserver* observer = nullptr;
  int unary_calls = 0;
};
State* S() {
  static State* s = new State;
  return s;
}

int64_t Latency() {
  int64_t l = Net().latency_ns;
  if (Net().jitter_ns > 0)
    l += Net().jitter_ns / 8 * static_cast<int64_t>(Choose(kNet, 9));
  if (Flip(kNet, Net().slow_permille)) {
    l += Net().slow_ns / 4 * static_cast<int64_t>(1 + Choose(kNet, 4));
    Fault("message-delayed");
  }
  return l;
}

bool Unreachable(Endpoint* ep) {
  return !ep->up || NowNs() < ep->unreachable_until;
}

// Waits until the endpoint can be reached. False when the deadline passed.
bool WaitReachable(Endpoint* ep, int64_t deadline) {
  while (Unreachable(ep)) {
    if (NowNs() >= deadline) return false;
    int64_t t = deadline;
    if (ep->up && ep->unreachable_until < t) t = ep->unreachable_until;
    ep->waiting.push_back(Self());
    BlockUntil(t, "server unreachable");
    for (size_t i = 0; i < ep->waiting.size(); i++)
      if (ep->waiting[i] == Self()) {
        ep->waiting.erase(ep->waiting.begin() + i);
        break;
      }
  }
  return true;
}

grpc::Status TransportError() {
  switch (Choose(kNet, 3)) {
    case 1:
      return grpc::Status(grpc::StatusCode::UNKNOWN, "Stream removed");
    case 2:
      return grpc::Status(grpc::StatusCode::UNAVAILABLE, "Connection reset by peer");
    default:
      return grpc::Status(grpc::StatusCode::UNAVAILABLE, "Socket closed");
  }
}

template <class T>
std::shared_ptr<Message> Copy(const T& m) {
  auto c = std::make_shared<T>();
  c->CopyFrom(m);
  return c;
}

void MaybeBreak(Conn* c) {
  if (c->broken) return;
  if (Flip(kNet, Net().break_permille)) {
    Fault("stream-broken");
    c->Break();
    if (Flip(kNet, Net().outage_permille)) {
      Fault("outage");
      c->ep->unreachable_until =
          NowNs() + Net().outage_ns / 4 * (1 + Choose(kNet, 4));
    }
  }
}

// Keeps a random prefix of what is in flight; returns the last arrival.
int64_t Cut(std::deque<NetMsg>* q) {
  int64_t last = NowNs();
  size_t n = q->size();
  size_t keep = n - Choose(kNet, n + 1);
  while (q->size() > keep) q->pop_back();
  if (!q->empty() && q->back().at > last) last = q->back().at;
  return last;
}

template <class W, class R>
class ClientStream : public grpc::ClientReaderWriterInterface<W, R> {
 public:
  explicit ClientStream(std::shared_ptr<Conn> c) : c_(std::move(c)) {}
  ~ClientStream() override {
    NoPreempt np;
    c_->ClientDestroyed();
  }
  bool NextMessageSize(uint32_t* sz) override {
    *sz = INT32_MAX;
    return true;
  }
  void WaitForInitialMetadata() override {}
  bool Read(R* msg) override {
    Point();
    auto m = c_->ClientReadMsg();
    if (!m) return false;
    msg->CopyFrom(*m);
    return true;
  }
  bool Write(const W& msg, grpc::WriteOptions) override {
    Point();
    return c_->ClientWriteMsg(Copy(msg));
  }
  bool WritesDone() override {
    Point();
    return c_->ClientWriteMsg(nullptr);
  }
  grpc::Status Finish() override {
    Point();
    return c_->ClientFinish();
  }

 private:
  std::shared_ptr<Conn> c_;
};

template <class W, class R>
class SyncServerStream : public grpc::ServerReaderWriterInterface<W, R> {
 public:
  explicit SyncServerStream(Conn* c) : c_(c) {}
  void SendInitialMetadata() override {}
  bool NextMessageSize(uint32_t* sz) override {
    *sz = INT32_MAX;
    return true;
  }
  bool Read(R* msg) override {
    Point();
    auto m = c_->ServerReadMsg(nullptr);
    if (!m) return false;
    msg->CopyFrom(*m);
    return true;
  }
  bool Write(const W& msg, grpc::WriteOptions) override {
    Point();
    return c_->ServerWriteMsg(Copy(msg), nullptr);
  }

 private:
  Conn* c_;
};

void HandlerDone(Endpoint* ep) {
  ep->handlers--;
  EndpointChanged(ep);
}

// A call of the callback API.
template <class Req, class Resp>
class AsyncCall : public grpc::ServerCallbackReaderWriter<Req, Resp>,
                  public std::enable_shared_from_this<AsyncCall<Req, Resp>> {
 public:
  using Start = std::function<grpc::ServerBidiReactor<Req, Resp>*(
      grpc::CallbackServerContext*)>;
  AsyncCall(std::shared_ptr<Conn> c, Endpoint* ep) : c_(std::move(c)), ep_(ep) {}
  ~AsyncCall() override {}

  void Run(const Start& start) {
    auto self = this->shared_from_this();
    c_->server_ctx = &ctx_;
    S()->servers[&ctx_] = c_;
    {
      NoPreempt np;
      reactor_ = start(&ctx_);
      this->BindReactor(reactor_);
    }
    std::string n = "rpc" + std::to_string(c_->id);
    Spawn(n + "-write", [self] { self->WriteLoop(); });
    Spawn(n + "-cancel", [self] { self->CancelLoop(); });
    ReadLoop();
  }

  void Finish(grpc::Status s) override {
    Check(!finish_called_, "Finish called twice");
    finish_called_ = true;
    status_ = std::move(s);
    c_->Changed();
  }
  void SendInitialMetadata() override {}
  void Read(Req* msg) override {
    Check(!finish_called_, "StartRead after Finish");
    Check(!read_pending_, "two outstanding reads");
    read_pending_ = true;
    slot_ = msg;
    c_->Changed();
  }
  void Write(const Resp* msg, grpc::WriteOptions) override {
    Check(!finish_called_, "StartWrite after Finish");
    Check(!write_pending_, "two outstanding writes");
    write_pending_ = true;
    out_ = Copy(*msg);
    c_->Changed();
  }
  void WriteAndFinish(const Resp* msg, grpc::WriteOptions o,
                      grpc::Status s) override {
    Write(msg, o);
    Finish(std::move(s));
  }

 private:
  grpc::internal::ServerReactor* reactor() override { return reactor_; }
  void CallOnDone() override {}

  void Check(bool ok, const char* what) {
    if (!ok || done_)
      Violate("V02", "callback-api-misuse",
              std::string(done_ ? "operation after OnDone" : what));
  }

  void ReadLoop() {
    auto self = this->shared_from_this();
    while (!done_) {
      if (!read_pending_) {
        c_->Wait(kForever, "callback reader");
        continue;
      }
      auto m = c_->ServerReadMsg([this] { return finish_called_; });
      if (m) slot_->CopyFrom(*m);
      running_++;
      read_pending_ = false;
      Point();
      reactor_->OnReadDone(m != nullptr);
      running_--;
      MaybeDone();
    }
  }
  void WriteLoop() {
    while (!done_) {
      if (write_pending_) {
        bool ok = c_->ServerWriteMsg(std::move(out_), nullptr);
        running_++;
        write_pending_ = false;
        Point();
        reactor_->OnWriteDone(ok);
        running_--;
      } else if (finish_called_ && !finish_sent_) {
        c_->ServerFinish(status_);
        finish_sent_ = true;
      } else {
        c_->Wait(kForever, "callback writer");
        continue;
      }
      MaybeDone();
    }
  }
  void CancelLoop() {
    while (!done_ && !finish_sent_) {
      if (c_->ServerDead()) {
        cancelled_ = true;
        running_++;
        Point();
        reactor_->OnCancel();
        running_--;
        MaybeDone();
        return;
      }
      c_->Wait(std::min(c_->broken_server, c_->cancel_server),
               "callback cancel");
    }
  }
  void MaybeDone() {
    c_->Changed();
    if (done_ || !finish_sent_ || read_pending_ || write_pending_ || running_)
      return;
    done_ = true;
    c_->callback_done = true;
    Point();
    reactor_->OnDone();
    S()->servers.erase(&ctx_);
    c_->server_ctx = nullptr;
    HandlerDone(ep_);
    c_->Changed();
  }

  std::shared_ptr<Conn> c_;
  Endpoint* ep_;
  grpc::CallbackServerContext ctx_;
  grpc::ServerBidiReactor<Req, Resp>* reactor_ = nullptr;
  bool read_pending_ = false, write_pending_ = false;
  Req* slot_ = nullptr;
  std::shared_ptr<Message> out_;
  bool finish_called_ = false, finish_sent_ = false, done_ = false,
       cancelled_ = false;
  int running_ = 0;
  grpc::Status status_;
};

void Handle(std::shared_ptr<Conn> c) {
  Endpoint* ep = c->ep;
  if (ep->async) {
    auto* svc = ep->async;
    switch (c->kind) {
      case kInsertConn:
        std::make_shared<AsyncCall<rv::InsertStreamRequest,
                                   rv::InsertStreamResponse>>(c, ep)
            ->Run([svc](grpc::CallbackServerContext* x) {
              return svc->InsertStream(x);
            });
        return;
      case kSampleConn:
        std::make_shared<AsyncCall<rv::SampleStreamRequest,
                                   rv::SampleStreamResponse>>(c, ep)
            ->Run([svc](grpc::CallbackServerContext* x) {
              return svc->SampleStream(x);
            });
        return;
      default:
        std::make_shared<AsyncCall<rv::InitializeConnectionRequest,
                                   rv::InitializeConnectionResponse>>(c, ep)
            ->Run([svc](grpc::CallbackServerContext* x) {
              return svc->InitializeConnection(x);
            });
        return;
    }
  }
  {
    auto* svc = ep->sync;
    grpc::ServerContext ctx;
    c->server_ctx = &ctx;
    S()->servers[&ctx] = c;
    grpc::Status st;
    switch (c->kind) {
      case kInsertConn: {
        SyncServerStream<rv::InsertStreamResponse, rv::InsertStreamRequest> s(
            c.get());
        st = svc->InsertStreamInternal(&ctx, &s);
        break;
      }
      case kSampleConn: {
        SyncServerStream<rv::SampleStreamResponse, rv::SampleStreamRequest> s(
            c.get());
        st = svc->SampleStreamInternal(&ctx, &s);
        break;
      }
      default: {
        SyncServerStream<rv::InitializeConnectionResponse,
                         rv::InitializeConnectionRequest>
            s(c.get());
        st = svc->InitializeConnectionInternal(&ctx, &s);
      }
    }
    S()->servers.erase(&ctx);
    S()->server_cancelled.erase(&ctx);
    c->server_ctx = nullptr;
    c->ServerFinish(st);
  }
  HandlerDone(ep);
}

std::shared_ptr<Conn> Open(Endpoint* ep, ConnKind kind,
                           grpc::ClientContext* ctx) {
  Point();
  auto c = std::make_shared<Conn>();
  c->id = S()->conns.size();
  c->kind = kind;
  c->ep = ep;
  c->client_node = CurrentNode();
  c->same_machine = c->client_node == ep->node ||
                    (kind == kInitConn && Flip(kNet, 500));
  c->client_ctx = ctx;
  S()->conns.push_back(c);
  S()->clients[ctx] = c;
  if (S()->cancelled_early.erase(ctx)) {
    c->ClientCancel();
    return c;
  }
  const bool refuse = Flip(kNet, Net().refuse_permille);
  if (!refuse && Unreachable(ep) && WaitForReady(ctx))
    WaitReachable(ep, kForever);
  if (refuse || Unreachable(ep)) {
    if (refuse) Fault("connection-refused");
    SleepNs(1000000);
    c->broken = c->refused = true;
    c->broken_client = NowNs();
    c->broken_status =
        grpc::Status(grpc::StatusCode::UNAVAILABLE, "failed to connect");
    SIM_LOG("net: stream " + std::to_string(c->id) + " refused");
    return c;
  }
  c->generation = ep->generation;
  ep->handlers++;
  SIM_LOG("net: stream " + std::to_string(c->id) + " kind " +
          std::to_string(kind) + " opened by " + FiberName());
  if (S()->observer) {
    NoPreempt np;
    S()->observer->Opened(c.get());
  }
  const int64_t at = NowNs() + Latency();
  c->c2s_last = at;
  const int node = CurrentNode();
  SetNode(ep->node);
  Spawn("rpc" + std::to_string(c->id), [c, at, ep] {
    SleepNs(at - NowNs());
    Handle(c);
  });
  SetNode(node);
  return c;
}

template <class Req, class Resp, class Fn>
grpc::Status Unary(Endpoint* ep, const char* method, grpc::ClientContext* ctx,
                   const Req& req, Resp* resp, Fn fn) {
  struct Call {
    Req req;
    Resp resp;
    grpc::Status status;
    int64_t done_at = kForever;
    Fiber* client = nullptr;
    bool lost = false;
  };
  Point();
  int64_t deadline = kForever;
  gpr_timespec d = ctx->raw_deadline();
  if (gpr_time_cmp(d, gpr_inf_future(d.clock_type)) != 0) {
    int64_t wall = d.tv_sec * 1000000000LL + d.tv_nsec;
    deadline = NowNs() + std::max<int64_t>(0, wall - WallNs());
  }
  const grpc::Status late(grpc::StatusCode::DEADLINE_EXCEEDED,
                          "Deadline Exceeded");
  const bool refuse = Flip(kNet, Net().refuse_permille);
  if (NowNs() >= deadline) return late;
  if (WaitForReady(ctx)) {
    if (!WaitReachable(ep, deadline)) return late;
  } else if (refuse || Unreachable(ep)) {
    Fault("connection-refused");
    SleepNs(1000000);
    return grpc::Status(grpc::StatusCode::UNAVAILABLE, "failed to connect");
  }
  auto call = std::make_shared<Call>();
  call->req.CopyFrom(req);
  UnaryCall info;
  info.method = method;
  info.id = ++S()->unary_calls;
  info.client_node = CurrentNode();
  if (S()->observer) {
    NoPreempt np;
    info.req = &req;
    S()->observer->UnarySent(&info);
  }
  const int lose =
      Flip(kNet, Net().lose_unary_permille) ? 1 + Choose(kNet, 2) : 0;
  if (lose) Fault(lose == 1 ? "request-lost" : "reply-lost");
  const int generation = ep->generation;
  if (lose == 1) {
    SleepNs(std::min(Latency(), deadline - NowNs()));
    return NowNs() >= deadline ? late : TransportError();
  }
  ep->handlers++;
  const int64_t at = NowNs() + Latency();
  const int node = CurrentNode();
  SetNode(ep->node);
  Spawn("unary", [call, at, ep, fn, info]() mutable {
    SleepNs(at - NowNs());
    if (S()->observer) {
      NoPreempt np;
      info.req = &call->req;
      S()->observer->UnaryStart(&info);
    }
    call->status = fn(&call->req, &call->resp);
    if (S()->observer) {
      NoPreempt np;
      info.resp = &call->resp;
      info.status = call->status;
      S()->observer->UnaryEnd(&info);
    }
    call->done_at = NowNs() + Latency();
    if (call->client) Wake(call->client);
    HandlerDone(ep);
  });
  SetNode(node);
  while (true) {
    if (ep->generation != generation && call->done_at == kForever)
      return TransportError();
    if (NowNs() >= call->done_at) break;
    if (NowNs() >= deadline) {
      Fault("unary-deadline");
      return late;
    }
    call->client = Self();
    ep->waiting.push_back(Self());
    BlockUntil(std::min(call->done_at, deadline), "unary call");
    for (size_t i = 0; i < ep->waiting.size(); i++)
      if (ep->waiting[i] == Self()) {
        ep->waiting.erase(ep->waiting.begin() + i);
        break;
      }
    call->client = nullptr;
  }
  if (lose == 2) return TransportError();
  resp->CopyFrom(call->resp);
  return call->status;
}

template <class Fn>
grpc::Status AsyncUnary(Fn fn) {
  grpc::CallbackServerContext ctx;
  grpc::Status st;
  grpc::testing::DefaultReactorTestPeer peer(&ctx);
  fn(&ctx);
  if (!peer.test_status_set())
    Violate("V02,V03", "unary-not-finished",
            "a unary handler returned without finishing its reactor");
  return peer.test_status();
}

class SimStub : public rv::ReverbService::StubInterface {
 public:
  explicit SimStub(Endpoint* ep) : ep_(ep) {}

#define SIM_UNARY(NAME)                                                      \
  grpc::Status NAME(grpc::ClientContext* context,                            \
                    const rv::NAME##Request& request,                        \
                    rv::NAME##Response* response) override {                 \
    Endpoint* ep = ep_;                                                      \
    return Unary(ep, #NAME, context, request, response,                      \
                 [ep](rv::NAME##Request* q, rv::NAME##Response* r) {         \
                   if (ep->async) {                                          \
                     return AsyncUnary([&](grpc::CallbackServerContext* c) { \
                       ep->async->NAME(c, q, r);                             \
                     });                                                     \
                   }                                                         \
                   grpc::ServerContext ctx;                                  \
                   return ep->sync->NAME(&ctx, q, r);                        \
                 });                                                         \
  }
  SIM_UNARY(Checkpoint)
  SIM_UNARY(MutatePriorities)
  SIM_UNARY(Reset)
  SIM_UNARY(ServerInfo)
#undef SIM_UNARY

 private:
#define SIM_STREAM(NAME, KIND)                                                 \
  grpc::ClientReaderWriterInterface<rv::NAME##Request, rv::NAME##Response>*    \
      NAME##Raw(grpc::ClientContext* context) override {                       \
    return new ClientStream<rv::NAME##Request, rv::NAME##Response>(            \
        Open(ep_, KIND, context));                                             \
  }                                                                            \
  grpc::ClientAsyncReaderWriterInterface<rv::NAME##Request,                    \
                                         rv::NAME##Response>*                  \
      Async##NAME##Raw(grpc::ClientContext*, grpc::CompletionQueue*, void*)    \
          override {                                                           \
    return nullptr;                                                            \
  }                                                                            \
  grpc::ClientAsyncReaderWriterInterface<rv::NAME##Request,                    \
                                         rv::NAME##Response>*                  \
      PrepareAsync##NAME##Raw(grpc::ClientContext*, grpc::CompletionQueue*)    \
          override {                                                           \
    return nullptr;                                                            \
  }
  SIM_STREAM(InsertStream, kInsertConn)
  SIM_STREAM(SampleStream, kSampleConn)
  SIM_STREAM(InitializeConnection, kInitConn)
#undef SIM_STREAM
#define SIM_ASYNC_UNARY(NAME)                                             \
  grpc::ClientAsyncResponseReaderInterface<rv::NAME##Response>*           \
      Async##NAME##Raw(grpc::ClientContext*, const rv::NAME##Request&,    \
                       grpc::CompletionQueue*) override {                 \
    return nullptr;                                                       \
  }                                                                       \
  grpc::ClientAsyncResponseReaderInterface<rv::NAME##Response>*           \
      PrepareAsync##NAME##Raw(grpc::ClientContext*,                       \
                              const rv::NAME##Request&,                   \
                              grpc::CompletionQueue*) override {          \
    return nullptr;                                                       \
  }
  SIM_ASYNC_UNARY(Checkpoint)
  SIM_ASYNC_UNARY(MutatePriorities)
  SIM_ASYNC_UNARY(Reset)
  SIM_ASYNC_UNARY(ServerInfo)
#undef SIM_ASYNC_UNARY

  Endpoint* ep_;
};

}  // namespace

NetConfig& Net() { return S()->cfg; }
void SetNetObserver(NetObserver* o) { S()->observer = o; }
std::vector<std::shared_ptr<Conn>>& Connections() { return S()->conns; }

void RandomNet(bool faults) {
  NetConfig c;
  static const int64_t lat[] = {20000, 0, 2000, 200000, 2000000};
  c.latency_ns = lat[Choose(kCfg, 5)];
  static const int64_t jit[] = {20000, 0, 400000, 4000000};
  c.jitter_ns = jit[Choose(kCfg, 4)];
  c.window = 1 + Weighted(kCfg, {2, 3, 3, 0, 0, 0, 0, 2});
  if (faults) {
    static const int p[] = {0, 5, 20, 60, 150};
    c.break_permille = p[Choose(kCfg, 5)];
    c.slow_permille = p[Choose(kCfg, 4)];
    c.refuse_permille = Flip(kCfg, 400) ? 100 : 0;
    c.outage_permille = Flip(kCfg, 400) ? 300 : 0;
    c.lose_unary_permille = Flip(kCfg, 400) ? 100 : 0;
    static const int64_t nt[] = {3000000, 0, 100000, 50000000};
    c.notice_ns = nt[Choose(kCfg, 4)];
  }
  Net() = c;
}

void StopNetFaults() {
  NetConfig& c = Net();
  c.slow_permille = c.break_permille = c.refuse_permille = c.outage_permille =
      c.lose_unary_permille = 0;
}

// ------------------------------------------------------------------ Conn
void Conn::Changed() {
  std::vector<Fiber*> w;
  w.swap(waiters);
  for (Fiber* f : w) Wake(f);
}

void Conn::Wait(int64_t until, const char* why) {
  waiters.push_back(Self());
  BlockUntil(until, why);
  for (size_t i = 0; i < waiters.size(); i++) {
    if (waiters[i] == Self()) {
      waiters.erase(waiters.begin() + i);
      break;
    }
  }
}

void Conn::Break() {
  if (broken) return;
  broken = true;
  broken_status = TransportError();
  int64_t a = Cut(&c2s), b = Cut(&s2c);
  if (server_done && status_at != kForever && !Choose(kNet, 2)) {
    // The status got through.
    broken_client = kForever;
    broken_server = NowNs();
    broken = true;
    if (status_at < b) status_at = b;
  } else {
    broken_client = b + (Net().notice_ns / 4) * Choose(kNet, 5);
    if (server_done) status_at = kForever;
  }
  broken_server = a + (Net().notice_ns / 4) * Choose(kNet, 5);
  SIM_LOG("net: stream " + std::to_string(id) + " breaks");
  Changed();
}

bool Conn::ServerDead() const {
  return NowNs() >= broken_server || NowNs() >= cancel_server ||
         (server_ctx && S()->server_cancelled.count(server_ctx));
}

bool Conn::ClientWriteMsg(std::shared_ptr<Message> m) {
  if (client_writes++)
    Violate("W03,S04", "two-concurrent-writes", "stream " + std::to_string(id));
  struct Dec {
    int* p;
    ~Dec() { --*p; }
  } dec{&client_writes};
  const bool dead = cancelled || NowNs() >= broken_client ||
                    NowNs() >= status_at || refused;
  if (m && S()->observer && !dead) {
    NoPreempt np;
    S()->observer->ClientWrite(this, *m);
  }
  while (true) {
    if (cancelled || NowNs() >= broken_client || NowNs() >= status_at ||
        refused) {
      if (m) SIM_LOG("net: client write on dead stream " + std::to_string(id));
      return false;
    }
    if (half_closed)
      Violate("W01,W02,S01", "write-after-writes-done", "stream " + std::to_string(id));
    if (!m || broken || server_done ||
        c2s.size() < static_cast<size_t>(Net().window))
      break;
    Wait(std::min(broken_client, status_at), "client write (flow control)");
  }
  if (m == nullptr) half_closed = true;
  if (broken || server_done) return true;  // lost, not known yet
  int64_t at = std::max(c2s_last, NowNs() + Latency());
  c2s_last = at;
  c2s.push_back({m, at});
  Changed();
  MaybeBreak(this);
  return true;
}

std::shared_ptr<Message> Conn::ClientReadMsg() {
  if (client_reads++)
    Violate("W03,S04", "two-concurrent-reads", "stream " + std::to_string(id));
  struct Dec {
    int* p;
    ~Dec() { --*p; }
  } dec{&client_reads};
  while (true) {
    if (cancelled || refused) return nullptr;
    if (!s2c.empty() && s2c.front().at <= NowNs()) {
      auto m = s2c.front().m;
      s2c.pop_front();
      Changed();
      if (S()->observer) {
        NoPreempt np;
        S()->observer->ClientRead(this, *m);
      }
      return m;
    }
    if (NowNs() >= broken_client) return nullptr;
    if (s2c.empty() && NowNs() >= status_at) return nullptr;
    int64_t t = std::min(broken_client, s2c.empty() ? status_at : s2c.front().at);
    Wait(t, "client read");
  }
}

grpc::Status Conn::ClientFinish() {
  if (client_finished)
    Violate("W03,S04", "finish-called-twice", "stream " + std::to_string(id));
  while (true) {
    if (cancelled && !(s2c.empty() && NowNs() >= status_at)) {
      client_status = grpc::Status(grpc::StatusCode::CANCELLED, "CANCELLED");
      break;
    }
    if (NowNs() >= broken_client) {
      client_status = broken_status;
      break;
    }
    // Messages which were not read keep the call open, unless it failed.
    const bool drained = s2c.empty() || (server_done && !server_status.ok());
    if (drained && NowNs() >= status_at) {
      client_status = server_status;
      break;
    }
    Wait(std::min(broken_client, drained ? status_at : kForever),
         "client finish");
  }
  client_finished = true;
  SIM_LOG("net: stream " + std::to_string(id) + " finished for the client: " +
          std::to_string(client_status.error_code()) + " " +
          client_status.error_message());
  Changed();
  return client_status;
}

void Conn::ClientCancel() {
  if (cancelled || client_finished) return;
  if (s2c.empty() && NowNs() >= status_at) return;
  cancelled = true;
  int64_t a = Cut(&c2s);
  s2c.clear();
  cancel_server = std::max(a, NowNs() + (Net().latency_ns));
  SIM_LOG("net: stream " + std::to_string(id) + " cancelled by the client");
  Changed();
}

void Conn::ClientDestroyed() {
  if (client_gone) return;
  if (client_reads || client_writes)
    Violate("W03,S04", "stream-destroyed-in-use", "stream " + std::to_string(id));
  client_gone = true;
  if (!client_finished) ClientCancel();
  auto it = S()->clients.find(client_ctx);
  if (it != S()->clients.end() && it->second.get() == this)
    S()->clients.erase(it);
  client_ctx = nullptr;
}

std::shared_ptr<Message> Conn::ServerReadMsg(
    const std::function<bool()>& abort) {
  while (true) {
    if (abort && abort()) return nullptr;
    if (!c2s.empty() && c2s.front().at <= NowNs()) {
      auto m = c2s.front().m;
      if (!m) return nullptr;  // half close; stays
      c2s.pop_front();
      Changed();
      if (S()->observer) {
        NoPreempt np;
        S()->observer->ServerRead(this, *m);
      }
      return m;
    }
    if (ServerDead()) return nullptr;
    int64_t t = std::min(broken_server, cancel_server);
    if (!c2s.empty() && c2s.front().at < t) t = c2s.front().at;
    Wait(t, "server read");
  }
}

bool Conn::ServerWriteMsg(std::shared_ptr<Message> m,
                          const std::function<bool()>& abort) {
  while (true) {
    if (ServerDead()) return false;
    if (broken || cancelled || s2c.size() < static_cast<size_t>(Net().window))
      break;
    Wait(std::min(broken_server, cancel_server), "server write (flow control)");
  }
  if (S()->observer) {
    NoPreempt np;
    S()->observer->ServerWrite(this, *m);
  }
  if (broken || cancelled) return true;
  int64_t at = std::max(s2c_last, NowNs() + Latency());
  s2c_last = at;
  s2c.push_back({m, at});
  Changed();
  MaybeBreak(this);
  return true;
}

void Conn::ServerFinish(const grpc::Status& s) {
  server_done = true;
  server_status = s;
  c2s.clear();
  SIM_LOG("net: server ends stream " + std::to_string(id) + ": " +
          std::to_string(s.error_code()) + " " + s.error_message());
  if (S()->observer) {
    NoPreempt np;
    S()->observer->ServerDone(this, s);
  }
  if (!broken && !cancelled) status_at = std::max(s2c_last, NowNs() + Latency());
  Changed();
}

void BreakAll(Endpoint* ep) {
  for (auto& c : S()->conns)
    if (c->ep == ep && !c->client_finished && !c->refused) c->Break();
}

void BreakSome(int stream) {
  std::vector<Conn*> open;
  for (auto& c : S()->conns)
    if (!c->broken && !c->client_finished && !c->server_done && !c->cancelled)
      open.push_back(c.get());
  if (open.empty()) return;
  Fault("stream-broken");
  open[Choose(stream, open.size())]->Break();
}

void NodeDied(int node) {
  for (auto& c : S()->conns) {
    if (c->client_node == node || (c->ep && c->ep->node == node)) {
      c->Break();
      if (c->ep->node == node && !c->server_done) {
        c->server_done = true;
        c->status_at = kForever;
        if (c->broken_client == kForever) c->broken_client = NowNs();
      }
    }
  }
}

void EndpointChanged(Endpoint* ep) {
  std::vector<Fiber*> w;
  w.swap(ep->waiting);
  for (Fiber* f : w) Wake(f);
}

bool WaitHandlers(Endpoint* ep, int64_t timeout_ns) {
  const int64_t deadline =
      timeout_ns == kForever ? kForever : NowNs() + timeout_ns;
  while (ep->handlers > 0) {
    if (NowNs() >= deadline) return false;
    ep->waiting.push_back(Self());
    BlockUntil(deadline, "server handlers");
    for (size_t i = 0; i < ep->waiting.size(); i++)
      if (ep->waiting[i] == Self()) {
        ep->waiting.erase(ep->waiting.begin() + i);
        break;
      }
  }
  return true;
}

std::shared_ptr<rv::ReverbService::StubInterface> MakeStub(Endpoint* ep) {
  return std::make_shared<SimStub>(ep);
}

void SetListener(Endpoint* ep) { g_listener = ep; }

void CancelClientContext(grpc::ClientContext* c) {
  if (!Active()) return;
  auto it = S()->clients.find(c);
  if (it == S()->clients.end()) {
    S()->cancelled_early.insert(c);
    return;
  }
  it->second->ClientCancel();
}

void ClientContextDestroyed(grpc::ClientContext* c) {
  if (Active()) S()->cancelled_early.erase(c);
}

bool ServerContextCancelled(const grpc::ServerContextBase* c) {
  if (!Active()) return false;
  auto it = S()->servers.find(c);
  return it != S()->servers.end() && it->second->ServerDead();
}

void CancelServerContext(const grpc::ServerContextBase* c) {
  if (Active()) S()->server_cancelled.insert(c);
}

std::string ServerContextPeer(const grpc::ServerContextBase* c) {
  auto it = S()->servers.find(c);
  if (it == S()->servers.end()) return "unknown";
 return it->second->same_machine
             ? "ipv4:127.0.0.1:4711"
             : "ipv4:10.0.0.7:4711";
}

void WarmUp() {
  // First uses of library statics, before the runs are forked.
  S();
  {
    grpc::ClientContext c;
    c.set_wait_for_ready(true);
    grpc::ServerContext s;
    grpc::CallbackServerContext cs;
  }
  tensorflow::Tensor t(tensorflow::DT_FLOAT, {3, 2});
  t.flat<float>().setConstant(1.5f);
  rv::ChunkData d;
  rv::CompressTensorAsProto(t, d.mutable_data()->add_tensors());
  auto u = rv::DecompressTensorFromProto(d.data().tensors(0));
  d.DebugString();
  // Descriptors are built on first use, which could be a message to log.
  {
    rv::MutatePrioritiesRequest q;
    q.set_table("t");
    q.add_updates()->set_priority(1.5);
    q.add_delete_keys(1);
    q.ShortDebugString();
    rv::SampleStreamRequest s;
    s.set_table("t");
    s.mutable_rate_limiter_timeout()->set_milliseconds(1);
    s.ShortDebugString();
    rv::InsertStreamRequest i;
    i.add_chunks()->set_chunk_key(1);
    i.mutable_item()->mutable_item()->mutable_flat_trajectory()->add_columns();
    i.ShortDebugString();
    rv::ServerInfoResponse r;
    rv::TableInfo* t = r.add_table_info();
    t->mutable_rate_limiter_info()->mutable_insert_stats()
        ->mutable_completed_wait_time()->set_seconds(1);
    t->mutable_sampler_options()->mutable_heap()->set_min_heap(true);
    t->mutable_signature()->mutable_list_value()->add_values()
        ->mutable_tensor_spec_value()->set_name("n");
    r.ShortDebugString();
    rv::PriorityTableCheckpoint c;
    c.add_items()->mutable_inserted_at()->set_seconds(1);
    c.mutable_rate_limiter()->set_min_diff(1.5);
    c.ShortDebugString();
  }
  RegisterSimDisk();
}
}  // namespace reverbsim

namespace simgrpc {
using reverbsim::Endpoint;

std::unique_ptr<Server> ServerBuilder::BuildAndStart() {
  Endpoint* ep = reverbsim::g_listener;
  if (!ep || !service_) return nullptr;
  ep->sync = service_;
  return std::make_unique<Server>(ep);
}

void Server::Shutdown() { Shutdown(INT64_MAX); }

void Server::Shutdown(int64_t wall_ns) {
  using namespace reverbsim;
  Point();
  down_ = true;
  ep_->up = false;
  EndpointChanged(ep_);
  const int64_t left =
      wall_ns == INT64_MAX ? kForever
                           : std::max<int64_t>(0, wall_ns - WallNs());
  if (left != 0 && !WaitHandlers(ep_, left)) Probe("calls-at-shutdown-deadline");
  BreakAll(ep_);
  if (!WaitHandlers(ep_, 20000000000)) {
    std::string open;
    for (auto& c : Connections())
      if (c->ep == ep_ && !c->refused && !c->server_done)
        open += " " + std::to_string(c->id) + "(kind " +
                std::to_string(c->kind) + ")";
    Violate("V01", "handler-never-ends",
            "calls that never end although they are broken and the server "
            "shuts down:" + open);
  }
  ep_->sync = nullptr;
  done_ = true;
  EndpointChanged(ep_);
}

void Server::Wait() {
  using namespace reverbsim;
  Point();
  while (!done_) {
    ep_->waiting.push_back(Self());
    BlockUntil(kForever, "server shutdown");
  }
}

Server::~Server() {
  if (!done_) Shutdown(int64_t{0});
}
}  // namespace simgrpc

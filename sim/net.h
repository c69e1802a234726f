// Simulated transport: gRPC stubs, streams and server-side calls.
//
// Clients get a SimStub, a ReverbService::StubInterface whose calls travel over
// simulated connections; servers are the real service objects, whose handlers
// run on fibers of the server's node. Latencies, stream breaks, lost messages,
// refused connections and crashes are choices of the kNet stream.
#ifndef VERIF_SIM_NET_H_
#define VERIF_SIM_NET_H_

#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "sim/sim.h"

#ifdef VERIF_SIM_NET_FULL
#include "grpcpp/grpcpp.h"
#include "reverb/cc/reverb_service.grpc.pb.h"
#endif

namespace grpc {
class ClientContext;
class ServerContextBase;
}
namespace deepmind {
namespace reverb {
class ReverbServiceImpl;
class ReverbServiceAsyncImpl;
}
}

namespace reverbsim {
void CancelClientContext(grpc::ClientContext* c);
void ClientContextDestroyed(grpc::ClientContext* c);
bool ServerContextCancelled(const grpc::ServerContextBase* c);
void CancelServerContext(const grpc::ServerContextBase* c);
std::string ServerContextPeer(const grpc::ServerContextBase* c);

struct NetConfig {
  int64_t latency_ns = 20000;
  int64_t jitter_ns = 20000;
  int slow_permille = 0;         // per message
  int64_t slow_ns = 5000000;
  int break_permille = 0;        // per message sent, stream breaks
  int refuse_permille = 0;       // per stream or call
  int outage_permille = 0;       // per break: the server is unreachable then
  int64_t outage_ns = 20000000;
  int lose_unary_permille = 0;   // per call
  int64_t notice_ns = 3000000;   // how late a side may learn of a break
  int window = 8;                // unread messages until a write blocks
};
NetConfig& Net();
void RandomNet(bool faults);
// No further faults (the configuration's rates become zero).
void StopNetFaults();

#ifdef VERIF_SIM_NET_FULL
namespace rv = deepmind::reverb;

enum ConnKind { kInsertConn, kSampleConn, kInitConn, kUnaryConn };

// Where a server runs. Survives restarts of the service behind it.
struct Endpoint {
  int node = 1;
  bool up = true;
  int64_t unreachable_until = 0;
  rv::ReverbServiceImpl* sync = nullptr;
  rv::ReverbServiceAsyncImpl* async = nullptr;
  int generation = 0;
  int handlers = 0;            // calls whose handler has not returned
  std::vector<Fiber*> waiting;
};

struct Conn;
// A unary call at the server.
struct UnaryCall {
  std::string method;
  int id = 0;
  int client_node = 0;
  const google::protobuf::Message* req = nullptr;
  const google::protobuf::Message* resp = nullptr;   // at the end
  grpc::Status status;                               // at the end
};
// What travels, for the scenario's oracle. Called without preemption.
struct NetObserver {
  virtual ~NetObserver() {}
  virtual void ClientWrite(Conn* c, const google::protobuf::Message& m) {}
  virtual void ServerRead(Conn* c, const google::protobuf::Message& m) {}
  virtual void ServerWrite(Conn* c, const google::protobuf::Message& m) {}
  virtual void ClientRead(Conn* c, const google::protobuf::Message& m) {}
  virtual void ServerDone(Conn* c, const grpc::Status& s) {}
  virtual void Opened(Conn* c) {}
  // On the caller's fiber, when it sends the request.
  virtual void UnarySent(UnaryCall* c) {}
  // On the handler's fiber, before and after the handler.
  virtual void UnaryStart(UnaryCall* c) {}
  virtual void UnaryEnd(UnaryCall* c) {}
};
void SetNetObserver(NetObserver* o);

struct NetMsg {
  std::shared_ptr<google::protobuf::Message> m;  // null: end marker
  int64_t at;
};

struct Conn {
  int id = 0;
  ConnKind kind = kInsertConn;
  Endpoint* ep = nullptr;
  int client_node = 0;
  bool same_machine = false;
  int generation = 0;
  grpc::ClientContext* client_ctx = nullptr;
  const grpc::ServerContextBase* server_ctx = nullptr;
  std::deque<NetMsg> c2s, s2c;
  int64_t c2s_last = 0, s2c_last = 0;
  bool half_closed = false;       // client called WritesDone
  bool server_done = false;       // handler returned or Finish called
  bool callback_done = false;     // async: OnDone delivered
  grpc::Status server_status;
  int64_t status_at = kForever;   // when the client may see it
  bool broken = false;
  bool refused = false;
  int64_t broken_client = kForever, broken_server = kForever;
  grpc::Status broken_status;
  bool cancelled = false;         // by the client
  int64_t cancel_server = kForever;
  bool client_gone = false;       // the client's stream object is gone
  bool client_finished = false;
  grpc::Status client_status;
  int client_reads = 0, client_writes = 0;  // concurrent calls, misuse check
  std::vector<Fiber*> waiters;
  void* user = nullptr;           // for the observer
  void* writer_tag = nullptr;

  void Changed();
  void Wait(int64_t until, const char* why);
  void Break();
  bool ServerDead() const;        // the server knows that the call is over
  bool ClientWriteMsg(std::shared_ptr<google::protobuf::Message> m);
  std::shared_ptr<google::protobuf::Message> ClientReadMsg();
  grpc::Status ClientFinish();
  void ClientCancel();
  void ClientDestroyed();
  // `abort` ends the wait early.
  std::shared_ptr<google::protobuf::Message> ServerReadMsg(
      const std::function<bool()>& abort);
  bool ServerWriteMsg(std::shared_ptr<google::protobuf::Message> m,
                      const std::function<bool()>& abort);
  void ServerFinish(const grpc::Status& s);
};

std::shared_ptr<rv::ReverbService::StubInterface> MakeStub(Endpoint* ep);
std::vector<std::shared_ptr<Conn>>& Connections();
// Breaks all streams of the endpoint (server or client process died, or
// network failure).
void BreakAll(Endpoint* ep);
void NodeDied(int node);
void EndpointChanged(Endpoint* ep);
// Waits until no handler of the endpoint runs. Returns false on timeout.
bool WaitHandlers(Endpoint* ep, int64_t timeout_ns);
// Breaks one open stream chosen by `stream`, if any.
void BreakSome(int stream);
#endif

void WarmUp();
}  // namespace reverbsim
#endif

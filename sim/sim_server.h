// What platform/default/server.cc needs of gRPC's servers, in the simulated
// network.
#ifndef VERIF_SIM_SIM_SERVER_H_
#define VERIF_SIM_SIM_SERVER_H_
#include <atomic>
#include <chrono>
#include <memory>
#include <string>

#include "grpcpp/grpcpp.h"

namespace deepmind {
namespace reverb {
class ReverbServiceImpl;
}
}  // namespace deepmind
namespace reverbsim {
struct Endpoint;
// Servers which are built from now on are at this endpoint.
void SetListener(Endpoint* ep);
}

namespace simgrpc {
using namespace ::grpc;

class Server {
 public:
  explicit Server(reverbsim::Endpoint* ep) : ep_(ep) {}
  ~Server();
  // Ends like gRPC's servers: no further calls, those under way are broken at
  // the deadline, returns when their handlers have returned.
  template <class T>
  void Shutdown(const T& deadline) {
    Shutdown(std::chrono::duration_cast<std::chrono::nanoseconds>(
                 deadline.time_since_epoch())
                 .count());
  }
  void Shutdown();
  void Shutdown(int64_t wall_ns);
  void Wait();
  std::shared_ptr<::grpc::Channel> InProcessChannel(
      const ::grpc::ChannelArguments&) {
    return nullptr;
  }

 private:
  reverbsim::Endpoint* ep_;
  bool down_ = false, done_ = false;
};

class ServerBuilder {
 public:
  ServerBuilder& AddListeningPort(const std::string& addr,
                                  std::shared_ptr<::grpc::ServerCredentials>,
                                  int* port = nullptr) {
    return *this;
  }
  ServerBuilder& RegisterService(deepmind::reverb::ReverbServiceImpl* s) {
    service_ = s;
    return *this;
  }
  ServerBuilder& SetMaxSendMessageSize(int) { return *this; }
  ServerBuilder& SetMaxReceiveMessageSize(int) { return *this; }
  ServerBuilder& SetMaxMessageSize(int) { return *this; }
  std::unique_ptr<Server> BuildAndStart();

 private:
  deepmind::reverb::ReverbServiceImpl* service_ = nullptr;
};
}  // namespace simgrpc
#endif

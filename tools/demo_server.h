// A server in the demonstration's own process.
#pragma once
#include "demo_util.h"
#include "grpcpp/grpcpp.h"
#include "reverb/cc/client.h"
#include "reverb/cc/reverb_service.grpc.pb.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/trajectory_writer.h"
#include "reverb/cc/writer.h"
#include "tensorflow/core/framework/tensor.h"

struct DemoServer {
  std::unique_ptr<rv::ReverbServiceImpl> sync_service;
  std::unique_ptr<rv::ReverbServiceAsyncImpl> async_service;
  std::unique_ptr<grpc::Server> server;
  std::shared_ptr<rv::ReverbService::StubInterface> stub;

  DemoServer(std::vector<std::shared_ptr<rv::Table>> tables, bool async) {
    grpc::Service* s;
    if (async) {
      EXPECT(rv::ReverbServiceAsyncImpl::Create(tables, &async_service).ok(),
             "no service");
      s = async_service.get();
    } else {
      EXPECT(rv::ReverbServiceImpl::Create(tables, &sync_service).ok(),
             "no service");
      s = sync_service.get();
    }
    Start(s);
  }
  explicit DemoServer(grpc::Service* s) { Start(s); }
  void Start(grpc::Service* s) {
    grpc::ServerBuilder b;
    b.RegisterService(s);
    b.SetMaxReceiveMessageSize(-1);
    b.SetMaxSendMessageSize(-1);
    int port = 0;
    b.AddListeningPort("127.0.0.1:0", grpc::InsecureServerCredentials(), &port);
    server = b.BuildAndStart();
    EXPECT(server != nullptr, "server does not start");
    grpc::ChannelArguments a;
    a.SetMaxReceiveMessageSize(-1);
    a.SetMaxSendMessageSize(-1);
    stub = rv::ReverbService::NewStub(grpc::CreateCustomChannel(
        "127.0.0.1:" + std::to_string(port), grpc::InsecureChannelCredentials(),
        a));
  }
};

inline std::shared_ptr<rv::Table> DemoTable(
    double min_diff = -1e9, double max_diff = 1e9, int64_t max_size = 1000,
    int max_times = 0) {
  return std::make_shared<rv::Table>(
      "dist", std::make_shared<rv::FifoSelector>(),
      std::make_shared<rv::FifoSelector>(), max_size, max_times,
      std::make_shared<rv::RateLimiter>(1.0, 1, min_diff, max_diff));
}

// Runs f; the demonstration fails if it does not return in time.
inline void Within(absl::Duration d, const char* what,
                   const std::function<void()>& f) {
  auto done = std::make_shared<std::atomic<bool>>(false);
  std::thread([=] {
    f();
    *done = true;
  }).detach();
  EXPECT(WaitUntil([&] { return done->load(); }, d), "%s does not return",
         what);
}

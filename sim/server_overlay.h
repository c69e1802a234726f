// Included before reverb's platform/default/server.cc: the server it builds
// listens in the simulated network.
#ifndef VERIF_SIM_SERVER_OVERLAY_H_
#define VERIF_SIM_SERVER_OVERLAY_H_
#include <atomic>
#include <chrono>
#include <csignal>
#include <functional>
#include <memory>
#include <string>

#include "grpcpp/grpcpp.h"
#include "grpcpp/server_builder.h"
#include "absl/strings/str_cat.h"
#include "reverb/cc/checkpointing/interface.h"
#include "reverb/cc/client.h"
#include "reverb/cc/platform/grpc_utils.h"
#include "reverb/cc/platform/logging.h"
#include "reverb/cc/platform/server.h"
#include "reverb/cc/platform/status_macros.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/support/periodic_closure.h"
#include "sim/sim_server.h"
#define grpc simgrpc
#define MakeServerCredentials() (std::shared_ptr<::simgrpc::ServerCredentials>())
#endif

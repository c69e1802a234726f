// Link-time seams: symbols defined here take precedence over those of the
// shared libraries.
#include <chrono>
#include <cstdint>

#include "grpcpp/grpcpp.h"
#include "sim/net.h"
#include "sim/sim.h"

// Real clock used by reverb/cc/client.cc for gRPC deadlines.
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(
      chrono::duration_cast<duration>(chrono::nanoseconds(reverbsim::WallNs())));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace grpc {
void ClientContext::TryCancel() { reverbsim::CancelClientContext(this); }
bool ServerContextBase::IsCancelled() const {
  return reverbsim::ServerContextCancelled(this);
}
void ServerContextBase::TryCancel() const {
  reverbsim::CancelServerContext(this);
}
std::string ServerContextBase::peer() const {
  return reverbsim::ServerContextPeer(this);
}
}  // namespace grpc

// Seed of absl's hash functions: the address of this variable, which would
// otherwise differ between processes.
asm(R"(
.section .rodata
.globl _ZN4absl12lts_2022062313hash_internal15MixingHashState5kSeedE
.type _ZN4absl12lts_2022062313hash_internal15MixingHashState5kSeedE,@object
.size _ZN4absl12lts_2022062313hash_internal15MixingHashState5kSeedE,8
.align 8
_ZN4absl12lts_2022062313hash_internal15MixingHashState5kSeedE:
  .quad 0x5eed5eed5eed5eed
.text
)");

// Every simulated node is a process of its own.
#include <sys/syscall.h>
#include <unistd.h>
extern "C" pid_t getpid() noexcept {
  if (reverbsim::Active()) return 1000 + reverbsim::CurrentNode();
  return syscall(SYS_getpid);
}

// A context that is gone leaves nothing behind for one at the same address.
#include <dlfcn.h>
extern "C" void SimClientContextDestroyed(void* self) asm(
    "_ZN4grpc13ClientContextD1Ev");
extern "C" void SimClientContextDestroyed(void* self) {
  static auto original = reinterpret_cast<void (*)(void*)>(
      dlsym(RTLD_NEXT, "_ZN4grpc13ClientContextD1Ev"));
  reverbsim::ClientContextDestroyed(static_cast<grpc::ClientContext*>(self));
  original(self);
}

#ifndef VERIF_SIM_INTERNAL_H_
#define VERIF_SIM_INTERNAL_H_
#include <map>
#include <string>
#include <vector>
#include "sim/sim.h"

namespace reverbsim {

struct ChoiceRec {
  uint32_t stream;
  uint32_t index;
  uint64_t value;
};
constexpr int kMaxStreams = 64;
constexpr size_t kMaxChoices = 400000;
constexpr size_t kMaxMsg = 16384;
constexpr size_t kMaxCounters = 256;
constexpr size_t kMaxLog = 2 << 20;

enum RunStatus : int {
  kNotRun = 0,
  kOk = 1,
  kViolation = 2,
  kSimError = 3,   // a defect of the harness
  kRunning = 4,
  kForeign = 5,    // ended by a crash/hang that does not concern the property
};

// Shared between the forked child and its worker.
struct SharedResult {
  int status;
  uint64_t hash;
  uint64_t interleaving;
  uint64_t steps;
  uint64_t switches;
  int64_t sim_ns;
  int fibers;
  int foreign;           // violations of properties not being checked
  char props[256];
  char cls[256];
  char msg[kMaxMsg];
  char foreign_cls[256];
  char foreign_props[256];
  int n_counters;
  struct {
    char name[56];
    uint64_t value;
  } counters[kMaxCounters];
  size_t n_choices;
  bool choices_truncated;
  ChoiceRec choices[kMaxChoices];
  size_t log_len;
  char log[kMaxLog];
};

struct RunSpec {
  ScenarioFn fn = nullptr;
  std::string property;
  uint64_t seed = 0;
  bool replay = false;
  std::vector<ChoiceRec> choices;  // for replay
  bool verbose = false;
  std::set<std::string> known;     // known finding classes ("T02:cls")
};

// Runs the scenario in the current (child) process; never returns.
[[noreturn]] void ExecuteRun(const RunSpec& spec, SharedResult* out);

const std::map<std::string, ScenarioFn>& Scenarios();

}  // namespace reverbsim
#endif

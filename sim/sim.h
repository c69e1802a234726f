// Deterministic simulator: fibers, scheduler, simulated clock, choices.
//
// Everything runs on one OS thread. Every decision of a run is made by
// Choose(); the list of its non-zero results, together with the seed for the
// library's own random generators, is the run's replay trace.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_

#include <cstddef>
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace reverbsim {

// ---------------------------------------------------------------- choices
// Streams of choices. Each has its own position counter, so that dropping a
// decision of one stream does not shift the decisions of the others.
enum Stream : int {
  kSched = 0,   // which fiber continues
  kMem = 1,     // preemption at plain memory accesses
  kNet = 2,     // transport faults and delays
  kDisk = 3,    // file system faults
  kTime = 4,    // clock jumps, spurious wakeups
  kCfg = 5,     // configuration of the run
  kWork = 6,    // workload of the main fiber; clients use kWork + 1 + i
};

// Uniform in [0, n). 0 is the benign choice. n == 0 is treated as 1.
uint64_t Choose(int stream, uint64_t n);
// True with probability permille / 1000; false is benign.
bool Flip(int stream, int permille);
// Picks an index with the given weights; index 0 is the benign one.
int Weighted(int stream, std::initializer_list<int> weights);

// Unrecorded pseudo-random numbers for the library's generators: a pure
// function of the run's seed and the construction order.
uint64_t LibrarySeed();

// ---------------------------------------------------------------- time
int64_t NowNs();      // monotonic simulated time since the start of the run
int64_t WallNs();     // wall clock (Unix time)
void JumpWallClock(int64_t ns);
bool WallClockJumped();  // in this run
void SleepNs(int64_t ns);
constexpr int64_t kForever = INT64_MAX;

// ---------------------------------------------------------------- fibers
struct Fiber;
Fiber* Spawn(const std::string& name, std::function<void()> fn);
void Join(Fiber* f);
bool Done(Fiber* f);
void Point();              // a preemption point
int FiberId();             // id of the running fiber
const char* FiberName();
uint64_t Step();           // global step counter
// Node tags: fibers spawned inherit the node of their creator. Killing a node
// means none of its fibers ever runs again.
int CurrentNode();
void SetNode(int node);
void KillNode(int node);
// Per-fiber slot the harness may use (its "current operation").
void*& FiberSlot();
// True once the simulation is running (false in the zygote).
bool Active();
// Blocks until nothing but the caller can run without time passing.
// `ns` bounds the simulated time to wait; returns true if quiescent.
bool Quiesce();
// Suspends/resumes preemption at points for the current fiber (for oracles).
struct NoPreempt {
  NoPreempt();
  ~NoPreempt();
};
// Names of fibers that are blocked, for reports.
std::string BlockedFibers();

// Low level: blocks the current fiber until Wake or until deadline_ns
// (NowNs scale). Returns true if woken by the timer.
struct Waiter {
  Fiber* fiber = nullptr;
  bool signalled = false;
};
bool BlockUntil(int64_t deadline_ns, const char* why);
void Wake(Fiber* f);
Fiber* Self();

// ---------------------------------------------------------------- config
struct RunConfig {
  int64_t step_ns = 1000;      // simulated cost of one step
  int strategy = 0;            // 0 random walk, 1 PCT
  int switch_permille = 100;   // random walk
  int pct_depth = 3;
  int stall_permille = 0;      // per 1000 points, chance (x1/10) of a stall
  int64_t max_stall_ns = INT64_MAX;
  int spurious_permille = 0;   // condvar spurious wakeups
  int mem_mean = 0;            // mean accesses between memory preemptions
  uint64_t max_steps = 400000;
};
RunConfig& Config();
// Turns preemption at plain memory accesses of instrumented code on and off.
// Ends all injected stalls and injects no more.
void StopStalls();
void EnableMemPreemption();
void DisableMemPreemption();
// Draws a random scheduling configuration from kCfg.
void RandomSchedule(bool stalls, bool exact_time);

// ---------------------------------------------------------------- reports
// Reports that the properties in `props` ("T04,T06") are violated; `cls` is a
// stable class name, `msg` the details. If the property being checked is in
// the list the run ends, otherwise the violation is counted and the run goes on.
void Violate(const std::string& props, const std::string& cls,
             const std::string& msg);
#define SIM_CHECK(cond, props, cls, msg)                          \
  do {                                                            \
    if (!(cond)) ::reverbsim::Violate(props, cls, msg);           \
  } while (0)
// Ends the run at once without a violation (e.g. workload inapplicable).
[[noreturn]] void EndRun();
// The event log; hashed always, kept as text when requested.
bool Verbose();
void Log(const std::string& line);
// Allocations in its scope do not come from the arena, so that producing text
// does not change the addresses of anything else.
struct PlainAlloc {
  NoPreempt np;
  int64_t countdown;  // accesses made in the scope do not count
  PlainAlloc();
  ~PlainAlloc();
};
#define SIM_LOG(expr)                        \
  do {                                       \
    if (::reverbsim::Verbose()) {            \
      ::reverbsim::PlainAlloc plain_alloc_;  \
      ::reverbsim::Log(expr);                \
    }                                        \
  } while (0)
void LogHash(uint64_t v);
// Counters shown in evidence: "fault:<kind>", "probe:<name>", ...
void Count(const std::string& name, uint64_t n = 1);
// A fault that was actually injected.
inline void Fault(const std::string& kind) { Count("fault:" + kind); }
inline void Probe(const std::string& name) { Count("probe:" + name); }
// Properties for which a hang/crash of this scenario counts.
void SetHangProps(const std::string& props);
const std::string& CheckedProperty();
bool IsChecked(const std::string& prop);

// ---------------------------------------------------------------- scenarios
using ScenarioFn = void (*)();
struct Scenario {
  const char* name;
  ScenarioFn fn;
};
void RegisterScenario(const char* name, ScenarioFn fn);
struct ScenarioRegistrar {
  ScenarioRegistrar(const char* name, ScenarioFn fn) {
    RegisterScenario(name, fn);
  }
};
#define SCENARIO(name)                                              \
  static void Scenario_##name();                                    \
  static ::reverbsim::ScenarioRegistrar registrar_##name(#name,     \
                                                         &Scenario_##name); \
  static void Scenario_##name()

}  // namespace reverbsim

#endif  // VERIF_SIM_H_

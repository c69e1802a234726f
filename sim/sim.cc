#include "sim/sim.h"

#include <execinfo.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <initializer_list>
#include <map>
#include <queue>

#include "sim/sim_internal.h"
#include "sim/sync.h"

namespace reverbsim {

// ------------------------------------------------------------------ state
enum FState { kRunnableS, kBlockedS, kDoneS, kDeadS };

struct Fiber {
  int id;
  std::string name;
  int node = 0;
  FState state = kRunnableS;
  void* sp = nullptr;
  char* stack = nullptr;
  std::function<void()> fn;
  int64_t deadline = kForever;  // when blocked
  bool timed_out = false;
  const char* why = "";
  uint64_t timer_gen = 0;
  std::vector<Fiber*> joiners;
  double prio = 0;
  int no_preempt = 0;
  void* slot = nullptr;
  bool stalled = false;
};

namespace {

constexpr size_t kStackSize = 512 * 1024;

struct Timer {
  int64_t at;
  uint64_t seq;
  Fiber* f;
  uint64_t gen;
  bool operator>(const Timer& o) const {
    return at != o.at ? at > o.at : seq > o.seq;
  }
};

struct StreamState {
  uint64_t rng = 0;
  uint32_t index = 0;
  size_t replay_pos = 0;
  std::vector<std::pair<uint32_t, uint64_t>> replay;
};

struct State {
  bool active = false;
  const RunSpec* spec = nullptr;
  SharedResult* out = nullptr;
  RunConfig cfg;
  std::vector<Fiber*> fibers;
  Fiber* current = nullptr;
  std::deque<Fiber*> runnable;  // excluding current
  std::priority_queue<Timer, std::vector<Timer>, std::greater<Timer>> timers;
  uint64_t timer_seq = 0;
  int64_t now = 0;
  int64_t wall_offset = 1600000000LL * 1000000000LL;
  bool wall_jumped = false;
  uint64_t steps = 0, switches = 0;
  uint64_t hash = 1469598103934665603ull;
  uint64_t inter = 1469598103934665603ull;
  StreamState streams[kMaxStreams];
  uint64_t libseed = 0, libcount = 0;
  std::map<std::string, uint64_t> counters;
  std::string hang_props = "";
  Fiber* quiesce = nullptr;   // fiber waiting for quiescence
  int stalled = 0;            // fibers an injected stall keeps from running
  // Not a vector: replays must allocate exactly what the original does.
  uint64_t pct_points[8] = {};
  double pct_low = 0;
  bool ending = false;
};
State* g = nullptr;
int g_stderr = 2;

inline uint64_t Mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t Next(uint64_t* s) {
  *s += 0x9E3779B97F4A7C15ull;
  uint64_t z = *s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline void HashIn(uint64_t* h, uint64_t v) {
  *h = (*h ^ v) * 1099511628211ull;
  *h ^= *h >> 29;
}

// Core: returns recorded value in replay, otherwise gen() and records.
template <typename Gen>
uint64_t Decide(int stream, Gen gen) {
  StreamState& s = g->streams[stream];
  const uint32_t idx = s.index++;
  uint64_t v = 0;
  if (g->spec->replay) {
    while (s.replay_pos < s.replay.size() &&
           s.replay[s.replay_pos].first < idx)
      s.replay_pos++;
    if (s.replay_pos < s.replay.size() &&
        s.replay[s.replay_pos].first == idx)
      v = s.replay[s.replay_pos].second;
  } else {
    v = gen(&s.rng);
  }
  if (v != 0) {
    SharedResult* o = g->out;
    if (o->n_choices < kMaxChoices) {
      o->choices[o->n_choices++] = {static_cast<uint32_t>(stream), idx, v};
    } else {
      o->choices_truncated = true;
    }
  }
  HashIn(&g->hash, v * 64 + stream);
  return v;
}

[[noreturn]] void Finish(int status) {
  SharedResult* o = g->out;
  o->hash = g->hash;
  o->interleaving = g->inter;
  o->steps = g->steps;
  o->switches = g->switches;
  o->sim_ns = g->now;
  o->fibers = g->fibers.size();
  int n = 0;
  for (auto& [k, v] : g->counters) {
    if (n >= static_cast<int>(kMaxCounters)) break;
    strncpy(o->counters[n].name, k.c_str(), sizeof(o->counters[n].name) - 1);
    o->counters[n].value = v;
    n++;
  }
  o->n_counters = n;
  o->status = status;
  _exit(0);
}

void SetStr(char* dst, size_t n, const std::string& s) {
  size_t l = std::min(n - 1, s.size());
  memcpy(dst, s.data(), l);
  dst[l] = 0;
}

[[noreturn]] void EndWithViolation(const std::string& props,
                                   const std::string& cls,
                                   const std::string& msg, int status) {
  SetStr(g->out->props, sizeof(g->out->props), props);
  SetStr(g->out->cls, sizeof(g->out->cls), cls);
  SetStr(g->out->msg, sizeof(g->out->msg), msg);
  SIM_LOG("VIOLATION " + props + " " + cls + ": " + msg);
  Finish(status);
}

bool PropsContain(const std::string& props, const std::string& p) {
  if (props == "*") return true;
  size_t i = 0;
  while (i <= props.size()) {
    size_t j = props.find(',', i);
    if (j == std::string::npos) j = props.size();
    if (props.compare(i, j - i, p) == 0) return true;
    i = j + 1;
  }
  return false;
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

char* g_stack_base = nullptr;
size_t g_stack_next = 0;
constexpr uintptr_t kStackArena = 0x200000000000ull;
constexpr size_t kMaxFibers = 512;

std::vector<char*>* g_free_stacks;

char* NewStack() {
  if (g_free_stacks && !g_free_stacks->empty()) {
    char* s = g_free_stacks->back();
    g_free_stacks->pop_back();
    return s;
  }
  if (!g_stack_base) {
    g_stack_base = static_cast<char*>(
        mmap(reinterpret_cast<void*>(kStackArena), kStackSize * kMaxFibers,
             PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
             -1, 0));
  }
  if (g_stack_next >= kMaxFibers) {
    EndWithViolation("", "too-many-fibers", "", kSimError);
  }
  return g_stack_base + kStackSize * g_stack_next++;
}

void FireTimers() {
  while (!g->timers.empty() && g->timers.top().at <= g->now) {
    Timer t = g->timers.top();
    g->timers.pop();
    if (t.f->state == kBlockedS && t.f->timer_gen == t.gen) {
      t.f->timed_out = true;
      t.f->deadline = kForever;
      t.f->timer_gen++;
      t.f->state = kRunnableS;
      g->runnable.push_back(t.f);
    }
  }
}

// Drops stale timers; returns the next firing time.
int64_t NextTimer() {
  while (!g->timers.empty()) {
    const Timer& t = g->timers.top();
    if (t.f->state == kBlockedS && t.f->timer_gen == t.gen) return t.at;
    g->timers.pop();
  }
  return kForever;
}

void SwitchTo(Fiber* f) {
  Fiber* prev = g->current;
  g->current = f;
  g->switches++;
  HashIn(&g->inter, f->id);
  HashIn(&g->hash, f->id);
  if (prev == f) return;
  sim_switch(&prev->sp, f->sp);
}

// Picks the next fiber among runnable (current is blocked or done).
void ScheduleAway() {
  while (g->runnable.empty()) {
    if (g->quiesce && g->stalled == 0) {
      Fiber* q = g->quiesce;
      g->quiesce = nullptr;
      q->timer_gen++;
      q->deadline = kForever;
      q->timed_out = false;
      q->state = kRunnableS;
      g->runnable.push_back(q);
      break;
    }
    int64_t t = NextTimer();
    if (t == kForever) {
      EndWithViolation(g->hang_props, "hang",
                       "no fiber can make progress; blocked: " +
                           BlockedFibers(),
                       kViolation);
    }
    if (t > g->now) g->now = t;
    FireTimers();
  }
  size_t n = g->runnable.size();
  size_t k = 0;
  if (n > 1) {
    k = Decide(kSched, [&](uint64_t* r) -> uint64_t {
          if (g->cfg.strategy == 1) {
            size_t best = 0;
            for (size_t i = 1; i < n; i++)
              if (g->runnable[i]->prio > g->runnable[best]->prio) best = i;
            return best;
          }
          return Next(r) % n;
        }) % n;
  }
  Fiber* f = g->runnable[k];
  g->runnable.erase(g->runnable.begin() + k);
  SwitchTo(f);
}

void CheckSteps() {
  if (++g->steps > g->cfg.max_steps) {
    EndWithViolation(g->hang_props, "livelock",
                     "step limit exceeded; blocked: " + BlockedFibers(),
                     kViolation);
  }
}

void PctTick() {
  if (g->cfg.strategy != 1 || g->spec->replay) return;
  // No fiber that spins keeps the others from running for ever.
  if (g->steps % 3000 == 0) g->current->prio = --g->pct_low;
  for (uint64_t p : g->pct_points) {
    if (p == g->steps) {
      g->current->prio = --g->pct_low;
    }
  }
}

extern "C" void sim_fiber_main() {
  Fiber* f = g->current;
  f->fn();
  f->fn = nullptr;
  f->state = kDoneS;
  for (Fiber* j : f->joiners) Wake(j);
  f->joiners.clear();
  if (f->stack) {  // nothing reuses it before the switch below
    if (!g_free_stacks) g_free_stacks = new std::vector<char*>;
    g_free_stacks->push_back(f->stack);
  }
  ScheduleAway();
  abort();
}

}  // namespace

Fiber* Self() { return g->current; }
bool Active() { return g && g->active; }
RunConfig& Config() { return g->cfg; }
int64_t NowNs() { return g ? g->now : 0; }
int64_t WallNs() { return g ? g->now + g->wall_offset : 1600000000LL * 1000000000LL; }
void JumpWallClock(int64_t ns) {
  g->wall_offset += ns;
  g->wall_jumped = true;
  Log("wall clock jumps by " + std::to_string(ns));
}
bool WallClockJumped() { return g->wall_jumped; }
uint64_t Step() { return g->steps; }
int FiberId() { return g->current->id; }
const char* FiberName() { return g->current->name.c_str(); }
int CurrentNode() { return g->current->node; }
void SetNode(int node) { g->current->node = node; }
void*& FiberSlot() { return g->current->slot; }
bool Done(Fiber* f) { return f->state == kDoneS || f->state == kDeadS; }
bool Verbose() { return g && g->spec && g->spec->verbose; }
void SetHangProps(const std::string& p) { g->hang_props = p; }
const std::string& CheckedProperty() { return g->spec->property; }
bool IsChecked(const std::string& p) { return g->spec->property == p; }
NoPreempt::NoPreempt() { if (g && g->active) g->current->no_preempt++; }
NoPreempt::~NoPreempt() { if (g && g->active) g->current->no_preempt--; }

uint64_t LibrarySeed() {
  if (!g) return 12345;
  return Mix(g->libseed ^ Mix(++g->libcount));
}

uint64_t Choose(int stream, uint64_t n) {
  if (n <= 1) return 0;
  return Decide(stream, [n](uint64_t* r) { return Next(r) % n; }) % n;
}
bool Flip(int stream, int permille) {
  if (permille <= 0) return false;
  return Decide(stream, [permille](uint64_t* r) -> uint64_t {
           return Next(r) % 1000 < static_cast<uint64_t>(permille);
         }) != 0;
}
int Weighted(int stream, std::initializer_list<int> weights) {
  int total = 0;
  for (int w : weights) total += w;
  uint64_t v = Decide(stream, [&](uint64_t* r) -> uint64_t {
    int x = Next(r) % total;
    int i = 0;
    for (int w : weights) {
      if (x < w) return i;
      x -= w;
      i++;
    }
    return 0;
  });
  return v % weights.size();
}

void Count(const std::string& name, uint64_t n) {
  if (g) g->counters[name] += n;
}

void Log(const std::string& line) {
  if (!g || !g->out) return;
  if (!g->spec->verbose) return;
  char buf[96];
  int l = snprintf(buf, sizeof(buf), "[%llu %.6fs %s#%d] ",
                   (unsigned long long)g->steps, g->now / 1e9,
                   g->current ? g->current->name.c_str() : "-",
                   g->current ? g->current->id : -1);
  if (l >= (int)sizeof(buf)) l = sizeof(buf) - 1;
  SharedResult* o = g->out;
  if (o->log_len + l + line.size() + 2 >= kMaxLog) return;
  memcpy(o->log + o->log_len, buf, l);
  o->log_len += l;
  memcpy(o->log + o->log_len, line.data(), line.size());
  o->log_len += line.size();
  o->log[o->log_len++] = '\n';
  o->log[o->log_len] = 0;
}
void LogHash(uint64_t v) { HashIn(&g->hash, v); }

void EndRun() { Finish(kOk); }

void Violate(const std::string& props, const std::string& cls,
             const std::string& msg) {
  if (getenv("SIM_BT")) {
    void* pc[40];
    int n = backtrace(pc, 40);
    backtrace_symbols_fd(pc, n, 2);
  }
  if (g->spec->known.count(g->spec->property + ":" + cls) &&
      PropsContain(props, g->spec->property)) {
    // Listed finding: end the run, reported as such by the runner.
    EndWithViolation(props, cls, msg, kViolation);
  }
  if (PropsContain(props, g->spec->property)) {
    EndWithViolation(props, cls, msg, kViolation);
  }
  g->out->foreign++;
  SetStr(g->out->foreign_cls, sizeof(g->out->foreign_cls), cls + ": " + msg);
  SetStr(g->out->foreign_props, sizeof(g->out->foreign_props), props);
  SIM_LOG("foreign violation " + props + " " + cls + ": " + msg);
}

std::string BlockedFibers() {
  std::string s;
  for (Fiber* f : g->fibers) {
    if (f->state == kBlockedS) {
      if (!s.empty()) s += ", ";
      s += f->name + "#" + std::to_string(f->id) + "(" + f->why + ")";
    }
  }
  return s;
}

Fiber* Spawn(const std::string& name, std::function<void()> fn) {
  NoPreempt np;
  Fiber* f = new Fiber;
  f->id = g->fibers.size();
  f->name = name;
  f->node = g->current ? g->current->node : 0;
  f->fn = std::move(fn);
  f->stack = NewStack();
  // Initial frame: sim_switch pops six registers and returns to the entry.
  uintptr_t top = reinterpret_cast<uintptr_t>(f->stack + kStackSize);
  top &= ~uintptr_t{15};
  void** sp = reinterpret_cast<void**>(top);
  *--sp = nullptr;  // fake return address of the entry (alignment)
  *--sp = reinterpret_cast<void*>(&sim_fiber_main);
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  g->fibers.push_back(f);
  f->prio = static_cast<double>(Mix(g->spec->seed * 31 + f->id) >> 11);
  g->runnable.push_back(f);
  return f;
}

void Join(Fiber* f) {
  while (f->state != kDoneS) {
    f->joiners.push_back(g->current);
    BlockUntil(kForever, "join");
  }
  Point();
}

void KillNode(int node) {
  for (Fiber* f : g->fibers) {
    if (f->node == node && f->state != kDoneS && f != g->current) {
      f->state = kDeadS;
      f->timer_gen++;
      if (f->stalled) g->stalled--;
      f->stalled = false;
    }
  }
  std::deque<Fiber*> r;
  for (Fiber* f : g->runnable)
    if (f->state == kRunnableS) r.push_back(f);
  g->runnable.swap(r);
}

void StopStalls() {
  g->cfg.stall_permille = 0;
  for (size_t i = 0; i < g->fibers.size(); i++) {
    Fiber* f = g->fibers[i];
    if (f->stalled && f->state == kBlockedS) Wake(f);
  }
}

void Wake(Fiber* f) {
  if (f->state != kBlockedS) return;
  if (g->quiesce == f) g->quiesce = nullptr;
  f->state = kRunnableS;
  f->timed_out = false;
  f->timer_gen++;
  f->deadline = kForever;
  g->runnable.push_back(f);
}

bool BlockUntil(int64_t deadline, const char* why) {
  Fiber* f = g->current;
  CheckSteps();
  f->why = why;
  f->state = kBlockedS;
  f->timed_out = false;
  f->deadline = deadline;
  if (deadline != kForever) {
    if (deadline < g->now) deadline = g->now;
    g->timers.push({deadline, g->timer_seq++, f, f->timer_gen});
    FireTimers();
  }
  ScheduleAway();
  return f->timed_out;
}

bool Quiesce() {
  NoPreempt np;
  // Let everything run that can run without time passing.
  for (;;) {
    Fiber* f = g->current;
    CheckSteps();
    if (g->runnable.empty() && g->stalled == 0) return true;
    f->why = "quiesce";
    f->state = kBlockedS;
    f->timed_out = false;
    g->quiesce = f;
    ScheduleAway();
    if (g->runnable.empty() && g->stalled == 0) return true;
  }
}

void SleepNs(int64_t ns) {
  if (ns <= 0) {
    Point();
    return;
  }
  int64_t d = g->now + ns;
  if (d < g->now) d = kForever - 1;
  BlockUntil(d, "sleep");
}

void Point() {
  if (!g || !g->active) return;
  Fiber* f = g->current;
  CheckSteps();
  if (f->no_preempt) return;
  g->now += g->cfg.step_ns;
  if (!g->timers.empty() && g->timers.top().at <= g->now) FireTimers();
  PctTick();
  const size_t n = g->runnable.size();
  if (n == 0 && g->cfg.stall_permille == 0) return;
  constexpr uint64_t kStall = 1000000;
  uint64_t c = Decide(kSched, [&](uint64_t* r) -> uint64_t {
    if (g->cfg.stall_permille > 0) {
      uint64_t x = Next(r) % 20000;
      if (x < static_cast<uint64_t>(g->cfg.stall_permille)) {
        return kStall + Next(r) % 5;
      }
    }
    if (n == 0) return 0;
    if (g->cfg.strategy == 1) {
      double best = f->prio;
      uint64_t bi = 0;
      for (size_t i = 0; i < n; i++)
        if (g->runnable[i]->prio > best) {
          best = g->runnable[i]->prio;
          bi = i + 1;
        }
      return bi;
    }
    if (Next(r) % 1000 >= static_cast<uint64_t>(g->cfg.switch_permille))
      return 0;
    return 1 + Next(r) % n;
  });
  if (c >= kStall && g->cfg.stall_permille > 0) {
    static const int64_t d[5] = {1000000, 20000000, 300000000, 5000000000LL,
                                 60000000000LL};
    Count("fault:stall");
    f->stalled = true;
    g->stalled++;
    BlockUntil(g->now + std::min(d[(c - kStall) % 5], g->cfg.max_stall_ns),
               "stalled");
    f->stalled = false;
    g->stalled--;
    return;
  }
  if (n == 0) return;
  c %= (n + 1);
  if (c == 0) return;
  Fiber* to = g->runnable[c - 1];
  g->runnable.erase(g->runnable.begin() + (c - 1));
  g->runnable.push_back(f);
  SwitchTo(to);
}

void RandomSchedule(bool stalls, bool exact_time) {
  RunConfig& c = g->cfg;
  c.strategy = Weighted(kCfg, {3, 1});
  static const int sw[] = {100, 20, 50, 200, 400, 700};
  c.switch_permille = sw[Choose(kCfg, 6)];
  c.step_ns = exact_time ? 0 : (Flip(kCfg, 500) ? 20000 : 1000);
  c.stall_permille =
      (stalls && !exact_time && Flip(kCfg, 400)) ? (Flip(kCfg, 500) ? 50 : 5) : 0;
  c.spurious_permille = Flip(kCfg, 300) ? 30 : 0;
  static const int mm[] = {0, 50000, 5000, 500, 100};
  c.mem_mean = mm[Weighted(kCfg, {5, 1, 2, 2, 1})];
  if (c.strategy == 1 && !g->spec->replay) {
    int d = 1 + Choose(kCfg, 6);
    static const int horizon[] = {200, 1000, 4000};
    uint64_t h = horizon[Choose(kCfg, 3)];
    uint64_t r = Mix(g->spec->seed ^ 0xabcdef);
    for (int i = 0; i < d; i++) g->pct_points[i] = 1 + Next(&r) % h;
  } else if (c.strategy == 1) {
    Choose(kCfg, 6);
    Choose(kCfg, 3);
  }
}

// ---------------------------------------------------------------- sync
namespace {
int64_t DeadlineNs(absl::Time t) {
  if (t == absl::InfiniteFuture()) return kForever;
  if (t == absl::InfinitePast()) return g->now;
  // Round up to whole nanoseconds, saturating.
  absl::Duration d = t - absl::FromUnixNanos(WallNs());
  if (d <= absl::ZeroDuration()) return g->now;
  if (d > absl::Hours(24 * 365 * 100)) return kForever;
  int64_t ns = absl::ToInt64Nanoseconds(d);
  if (absl::Nanoseconds(ns) < d) ns++;
  return g->now + ns;
}
}  // namespace
int64_t DeadlineFromTime(absl::Time t) { return DeadlineNs(t); }
int64_t DeadlineFromDuration(absl::Duration d) {
  if (d == absl::InfiniteDuration()) return kForever;
  if (d <= absl::ZeroDuration()) return g->now;
  if (d > absl::Hours(24 * 365 * 100)) return kForever;
  int64_t ns = absl::ToInt64Nanoseconds(d);
  if (absl::Nanoseconds(ns) < d) ns++;
  return g->now + ns;
}
absl::Time SimNow() {
  if (Active()) Point();
  return absl::FromUnixNanos(WallNs());
}
void SimSleepFor(absl::Duration d) {
  if (!Active()) return;
  int64_t dl = DeadlineFromDuration(d);
  SleepNs(dl == kForever ? kForever - 1 - g->now : dl - g->now);
}

Mutex::~Mutex() {
  if (!Active()) return;
  if (owner_ != nullptr || readers_ != 0 || users_ != 0 || !waiters_.empty() ||
      !cond_waiters_.empty()) {
    Violate(g->hang_props, "mutex-destroyed-in-use",
            "a mutex is destroyed while it is held or waited for");
  }
}

void Mutex::Acquire(bool writer) {
  Fiber* f = g->current;
  while (writer ? (owner_ != nullptr || readers_ > 0) : owner_ != nullptr) {
    waiters_.push_back(f);
    users_++;
    BlockUntil(kForever, "mutex");
    users_--;
  }
  if (writer) {
    owner_ = f;
  } else {
    readers_++;
  }
}
void Mutex::EvalWaiters() {
  // Called while the mutex is logically free. Grants conditions.
  for (size_t i = 0; i < cond_waiters_.size();) {
    CondWaiter* w = cond_waiters_[i];
    bool ok;
    {
      NoPreempt np;
      ok = w->cond->Eval();
    }
    if (ok) {
      cond_waiters_.erase(cond_waiters_.begin() + i);
      w->granted = true;
      Wake(w->fiber);
    } else {
      i++;
    }
  }
}
void Mutex::Release(bool writer) {
  if (!cond_waiters_.empty() && writer) EvalWaiters();
  if (writer) {
    owner_ = nullptr;
  } else {
    readers_--;
  }
  if (owner_ == nullptr && readers_ == 0) {
    if (!waiters_.empty()) {
      std::vector<Fiber*> w;
      w.swap(waiters_);
      for (Fiber* f : w) Wake(f);
    }
  }
}
void Mutex::Lock() {
  if (!Active()) return;
  Point();
  Acquire(true);
}
void Mutex::Unlock() {
  if (!Active()) return;
  if (owner_ != g->current) {
    Violate(g->hang_props, "unlock-not-held",
            "a mutex is unlocked by a thread that does not hold it");
    return;
  }
  Release(true);
  Point();
}
bool Mutex::TryLock() {
  if (!Active()) return true;
  Point();
  if (owner_ || readers_) return false;
  owner_ = g->current;
  return true;
}
void Mutex::ReaderLock() {
  if (!Active()) return;
  Point();
  Acquire(false);
}
void Mutex::ReaderUnlock() {
  if (!Active()) return;
  Release(false);
  Point();
}
bool Mutex::ReaderTryLock() {
  if (!Active()) return true;
  Point();
  if (owner_) return false;
  readers_++;
  return true;
}
void Mutex::AssertHeld() const {
  if (Active() && owner_ != g->current)
    Violate(g->hang_props, "assert-held", "a lock required to be held is not");
}
void Mutex::AssertReaderHeld() const {
  if (Active() && owner_ != g->current && readers_ == 0)
    Violate(g->hang_props, "assert-held", "a lock required to be held is not");
}
bool Mutex::AwaitUntil(const Condition& c, int64_t deadline) {
  if (!Active()) return c.Eval();
  const bool writer = owner_ == g->current;
  for (;;) {
    bool ok;
    {
      NoPreempt np;
      ok = c.Eval();
    }
    if (ok) return true;
    if (deadline != kForever && deadline <= g->now) return false;
    CondWaiter w{g->current, &c, false};
    // Other waiters must see the state this fiber left.
    Release(writer);
    cond_waiters_.push_back(&w);
    bool timed_out = BlockUntil(deadline, "await");
    if (!w.granted) {
      for (size_t i = 0; i < cond_waiters_.size(); i++)
        if (cond_waiters_[i] == &w) {
          cond_waiters_.erase(cond_waiters_.begin() + i);
          break;
        }
    }
    Acquire(writer);
    if (timed_out) {
      NoPreempt np;
      return c.Eval();
    }
  }
}
bool Mutex::AwaitWithTimeout(const Condition& c, absl::Duration d) {
  return AwaitUntil(c, Active() ? DeadlineFromDuration(d) : 0);
}
bool Mutex::AwaitWithDeadline(const Condition& c, absl::Time t) {
  return AwaitUntil(c, Active() ? DeadlineFromTime(t) : 0);
}
bool Mutex::LockWhenWithTimeout(const Condition& c, absl::Duration d) {
  int64_t dl = Active() ? DeadlineFromDuration(d) : 0;
  Lock();
  return AwaitUntil(c, dl);
}
bool Mutex::LockWhenWithDeadline(const Condition& c, absl::Time t) {
  int64_t dl = Active() ? DeadlineFromTime(t) : 0;
  Lock();
  return AwaitUntil(c, dl);
}

CondVar::~CondVar() {
  if (!Active()) return;
  if (!waiters_.empty())
    Violate(g->hang_props, "condvar-destroyed-in-use",
            "a condition variable is destroyed while threads wait for it");
}
bool CondVar::WaitUntil(Mutex* mu, int64_t deadline) {
  if (!Active()) return true;
  const bool writer = mu->owner_ == g->current;
  if (!writer && mu->readers_ == 0)
    Violate(g->hang_props, "wait-not-held", "CondVar wait without the lock");
  if (deadline == kForever && Flip(kTime, g->cfg.spurious_permille)) {
    Count("fault:spurious-wakeup");
    mu->Release(writer);
    Point();
    mu->Acquire(writer);
    return false;
  }
  if (deadline != kForever && Flip(kTime, g->cfg.spurious_permille)) {
    Count("fault:spurious-wakeup");
    mu->Release(writer);
    Point();
    mu->Acquire(writer);
    return deadline <= g->now;
  }
  CvWaiter w{g->current, true};
  waiters_.push_back(&w);
  mu->Release(writer);
  bool timed_out = BlockUntil(deadline, "condvar");
  if (w.queued) {
    for (size_t i = 0; i < waiters_.size(); i++)
      if (waiters_[i] == &w) {
        waiters_.erase(waiters_.begin() + i);
        break;
      }
  }
  if (timed_out && !w.queued) Count("probe:signal-meets-timeout");
  mu->Acquire(writer);
  return timed_out;
}
bool CondVar::WaitWithTimeout(Mutex* mu, absl::Duration d) {
  return WaitUntil(mu, Active() ? DeadlineFromDuration(d) : 0);
}
bool CondVar::WaitWithDeadline(Mutex* mu, absl::Time t) {
  return WaitUntil(mu, Active() ? DeadlineFromTime(t) : 0);
}
void CondVar::Signal() {
  if (!Active()) return;
  if (waiters_.empty()) return;
  CvWaiter* w = waiters_.front();
  waiters_.erase(waiters_.begin());
  w->queued = false;
  Wake(w->fiber);
}
void CondVar::SignalAll() {
  if (!Active()) return;
  std::vector<CvWaiter*> ws;
  ws.swap(waiters_);
  for (CvWaiter* w : ws) {
    w->queued = false;
    Wake(w->fiber);
  }
}

Notification::~Notification() {
  if (Active() && !waiters_.empty())
    Violate(g->hang_props, "notification-destroyed-in-use",
            "a notification is destroyed while threads wait for it");
}
bool Notification::HasBeenNotified() const {
  if (Active()) Point();
  return done_;
}
bool Notification::WaitUntil(int64_t deadline) const {
  if (!Active()) return done_;
  Point();
  while (!done_) {
    if (deadline != kForever && deadline <= g->now) return false;
    waiters_.push_back(g->current);
    bool to = BlockUntil(deadline, "notification");
    auto it = std::find(waiters_.begin(), waiters_.end(), g->current);
    if (it != waiters_.end()) waiters_.erase(it);
    if (to) return done_;
  }
  return true;
}
void Notification::WaitForNotification() const { WaitUntil(kForever); }
bool Notification::WaitForNotificationWithTimeout(absl::Duration d) const {
  return WaitUntil(Active() ? DeadlineFromDuration(d) : 0);
}
bool Notification::WaitForNotificationWithDeadline(absl::Time t) const {
  return WaitUntil(Active() ? DeadlineFromTime(t) : 0);
}
void Notification::Notify() {
  if (!Active()) {
    done_ = true;
    return;
  }
  if (done_)
    Violate(g->hang_props, "notified-twice", "Notify() called more than once");
  done_ = true;
  std::vector<Fiber*> w;
  w.swap(waiters_);
  for (Fiber* f : w) Wake(f);
  Point();
}

bool BlockingCounter::DecrementCount() {
  if (--count_ == 0) {
    std::vector<Fiber*> w;
    w.swap(waiters_);
    for (Fiber* f : w) Wake(f);
    return true;
  }
  return false;
}
void BlockingCounter::Wait() {
  while (count_ > 0) {
    waiters_.push_back(g->current);
    BlockUntil(kForever, "blocking-counter");
  }
}
void OnceImpl(once_flag* flag, const std::function<void()>& fn) {
  while (flag->state == 1) {
    flag->waiters.push_back(g->current);
    BlockUntil(kForever, "once");
  }
  if (flag->state == 2) return;
  flag->state = 1;
  fn();
  flag->state = 2;
  std::vector<Fiber*> w;
  w.swap(flag->waiters);
  for (Fiber* f : w) Wake(f);
}

// ---------------------------------------------------------------- run
namespace {
std::string ReadStderrTail() {
  std::string s;
  off_t n = lseek(g_stderr, 0, SEEK_END);
  if (n <= 0) return s;
  off_t from = n > 6000 ? n - 6000 : 0;
  s.resize(n - from);
  ssize_t r = pread(g_stderr, &s[0], s.size(), from);
  if (r < 0) r = 0;
  s.resize(r);
  return s;
}

volatile sig_atomic_t g_in_crash = 0;
void CrashHandler(int sig, siginfo_t* info, void*) {
  if (g_in_crash) _exit(99);
  g_in_crash = 1;
  alarm(10);
  const bool wall = sig == SIGALRM;
  // Best effort: we are on one thread and about to exit.
  std::string msg = std::string("signal ") + strsignal(sig);
  std::string cls = sig == SIGABRT ? "check-failure" : "crash";
  if (wall) {
    cls = "wall-stuck";
    msg = "the run is blocked outside the simulation";
  } else if (sig == SIGVTALRM) {
    cls = "stuck";
    msg = "the run does not terminate and passes no synchronisation point";
  }
  if (g && g->current) msg += std::string(" in fiber ") + g->current->name;
  if (g && g->spec && g->spec->verbose) {
    void* bt[40];
    int n = backtrace(bt, 40);
    char** names = backtrace_symbols(bt, n);
    for (int i = 0; i < n && names; i++) Log(std::string("  at ") + names[i]);
  }
  std::string tail = ReadStderrTail();
  // Keep the last fatal line as the class detail.
  size_t p = tail.rfind("Check failed");
  if (p == std::string::npos) p = tail.rfind("CHECK failed");
  if (p != std::string::npos) {
    msg += ": " + tail.substr(p, 400);
  } else {
    msg += tail.size() > 600 ? tail.substr(tail.size() - 600) : tail;
  }
  g->active = false;
  EndWithViolation(g->hang_props, cls, msg, wall ? kSimError : kViolation);
}
char g_altstack[256 * 1024];
}  // namespace

std::map<std::string, ScenarioFn>& ScenarioMap() {
  static auto* m = new std::map<std::string, ScenarioFn>;
  return *m;
}
void RegisterScenario(const char* name, ScenarioFn fn) {
  ScenarioMap()[name] = fn;
}
const std::map<std::string, ScenarioFn>& Scenarios() { return ScenarioMap(); }

void UseRunArena();  // in alloc.cc

void ExecuteRun(const RunSpec& spec, SharedResult* out) {
  // A fresh, small stderr captured for reports.
  g_stderr = memfd_create("stderr", 0);
  if (g_stderr < 0) g_stderr = open("/dev/null", O_RDWR);
  if (!getenv("SIM_STDERR")) dup2(g_stderr, 2);
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof(g_altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = CrashHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGALRM})
    sigaction(s, &sa, nullptr);
  struct itimerval tv;
  memset(&tv, 0, sizeof(tv));
  tv.it_value.tv_sec = 10;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  alarm(120);

  g = new State;
  g->spec = &spec;
  g->out = out;
  g->hang_props = spec.property;
  out->status = kRunning;
  out->n_choices = 0;
  out->choices_truncated = false;
  out->log_len = 0;
  out->foreign = 0;
  out->n_counters = 0;
  out->props[0] = out->cls[0] = out->msg[0] = 0;
  out->foreign_cls[0] = out->foreign_props[0] = 0;
  for (int i = 0; i < kMaxStreams; i++)
    g->streams[i].rng = Mix(spec.seed * 1000003 + i);
  for (const ChoiceRec& c : spec.choices)
    if (c.stream < kMaxStreams)
      g->streams[c.stream].replay.push_back({c.index, c.value});
  for (auto& s : g->streams) std::sort(s.replay.begin(), s.replay.end());
  g->libseed = Mix(spec.seed ^ 0x5eedull);

  Fiber* main = nullptr;
  ScenarioFn fn = spec.fn;
  UseRunArena();
  main = Spawn("main", [fn] {
    fn();
    g->active = false;
    Finish(kOk);
  });
  g->active = true;
  g->runnable.clear();
  Fiber boot;
  boot.id = -1;
  g->current = &boot;
  SwitchTo(main);
  abort();
}

}  // namespace reverbsim

// Preemption at plain memory accesses (called by instrumented code).
namespace reverbsim {
int64_t g_mem_countdown = INT64_MAX;
namespace {
bool g_mem_on = false;
int g_static_init = 0;
void MemArm() {
  const int mean = g->cfg.mem_mean;
  uint64_t v = Decide(kMem, [mean](uint64_t* r) -> uint64_t {
    // Geometric-like: uniform in [1, 2 * mean].
    return 1 + Next(r) % (2 * mean);
  });
  // 0 (benign): no further preemption at plain accesses in this run.
  g_mem_countdown = v == 0 ? INT64_MAX : static_cast<int64_t>(v);
}
}  // namespace
void EnableMemPreemption() {
  if (g->cfg.mem_mean <= 0) return;
  g_mem_on = true;
  MemArm();
}
void DisableMemPreemption() {
  g_mem_on = false;
  g_mem_countdown = INT64_MAX;
}
void MemPoint() {
  if (!g || !g->active || !g_mem_on) {
    g_mem_countdown = INT64_MAX;
    return;
  }
  if (g->current->no_preempt || g_static_init) {
    g_mem_countdown = 1;
    return;
  }
  g_mem_countdown = INT64_MAX;
  const size_t n = g->runnable.size();
  if (n > 0) {
    uint64_t c = Decide(kMem, [n](uint64_t* r) -> uint64_t {
                   return Next(r) % (n + 1);
                 }) % (n + 1);
    if (c > 0) {
      CheckSteps();
      Count("fault:mem-preemption");
      MemArm();
      Fiber* f = g->current;
      Fiber* to = g->runnable[c - 1];
      g->runnable.erase(g->runnable.begin() + (c - 1));
      g->runnable.push_back(f);
      SwitchTo(to);
      return;
    }
  }
  MemArm();
}
}  // namespace reverbsim

// Function-local statics: no preemption while one is being initialised.
extern "C" int __cxa_guard_acquire(long long* guard) {
  char* b = reinterpret_cast<char*>(guard);
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
    char zero = 0;
    if (__atomic_compare_exchange_n(&b[1], &zero, char{1}, false,
                                    __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
      if (reverbsim::Active()) reverbsim::g_static_init++;
      return 1;
    }
    if (reverbsim::Active()) {
      reverbsim::BlockUntil(reverbsim::NowNs(), "static-init");
    } else {
      usleep(10);
    }
  }
}
extern "C" void __cxa_guard_release(long long* guard) {
  char* b = reinterpret_cast<char*>(guard);
  __atomic_store_n(&b[0], char{1}, __ATOMIC_RELEASE);
  __atomic_store_n(&b[1], char{0}, __ATOMIC_RELEASE);
  if (reverbsim::Active()) reverbsim::g_static_init--;
}
extern "C" void __cxa_guard_abort(long long* guard) {
  char* b = reinterpret_cast<char*>(guard);
  __atomic_store_n(&b[1], char{0}, __ATOMIC_RELEASE);
  if (reverbsim::Active()) reverbsim::g_static_init--;
}

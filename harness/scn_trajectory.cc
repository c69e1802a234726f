// Trajectory writers against a synchronous or callback server.
#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/traj_client.h"
#include "harness/world.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
void RunTrajectory() {
  SetHangProps("W02,W03");
  RandomSchedule(/*stalls=*/Flip(kCfg, 300), false);
  RandomNet(Flip(kCfg, 700));
  World w;
  w.ep.node = 1;
  const int nt = 1 + Choose(kCfg, 2);
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = Flip(kCfg, 300) ? 3 + Choose(kCfg, 5) : 1000;
    s.max_times = Flip(kCfg, 300) ? 1 + Choose(kCfg, 3) : 0;
    s.limiter = Flip(kCfg, 400) ? LiveLimiter() : OpenLimiter();
    w.AddTable(s, Flip(kCfg, 300));
  }
  w.Start(Flip(kCfg, 500));
  w.StartDrain();
  // Sometimes long enough for chunk lengths that adapt themselves.
  const bool longer = Flip(kCfg, 30);
  const int n = longer ? 1 : 1 + Choose(kCfg, 3);
  const int nops = longer ? 60 + Choose(kCfg, 150) : 4 + Choose(kCfg, 25);
  std::vector<std::unique_ptr<TrajClient>> cs;
  std::vector<Fiber*> fs;
  bool quiet = false;
  const bool exact = Config().stall_permille == 0;
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<TrajClient>();
    c->w = &w;
    c->id = i;
    c->stream = kWork + 1 + i;
    c->w_quiet = [&quiet] { return quiet; };
    c->slack_ns = exact ? 100000000 : 0;
    const int nc = 1 + Choose(kCfg, 4);
    for (int j = 0; j < nc; j++) {
      // Sometimes what a table asks for.
      ServerTable* t = w.tables[Choose(kCfg, nt)].get();
      if (t->has_signature && !Flip(kCfg, 300))
        c->cols.push_back(t->signature[j % t->signature.size()]);
      else
        c->cols.push_back(RandomColSpec(kCfg));
    }
    cs.push_back(std::move(c));
  }
  EnableMemPreemption();
  for (int i = 0; i < n; i++) {
    TrajClient* c = cs[i].get();
    SetNode(Flip(kCfg, 300) ? 1 : 10 + i);
    fs.push_back(Spawn(StrCat("writer", i), [c, nops] { c->Run(nops); }));
  }
  SetNode(1);
  const int rounds = Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    SleepNs(1000000LL * (1 + Choose(kWork, 40)));
    if (Flip(kWork, 300)) BreakSome(kNet);
  }
  for (auto& c : cs) {
    int64_t until = NowNs() + (longer ? 30000000000 : 5000000000);
    while (!c->done_ops && NowNs() < until) SleepNs(1000000);
  }
  StopNetFaults();
  StopStalls();
  quiet = true;
  {
    int64_t until = NowNs() + 20000000000;
    for (int i = 0; i < n; i++) {
      while (!Done(fs[i]) && NowNs() < until) SleepNs(5000000);
      if (!Done(fs[i]))
        Violate("W03", "writer-hangs",
                StrCat("a call of writer ", i,
                       " has not returned 20 s after the last fault: ",
                       BlockedFibers()));
    }
  }
  if (w.async) {
    // What was accepted is applied as soon as the limiter allows.
    int64_t until = NowNs() + 20000000000;
    while (NowNs() < until) {
      bool missing = false;
      for (auto& e : w.items) missing |= e->acked && e->inserts == 0 && !e->may_be_lost;
      if (!missing) break;
      SleepNs(1000000);
    }
  }
  w.StopDrain();
  w.CheckEnd();
  DisableMemPreemption();
  w.Stop();
}
}  // namespace

SCENARIO(trajectory) { RunTrajectory(); }

}  // namespace harness

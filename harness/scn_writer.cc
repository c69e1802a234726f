// Legacy writers against a synchronous or callback server.
#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/world.h"
#include "harness/writer_client.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
void RunWriter() {
  SetHangProps("W01,W03");
  RandomSchedule(/*stalls=*/Flip(kCfg, 300), false);
  RandomNet(Flip(kCfg, 700));
  World w;
  w.ep.node = 1;
  w.writer_props = "W01";
  const int nt = 1 + Choose(kCfg, 2);
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = Flip(kCfg, 300) ? 3 + Choose(kCfg, 5) : 1000;
    s.max_times = Flip(kCfg, 300) ? 1 + Choose(kCfg, 3) : 0;
    s.limiter = Flip(kCfg, 400) ? LiveLimiter() : OpenLimiter();
    w.AddTable(s, Flip(kCfg, 300), /*steps=*/true);
  }
  w.Start(Flip(kCfg, 500));
  w.StartDrain();
  const int n = 1 + Choose(kCfg, 3);
  const int nops = 4 + Choose(kCfg, 25);
  std::vector<std::unique_ptr<WriterClient>> cs;
  std::vector<Fiber*> fs;
  bool quiet = false;
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<WriterClient>();
    c->w = &w;
    c->id = i;
    c->stream = kWork + 1 + i;
    c->w_quiet = [&quiet] { return quiet; };
    const int nc = 1 + Choose(kCfg, 3);
    ServerTable* t = w.tables[Choose(kCfg, nt)].get();
    if (t->has_signature && !Flip(kCfg, 300)) {
      c->cols = t->signature;
    } else {
      for (int j = 0; j < nc; j++) c->cols.push_back(RandomColSpec(kCfg));
    }
    cs.push_back(std::move(c));
  }
  EnableMemPreemption();
  for (int i = 0; i < n; i++) {
    WriterClient* c = cs[i].get();
    SetNode(10 + i);
    fs.push_back(Spawn(StrCat("writer", i), [c, nops] { c->Run(nops); }));
  }
  SetNode(1);
  const int rounds = Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    SleepNs(1000000LL * (1 + Choose(kWork, 40)));
    if (Flip(kWork, 300)) BreakSome(kNet);
  }
  for (auto& c : cs) {
    int64_t until = NowNs() + 5000000000;
    while (!c->done_ops && NowNs() < until) SleepNs(1000000);
  }
  StopNetFaults();
  StopStalls();
  quiet = true;
  {
    int64_t until = NowNs() + 20000000000;
    for (int i = 0; i < n; i++) {
      while (!Done(fs[i]) && NowNs() < until) SleepNs(5000000);
      if (!Done(fs[i]))
        Violate("W03", "writer-hangs",
                StrCat("a call of writer ", i,
                       " has not returned 20 s after the last fault: ",
                       BlockedFibers()));
    }
  }
  if (w.async) {
    int64_t until = NowNs() + 20000000000;
    while (NowNs() < until) {
      bool missing = false;
      for (auto& e : w.items) missing |= e->acked && e->inserts == 0;
      if (!missing) break;
      SleepNs(1000000);
    }
  }
  w.StopDrain();
  w.CheckEnd();
  DisableMemPreemption();
  w.Stop();
}
}  // namespace

SCENARIO(writer) { RunWriter(); }

}  // namespace harness

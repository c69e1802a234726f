// Samplers against a synchronous or callback server or a local table.
#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/sampler_client.h"
#include "harness/traj_client.h"
#include "harness/world.h"
#include "harness/writer_client.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
void RunSampler() {
  SetHangProps("S04");
  const bool stalls = Flip(kCfg, 200);
  RandomSchedule(stalls, false);
  const bool faults = Flip(kCfg, 500);
  RandomNet(faults);
  World w;
  w.ep.node = 1;
  const bool decomposable = Flip(kCfg, 500);
  const int nt = 1 + Choose(kCfg, 2);
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = Flip(kCfg, 300) ? 3 + Choose(kCfg, 5) : 1000;
    s.max_times = Flip(kCfg, 300) ? 1 + Choose(kCfg, 3) : 0;
    s.limiter = Flip(kCfg, 500) ? LiveLimiter() : OpenLimiter();
    w.AddTable(s, Flip(kCfg, 300), decomposable);
  }
  w.Start(Flip(kCfg, 500));
  const std::string server_prop = w.async ? "V02" : "V01";
  SetHangProps(w.async ? "S04,V02" : "S04,V01");
  const int n = 1 + Choose(kCfg, 3);
  std::vector<std::unique_ptr<SamplerClient>> cs;
  std::vector<Fiber*> fs, feeders;  // feeders: and mutators
  bool quiet = false, feeding = true;
  const bool early_stop = Flip(kCfg, 150);
  int local_used = 0;
  for (int i = 0; i < n; i++) {
    auto c = std::make_unique<SamplerClient>();
    c->w = &w;
    c->id = i;
    c->stream = kWork + 1 + i;
    c->t = w.tables[Choose(kCfg, nt)].get();
    c->early_stop = early_stop;
    c->decomposable = decomposable;
    c->faults = faults || stalls;
    c->slack_ns = stalls ? 0 : 300000000;
    c->extra_ns = faults ? 2000000000 : 0;
    c->w_quiet = [&quiet] { return quiet; };
    c->node = !local_used && Flip(kCfg, 350) ? 1 : 10 + i;
    if (c->node == 1) local_used = 1;
    cs.push_back(std::move(c));
  }
  for (auto& t : w.tables) {
    SamplerClient* only = nullptr;
    int users = 0;
    for (auto& c : cs)
      if (c->t == t.get()) users++, only = c.get();
    if (users == 1) only->solo = true;
    ServerTable* p = t.get();
    t->on_sample = [&cs, p](SampleOp* op) {
      for (auto& c : cs)
        if (c->t == p) c->OnOp(op);
    };
  }
  // Items come from a feeder per table and sometimes from writers.
  const int pause_us = 1 + Choose(kCfg, 3000);
  for (int i = 0; i < nt; i++) {
    ServerTable* t = w.tables[i].get();
    const int stream = kWork + 5 + i;
    SetNode(1);
    feeders.push_back(Spawn(StrCat("feeder", i), [&, t, stream, i, pause_us] {
      int count = 0;
      while (feeding && ++count < 400) {
        w.Feed(t, stream, 100 + i, decomposable, absl::Milliseconds(50));
        SleepNs(1000LL * (1 + Choose(stream, pause_us)));
        if (Flip(stream, 30)) SleepNs(1000000LL * (1 + Choose(stream, 100)));
      }
    }));
  }
  // Priorities change and items go while samples of them are under way: a
  // sample reports what was true when it was taken.
  const int mutate_us = Flip(kCfg, 500) ? 1 + Choose(kCfg, 3000) : 0;
  for (int i = 0; mutate_us && i < nt; i++) {
    ServerTable* t = w.tables[i].get();
    const int stream = kWork + 15 + i;
    SetNode(1);
    feeders.push_back(Spawn(StrCat("mutator", i), [&, t, stream, mutate_us] {
      while (feeding) {
        OpCtx op{OpCtx::kMutate};
        std::vector<rv::KeyWithPriority> updates;
        {
          NoPreempt np;
          const MState& m = t->oracle->state();
          for (auto& [k, item] : m.items) {
            if (op.deletes.empty() && m.items.size() > 2 && Flip(stream, 20)) {
              op.deletes.push_back(k);
            } else if (Flip(stream, 400)) {
              op.updates.emplace_back(k, w.NextPriority());
              updates.emplace_back();
              updates.back().set_key(k);
              updates.back().set_priority(op.updates.back().second);
            }
            if (updates.size() > 20) break;
          }
        }
        std::shared_ptr<rv::Table> table = t->table;
        if (table && !(updates.empty() && op.deletes.empty())) {
          t->oracle->Begin(&op);
          absl::Status st = table->MutateItems(updates, op.deletes);
          t->oracle->End(&op);
          if (!st.ok())
            Violate("T06", "unexpected-status",
                    StrCat("a mutation ended with ", st.ToString()));
          Probe("mutation-among-samples");
        }
        SleepNs(1000LL * (1 + Choose(stream, mutate_us)));
        if (Flip(stream, 30)) SleepNs(1000000LL * (1 + Choose(stream, 100)));
      }
    }));
  }
  EnableMemPreemption();
  for (int i = 0; i < n; i++) {
    SamplerClient* c = cs[i].get();
    SetNode(c->node);
    const int rounds = 1 + Choose(kCfg, 3);
    fs.push_back(
        Spawn(StrCat("sampler", i), [c, rounds] { c->Run(rounds); }));
  }
  SetNode(1);
  const int rounds = Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    SleepNs(1000000LL * (1 + Choose(kWork, 40)));
    if (faults && Flip(kWork, 400)) BreakSome(kNet);
  }
  StopNetFaults();
  StopStalls();
  quiet = true;
  // The feeders keep every table supplied.
  if (!early_stop) {
    int64_t until = NowNs() + 20000000000;
    for (int i = 0; i < n; i++) {
      int64_t waiting = 0;
      while (!Done(fs[i]) && NowNs() < until) {
        SleepNs(5000000);
        if (cs[i]->in_call && NowNs() - cs[i]->call_since > 10000000000) {
          waiting = NowNs() - cs[i]->call_since;
          break;
        }
      }
      if (!Done(fs[i]))
        Violate(cs[i]->local ? "S01,S04" : "S01,S04," + server_prop, "sampler-hangs",
                StrCat("sampler ", i, waiting ? " waits" : " has not ended",
                       " long after the last fault although the table is "
                       "supplied: ", BlockedFibers()));
    }
    feeding = false;
    for (Fiber* f : feeders) Join(f);
    DisableMemPreemption();
    w.Stop();
    return;
  }
  // The server goes away while samplers are at work.
  feeding = false;
  w.Stop();
  Probe("server-stopped-under-samplers");
  int64_t until = NowNs() + 100000000;
  while (NowNs() < until) SleepNs(5000000);
  for (auto& c : cs) c->must_close = true;
  until = NowNs() + 20000000000;
  for (int i = 0; i < n; i++) {
    while (!Done(fs[i]) && NowNs() < until) SleepNs(5000000);
    if (!Done(fs[i]))
      Violate("S01,S04", "sampler-hangs",
              StrCat("sampler ", i, " does not end after Close: ",
                     BlockedFibers()));
  }
  for (Fiber* f : feeders) Join(f);
  DisableMemPreemption();
}
}  // namespace

SCENARIO(sampler) { RunSampler(); }

}  // namespace harness

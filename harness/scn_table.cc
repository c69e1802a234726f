// Tables in blocking mode: linearizability, limiter, timeouts, statistics.
#include "absl/strings/str_cat.h"
#include "harness/table_driver.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {

void RunTable(bool progress_focus) {
  SetHangProps("T01,T02,T03,T04,T05,T06,T07,T08,K05");
  const bool exact = Flip(kCfg, 500);
  RandomSchedule(/*stalls=*/!exact, exact);
  TableDriver d;
  d.exact = exact;
  d.spec = RandomTable("t", progress_focus ? 3 : 6);
  d.oracle = std::make_unique<TableOracle>(d.spec);
  d.oracle->strict_ops = true;
  d.table = d.oracle->MakeTable();
  Log(SpecString(d.spec));
  const int nclients = progress_focus ? 3 + Choose(kCfg, 4) : 2 + Choose(kCfg, 3);
  const int nops = progress_focus ? 2 + Choose(kCfg, 5) : 3 + Choose(kCfg, 12);
  const int keys = progress_focus ? 2 + Choose(kCfg, 8) : 2 + Choose(kCfg, 8);
  OpMix mix;
  if (progress_focus) mix = {10, 10, 2, 1, 1, 2};
  if (Flip(kCfg, 500)) mix.reset = 0;
  EnableMemPreemption();
  std::vector<Fiber*> fs;
  for (int i = 0; i < nclients; i++) {
    fs.push_back(Spawn(StrCat("client", i), [&d, i, nops, mix, keys] {
      TableClientOps(&d, i, nops, mix, keys);
    }));
  }
  Quiesce();
  d.CheckQuiescent();
  const int rounds = 1 + Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    // Something that may unblock waiters, or time.
    switch (Choose(kWork, 4)) {
      case 0: SleepNs(1000000 * (1 + Choose(kWork, 40))); break;
      case 1:
        d.Mutate({}, {1 + Choose(kWork, keys), 1 + Choose(kWork, keys)});
        break;
      case 2: d.Sample(1 + Choose(kWork, 3), absl::ZeroDuration()); break;
      case 3:
        d.Insert(1 + Choose(kWork, keys), 1, 1, 1, absl::ZeroDuration());
        break;
    }
    Quiesce();
    d.CheckQuiescent();
  }
  const int end = Choose(kWork, 3);
  if (end == 1) {
    d.Reset();
    Quiesce();
    d.CheckQuiescent();
  } else if (end == 2) {
    SleepNs(300000000);
    Quiesce();
    d.CheckQuiescent();
  }
  d.Close();
  if (Flip(kWork, 500)) Point();
  // Clients go on with their remaining operations on the closed table.
  for (Fiber* f : fs) Join(f);
  Quiesce();
  d.CheckQuiescent();
  DisableMemPreemption();
  d.table.reset();
  if (d.oracle->registered() != 1 || d.oracle->unregistered() != 1)
    Violate("T08", "registration",
            StrCat("extension registered ", d.oracle->registered(),
                   " times, unregistered ", d.oracle->unregistered()));
  for (auto& w : d.all_chunks)
    if (!w.expired()) {
      Violate("C01", "chunk-leak", "a chunk outlives table and callers");
      break;
    }
}
}  // namespace

SCENARIO(table) { RunTable(false); }
SCENARIO(table_progress) { RunTable(true); }

}  // namespace harness

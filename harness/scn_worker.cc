// Tables with the table worker: asynchronous inserts and samples.
#include <cmath>

#include "absl/strings/str_cat.h"
#include "harness/worker_driver.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
struct Mix {
  int insert = 8, sample = 7, mutate = 4, read = 3, reset = 1, sleep = 2;
};

void ClientOps(WorkerDriver* d, int id, int nops, const Mix& mix, int keys) {
  const int s = kWork + 1 + id;
  HoldBack* hold;
  {
    NoPreempt np;
    hold = d->NewHold();
  }
  for (int i = 0; i < nops; i++) {
    switch (Weighted(s, {1, mix.insert, mix.sample, mix.mutate, mix.read,
                         mix.sleep, mix.reset})) {
      case 0: break;
      case 1: {
        Key key = 1 + Choose(s, keys);
        double p;
        if (Flip(s, 100)) {
          key = 100000 + (++d->priority_id);
          p = 0;
        } else {
          static const double base[] = {1, 2, 0.5, 3, 7};
          p = base[Choose(s, 5)] + (++d->priority_id) / 1073741824.0;
          if (InvalidPriority(d->spec, -1) && Flip(s, 30))
            p = Flip(s, 300) ? std::nan("") : -p;
        }
        int ep = 1 + Choose(s, 4);
        int nc = 1 + Choose(s, 2);
        if (!d->InsertAsync(key, p, ep, nc, hold)) {
          Probe("held-back");
          if (!Flip(s, 200)) d->WaitHold(hold);
        }
        break;
      }
      case 2: {
        int batch = 1 + Weighted(s, {6, 2, 1, 1});
        if (Flip(s, 250))
          d->SampleBlocking(batch, RandomTimeout(s));
        else
          d->SampleAsync(batch, RandomTimeout(s));
        break;
      }
      case 3: {
        std::vector<std::pair<Key, double>> u;
        std::vector<Key> del;
        int n = Choose(s, 3);
        for (int j = 0; j < n; j++) {
          Key k = 1 + Choose(s, keys);
          u.push_back({k, RandomPriority(s, &d->spec)});
        }
        n = Weighted(s, {2, 2, 1});
        for (int j = 0; j < n; j++) del.push_back(1 + Choose(s, keys));
        d->Mutate(u, del);
        break;
      }
      case 4:
        switch (Choose(s, 6)) {
          case 0: d->ReadSize(); break;
          case 1: d->ReadInfo(); break;
          case 2: d->ReadGet(1 + Choose(s, keys)); break;
          case 3: d->ReadCopy(Choose(s, 4)); break;
          case 4: d->ReadEpisodes(); break;
          case 5: d->ReadCheckpoint(); break;
        }
        break;
      case 5: SleepNs(1000 * (1 + Choose(s, 20000))); break;
      case 6: d->Reset(); break;
    }
  }
}

void RunWorker(bool progress_focus) {
  SetHangProps("T01,T02,T03,T04,T05,T06,T07,T08,T09,K05");
  RandomSchedule(/*stalls=*/Flip(kCfg, 500), false);
  WorkerDriver d;
  d.spec = RandomTable("t", progress_focus ? 3 : 6);
  d.oracle = std::make_unique<TableOracle>(d.spec);
  const int nrec = Choose(kCfg, 3);
  for (int i = 0; i < nrec; i++) {
    bool async = Flip(kCfg, 800);
    d.recorders.push_back(std::make_shared<Recorder>(
        d.oracle.get(), async, Flip(kCfg, 300) ? 200 : 0,
        StrCat(async ? "async" : "sync", "-extension-", i)));
  }
  std::vector<std::shared_ptr<rv::TableExtension>> more(d.recorders.begin(),
                                                        d.recorders.end());
  d.table = d.oracle->MakeTable(more);
  d.Setup(1 + Choose(kCfg, 3));
  Log(SpecString(d.spec));
  const int nclients =
      progress_focus ? 3 + Choose(kCfg, 4) : 2 + Choose(kCfg, 3);
  const int nops = progress_focus ? 2 + Choose(kCfg, 5) : 3 + Choose(kCfg, 12);
  const int keys = 2 + Choose(kCfg, 8);
  Mix mix;
  if (progress_focus) mix = {10, 10, 4, 1, 1, 2};
  if (Flip(kCfg, 500)) mix.reset = 0;
  EnableMemPreemption();
  d.table->EnableTableWorker(d.executor);
  std::vector<Fiber*> fs;
  for (int i = 0; i < nclients; i++) {
    fs.push_back(Spawn(StrCat("client", i), [&d, i, nops, mix, keys] {
      ClientOps(&d, i, nops, mix, keys);
    }));
  }
  Quiesce();
  d.CheckQuiescentAsync();
  const int rounds = 1 + Choose(kWork, 4);
  for (int r = 0; r < rounds; r++) {
    switch (Choose(kWork, 4)) {
      case 0: SleepNs(1000000 * (1 + Choose(kWork, 40))); break;
      case 1: d.Mutate({}, {1 + Choose(kWork, keys), 1 + Choose(kWork, keys)});
        break;
      case 2: d.SampleAsync(1 + Choose(kWork, 3), absl::ZeroDuration()); break;
      case 3: d.Reset(); break;
    }
    Quiesce();
    d.CheckQuiescentAsync();
  }
  const int end = Choose(kWork, 4);
  if (end == 1) {
    SleepNs(300000000);
    Quiesce();
    d.CheckQuiescentAsync();
  }
  if (end != 2) {
    d.Close();
    if (end == 3) {
      Quiesce();
      d.CheckQuiescentAsync();
    }
    for (Fiber* f : fs) Join(f);
    if (Flip(kWork, 500)) {
      Quiesce();
      d.CheckQuiescentAsync();
    }
  } else {
    // Destroy the table with requests still queued: no client may be inside a
    // call, so wait for them only if they can finish.
    for (Fiber* f : fs)
      if (!Done(f)) {
        d.Close();
        break;
      }
    for (Fiber* f : fs) Join(f);
    if (!d.close_started && Flip(kWork, 700)) {
      // Something fresh for the worker to do while the table goes away.
      HoldBack* h = d.NewHold();
      int n = Choose(kWork, 4);
      for (int i = 0; i < n; i++) {
        if (Flip(kWork, 500))
          d.InsertAsync(200000 + i, 1 + (++d.priority_id) / 1073741824.0, 1, 1,
                        h);
        else
          d.SampleAsync(1 + Choose(kWork, 3), absl::InfiniteDuration());
      }
    }
    d.close_started = true;
  }
  d.table.reset();
  d.executor.reset();
  Quiesce();
  DisableMemPreemption();
  d.CheckEnd();
  for (auto& w : d.all_chunks)
    if (!w.expired()) {
      Violate("C01", "chunk-leak", "a chunk outlives table and callers");
      break;
    }
}
}  // namespace

SCENARIO(worker) { RunWorker(false); }
SCENARIO(worker_progress) { RunWorker(true); }

}  // namespace harness

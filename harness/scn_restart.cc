// A whole deployment whose server crashes and starts again from its
// checkpoints while writers and samplers keep running.
#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/sampler_client.h"
#include "harness/traj_client.h"
#include "harness/world.h"
#include "reverb/cc/platform/tfrecord_checkpointer.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {
constexpr char kServerRoot[] = "sim://d/server";

struct Saves {
  World* w;
  SimDisk* disk;
  ChunkData chunks;
  std::vector<std::unique_ptr<SaveRec>> all;
  int active = 0;
  int life = 0;
  bool reliable = false;   // neither disk nor network fails
  bool single = false;     // one client saves

  bool Done(const std::string& dir) { return disk->Exists(dir + "/DONE"); }
  std::vector<std::string> Complete() {
    std::vector<std::string> r;
    for (auto& c : disk->Children(kServerRoot))
      if (Done(StrCat(kServerRoot, "/", c)))
        r.push_back(StrCat(kServerRoot, "/", c));
    return r;
  }

  // The stored checkpoint is a state of each table during the save.
  void CheckStored(SaveRec* r) {
    NoPreempt np;
    DiskConfig old = disk->cfg;
    disk->cfg.latency_ns = 0;
    disk->cfg.fail_permille = disk->cfg.read_fail_permille =
        disk->cfg.slow_permille = 0;
    std::vector<std::unique_ptr<TableOracle>> oracles;
    std::vector<std::shared_ptr<rv::Table>> tables;
    for (auto& t : w->tables) {
      oracles.push_back(std::make_unique<TableOracle>(t->spec));
      oracles.back()->loading = true;
      tables.push_back(oracles.back()->MakeTable({}, t->sig));
    }
    rv::ChunkStore store;
    rv::TFRecordCheckpointer ck("sim://d/nowhere");
    absl::Status st = ck.Load(r->dir, &store, &tables);
    disk->cfg = old;
    if (!st.ok()) {
      Violate("K02,K03,K01", "load-fails",
              StrCat("loading checkpoint ", r->dir, " of save ", r->id,
                     " fails: ", st.ToString()));
      EndRun();
    }
    std::vector<LoadedTable> loaded;
    for (size_t i = 0; i < tables.size(); i++)
      loaded.push_back(
          {w->tables[i]->spec.name, tables[i].get(), oracles[i].get()});
    std::vector<const MState*> found;
    std::string diff = FindCut(r, loaded, chunks, &found);
    if (!diff.empty())
      Violate("K05,K01", "wrong-checkpoint-content",
              StrCat("save ", r->id, " stored what the tables were not: ",
                     diff));
    Probe("stored-checkpoint-checked");
  }

  void Save(rv::Client* client, int stream) {
    auto rec = std::make_unique<SaveRec>();
    SaveRec* r = rec.get();
    const int my_life = life;
    {
      NoPreempt np;
      r->id = all.size();
      for (auto& t : w->tables)
        if (t->log) r->tables.push_back(t->log.get());
      if (r->tables.size() < w->tables.size()) return;  // down
      r->start = Step();
      r->overlapped = active > 0;
      for (auto& s : all)
        if (!s->end && !s->crashed) r->overlapped = s->overlapped = true;
      active++;
      all.push_back(std::move(rec));
    }
    SIM_LOG(StrCat("save ", r->id));
    std::string path;
    absl::Status st = client->Checkpoint(&path);
    NoPreempt np;
    SIM_LOG(StrCat("save ", r->id, " -> ", st.ToString(), " ", path));
    active--;
    if (life != my_life) {
      // The reply may still be about the server's previous life.
      if (st.ok()) r->dir = path;
      r->crashed = true;
      return;
    }
    Probe(st.ok() ? "server-save-ok" : "server-save-failed");
    if (!st.ok()) {
      if (reliable && !r->overlapped)
        Violate("K01,K03,K05", "save-fails",
                StrCat("save ", r->id, " fails: ", st.ToString()));
      return;   // it may still be in progress
    }
    r->end = Step();
    r->ok = true;
    r->dir = path;
    if (r->overlapped) return;
    auto have = Complete();
    if (have.size() != 1 || have[0] != path)
      Violate("K04,K02", "wrong-checkpoints-kept",
              StrCat("after save ", r->id, " in ", path, " there are ",
                     have.size(), " complete checkpoints",
                     have.empty() ? "" : ", the first is " + have[0]));
    else if (single && Flip(stream, 500))
      CheckStored(r);
  }
};

void RunRestart() {
  SetHangProps("K02,W03,S04");
  const bool stalls = Flip(kCfg, 200);
  RandomSchedule(stalls, false);
  // Clients which are refused try again all the time.
  Config().max_stall_ns = 2000000000;
  const bool net_faults = Flip(kCfg, 400), disk_faults = Flip(kCfg, 250);
  RandomNet(net_faults);
  SimDisk disk;
  disk.cfg = RandomDisk(disk_faults);
  World w;
  w.ep.node = 1;
  Saves saves;
  saves.w = &w;
  saves.disk = &disk;
  saves.reliable = !net_faults && !disk_faults;
  w.chunk_data = &saves.chunks;
  const bool async = Flip(kCfg, 500);
  const bool decomposable = Flip(kCfg, 500);
  const int nt = 1 + Choose(kCfg, 2);
  const int nlives = 2 + Choose(kCfg, 3);
  const int nwriters = Choose(kCfg, 3), nsamplers = Choose(kCfg, 2),
            nsavers = 1 + Weighted(kCfg, {3, 1});
  for (int i = 0; i < nt; i++) {
    TableSpec s;
    s.name = StrCat("t", i);
    s.sampler = RandomSelector();
    s.remover = RandomSelector();
    s.max_size = Flip(kCfg, 300) ? 3 + Choose(kCfg, 5) : 1000;
    s.max_times = Flip(kCfg, 300) ? 1 + Choose(kCfg, 3) : 0;
    s.limiter = Flip(kCfg, 400) ? LiveLimiter() : OpenLimiter();
    // Writers which do not know the signature can write items that samplers
    // refuse.
    w.AddTable(s, Flip(kCfg, 300) && !(nwriters && nsamplers), decomposable);
  }
  const bool feed = nsamplers || Flip(kCfg, 500);
  const bool drain = !nsamplers || Flip(kCfg, 500);
  saves.single = nsavers == 1;
  bool quiet = false, feeding = true, saving = true;
  std::vector<std::unique_ptr<TrajClient>> writers;
  std::vector<std::unique_ptr<SamplerClient>> samplers;
  std::vector<Fiber*> fs, sfs, feeders, sv;
  std::vector<std::unique_ptr<rv::Client>> clients;
  for (int life = 0; life < nlives; life++) {
    const bool last = life == nlives - 1;
    // Start, again if the disk fails.
    absl::Status st;
    for (int attempt = 0;; attempt++) {
      if (attempt > 10) disk.cfg.read_fail_permille = 0;
      w.NewTables();
      for (auto& t : w.tables) t->oracle->loading = true;
      std::vector<rv::Table*> before;
      for (auto& t : w.tables) before.push_back(t->table.get());
      const int rf = disk.read_faults[FiberId()];
      st = w.TryStart(async, std::make_shared<rv::TFRecordCheckpointer>(
                                 kServerRoot));
      const bool faulty = disk.read_faults[FiberId()] > rf;
      SIM_LOG(StrCat("life ", life, " starts: ", st.ToString()));
      if (!st.ok()) {
        if (!faulty) {
          Violate("K02,K03,K01", "load-fails",
                  StrCat("the server does not start: ", st.ToString()));
          EndRun();
        }
        continue;
      }
      size_t same = 0;
      for (size_t i = 0; i < w.tables.size(); i++)
        same += w.tables[i]->table.get() == before[i];
      if (same == w.tables.size()) {
        if (SaveRec* must = LastOk(saves.all)) {
          Violate("K02,K04", "checkpoint-lost",
                  StrCat("the server starts empty although save ", must->id,
                         " was successful"));
          EndRun();
        }
      } else {
        std::vector<LoadedTable> loaded;
        for (auto& t : w.tables)
          loaded.push_back({t->spec.name, t->table.get(), t->oracle.get()});
        Adopt(saves.all, saves.chunks, loaded, StrCat("life ", life));
      }
      break;
    }
    for (auto& t : w.tables) t->oracle->loading = false;
    w.StartLogs();
    w.ep.up = true;
    EndpointChanged(&w.ep);
    if (life == 0) {
      EnableMemPreemption();
      for (int i = 0; i < nwriters; i++) {
        auto c = std::make_unique<TrajClient>();
        c->w = &w;
        c->id = i;
        c->stream = kWork + 1 + i;
        c->w_quiet = [&quiet] { return quiet; };
        const int nc = 1 + Choose(kCfg, 4);
        for (int j = 0; j < nc; j++) {
          ServerTable* t = w.tables[Choose(kCfg, nt)].get();
          if (t->has_signature && !Flip(kCfg, 300))
            c->cols.push_back(t->signature[j % t->signature.size()]);
          else
            c->cols.push_back(RandomColSpec(kCfg));
        }
        TrajClient* p = c.get();
        writers.push_back(std::move(c));
        SetNode(10 + i);
        const int nops = 10 + Choose(kCfg, 40);
        fs.push_back(Spawn(StrCat("writer", i), [p, nops] { p->Run(nops); }));
      }
      for (int i = 0; i < nsamplers; i++) {
        auto c = std::make_unique<SamplerClient>();
        c->w = &w;
        c->id = i;
        c->stream = kWork + 11 + i;
        c->t = w.tables[Choose(kCfg, nt)].get();
        c->decomposable = decomposable && !nwriters;
        c->faults = true;
        c->extra_ns = 2000000000;
        c->w_quiet = [&quiet] { return quiet; };
        c->node = 30 + i;
        SamplerClient* p = c.get();
        samplers.push_back(std::move(c));
        SetNode(30 + i);
        const int rounds = 2 + Choose(kCfg, 5);
        sfs.push_back(
            Spawn(StrCat("sampler", i), [p, rounds] { p->Run(rounds); }));
      }
      for (int i = 0; i < nsavers; i++) {
        SetNode(40 + i);
        clients.push_back(std::make_unique<rv::Client>(w.Stub()));
        rv::Client* c = clients.back().get();
        sv.push_back(Spawn(StrCat("saver", i), [&saves, &saving, c, i] {
          const int s = kWork + 20 + i;
          for (int n = 0; n < 30 && saving; n++) {
            SleepNs(1 + 10000 * Choose(s, 500));
            saves.Save(c, s);
          }
        }));
      }
      SetNode(0);
    }
    SetNode(w.ep.node);
    feeders.clear();
    if (feed) {
      const int pause_us = 1 + Choose(kWork, 3000);
      for (int i = 0; i < nt; i++) {
        ServerTable* t = w.tables[i].get();
        const int stream = kWork + 5 + i;
        feeders.push_back(Spawn(StrCat("feeder", i), [&w, &feeding, t, stream,
                                                      i, pause_us,
                                                      decomposable] {
          int count = 0;
          while (feeding) {
            count++;
            w.Feed(t, stream, 100 + i, decomposable, absl::Milliseconds(50));
            SleepNs(1000LL * (1 + Choose(stream, pause_us)) +
                    (count < 30 ? 0 : 20000000));
          }
        }));
      }
    }
    if (drain) w.StartDrain();
    SetNode(0);
    if (last) break;
    SleepNs(1000LL * Choose(kWork, 30000));
    const bool machine = Flip(kWork, 500);
    SIM_LOG(machine ? "the server's machine crashes"
                    : "the server's process crashes");
    Fault("server-crash");
    w.Crash();
    disk.Crash(machine);
    saves.life++;
    for (auto& s : saves.all)
      if (!s->end && !s->crashed) {
        s->crashed = true;
        Probe("crash-during-save");
      }
    SleepNs(1000LL * (1 + Choose(kWork, 50000)));
  }
  // The end: everything gets through.
  for (auto& c : writers) {
    int64_t until = NowNs() + 5000000000;
    while (!c->done_ops && NowNs() < until) SleepNs(1000000);
  }
  StopNetFaults();
  StopStalls();
  quiet = true;
  saving = false;
  if (!drain) {
    SetNode(w.ep.node);
    w.StartDrain();
    SetNode(0);
  }
  const int64_t healed = NowNs(), until = healed + 30000000000;
  for (size_t i = 0; i < fs.size(); i++) {
    while (!Done(fs[i]) && NowNs() < until) SleepNs(5000000);
    if (!Done(fs[i]))
      Violate("W03", "writer-hangs",
              StrCat("a call of writer ", i, " has not returned 30 s after the "
                     "last fault: ", BlockedFibers()));
    if (!Done(fs[i])) EndRun();
  }
  for (size_t i = 0; i < sfs.size(); i++) {
    int64_t waiting = 0;
    while (!Done(sfs[i]) && NowNs() < until) {
      SleepNs(5000000);
      waiting = NowNs() - std::max(samplers[i]->call_since, healed);
      if (samplers[i]->in_call && waiting > 20000000000) break;
    }
    if (!Done(sfs[i]))
      Violate("S01,S04", "sampler-hangs",
              StrCat("sampler ", i, waiting ? " waits" : " has not ended",
                     " long after the last fault: ", BlockedFibers()));
    if (!Done(sfs[i])) EndRun();
  }
  if (w.async) {
    int64_t end = NowNs() + 20000000000;
    while (NowNs() < end) {
      bool missing = false;
      for (auto& e : w.items)
        missing |= e->acked && e->inserts == 0 && !e->may_be_lost;
      if (!missing) break;
      SleepNs(1000000);
    }
  }
  feeding = false;
  for (Fiber* f : feeders) Join(f);
  for (Fiber* f : sv) Join(f);
  w.StopDrain();
  w.CheckEnd();
  DisableMemPreemption();
  w.Stop();
}
}  // namespace

SCENARIO(restart) { RunRestart(); }

}  // namespace harness

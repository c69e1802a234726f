// Chunk store, queues, executors and periodic closures.
#include "absl/strings/str_cat.h"
#include "harness/oracle.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/support/periodic_closure.h"
#include "reverb/cc/support/queue.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/support/unbounded_queue.h"
#include "reverb/cc/task_worker.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

// ------------------------------------------------------------ chunk store
namespace {
using Chunk = rv::ChunkStore::Chunk;

struct StoreModel {
  struct Live {
    const Chunk* ptr = nullptr;
    int holders = 0;
    uint64_t version = 0;
  };
  std::map<Key, Live> live;
  // Versions ever passed to Insert, by key.
  std::map<Key, std::set<uint64_t>> offered;
  struct Watch {
    std::vector<Key> keys;
    bool gap = false;
    std::map<Key, const Chunk*> at_start;
  };
  std::set<Watch*> watches;

  void Acquire(Key key, const std::shared_ptr<Chunk>& c, const char* what) {
    NoPreempt np;
    Live& l = live[key];
    if (c->key() != key)
      Violate("C01", "wrong-chunk",
              StrCat(what, " of key ", key, " gave a chunk with key ",
                     c->key()));
    if (l.holders > 0 && l.ptr != c.get())
      Violate("C01", "second-copy",
              StrCat(what, " of key ", key,
                     " gave another chunk although one is still in use"));
    uint64_t version = c->episode_id();
    if (!offered[key].count(version))
      Violate("C01", "wrong-data", StrCat("key ", key, " has strange data"));
    if (l.holders > 0 && l.version != version)
      Violate("C01", "data-changed", StrCat("data of key ", key, " changed"));
    l.ptr = c.get();
    l.version = version;
    l.holders++;
  }
  void Release(Key key) {
    NoPreempt np;
    Live& l = live[key];
    if (--l.holders == 0) {
      for (Watch* w : watches)
        for (Key k : w->keys)
          if (k == key) w->gap = true;
    }
  }
};

void StoreClient(rv::ChunkStore* store, StoreModel* m, int id, int nops,
                 int keys) {
  const int s = kWork + 1 + id;
  std::vector<std::pair<Key, std::shared_ptr<Chunk>>> mine;
  static uint64_t version;
  version = 0;
  uint64_t next = 1;
  auto drop = [&](size_t i) {
    Key k = mine[i].first;
    m->Release(k);
    mine[i].second.reset();
    mine.erase(mine.begin() + i);
  };
  for (int i = 0; i < nops; i++) {
    switch (Weighted(s, {1, 5, 4, 5, 1})) {
      case 0: break;
      case 1: {
        Key key = 1 + Choose(s, keys);
        uint64_t v = (id + 1) * 1000 + next++;
        rv::ChunkData d = MakeChunkData(key, v);
        {
          NoPreempt np;
          m->offered[key].insert(v);
        }
        SIM_LOG(StrCat("insert ", key, " version ", v));
        auto c = store->Insert(std::move(d));
        if (!c) {
          Violate("C01", "null-chunk", "Insert returned nothing");
          break;
        }
        m->Acquire(key, c, "Insert");
        mine.push_back({key, std::move(c)});
        break;
      }
      case 2: {
        StoreModel::Watch w;
        int n = 1 + Choose(s, 3);
        bool bad = false;
        for (int j = 0; j < n; j++) {
          Key k = 1 + Choose(s, keys + 1);
          bad |= k > static_cast<Key>(keys);
          w.keys.push_back(k);
        }
        {
          NoPreempt np;
          for (Key k : w.keys)
            if (m->live[k].holders == 0) w.gap = true;
          m->watches.insert(&w);
        }
        std::vector<std::shared_ptr<Chunk>> out;
        auto st = store->Get(w.keys, &out);
        {
          NoPreempt np;
          m->watches.erase(&w);
        }
        SIM_LOG(StrCat("get of ", n, " keys -> ", st.ok()));
        if (st.ok()) {
          if (bad || out.size() != w.keys.size()) {
            Violate("C01", "get-unknown",
                    StrCat("Get of ", w.keys.size(), " keys ",
                           bad ? "with an unknown one " : "", "returned ",
                           out.size(), " chunks"));
            break;
          }
          for (size_t j = 0; j < out.size(); j++) {
            if (!out[j]) {
              Violate("C01", "null-chunk", "Get returned OK and a null chunk");
              break;
            }
            m->Acquire(w.keys[j], out[j], "Get");
            mine.push_back({w.keys[j], std::move(out[j])});
          }
        } else {
          if (!w.gap)
            Violate("C01", "chunk-lost",
                    StrCat("Get failed with ", st.ToString(),
                           " although every chunk was referenced all the "
                           "time"));
          if (st.code() != tensorflow::error::NOT_FOUND)
            Violate("C01", "wrong-error", st.ToString());
          Probe("get-not-found");
        }
        break;
      }
      case 3:
        if (!mine.empty()) drop(Choose(s, mine.size()));
        break;
      case 4: SleepNs(1000 * (1 + Choose(s, 200))); break;
    }
  }
  if (Flip(s, 500)) SleepNs(3000000);
  while (!mine.empty()) drop(0);
}
}  // namespace

SCENARIO(chunk_store) {
  SetHangProps("C01");
  RandomSchedule(Flip(kCfg, 500), false);
  StoreModel m;
  auto store = std::make_unique<rv::ChunkStore>(1 + Choose(kCfg, 3));
  const int keys = 1 + Choose(kCfg, 4);
  const int clients = 2 + Choose(kCfg, 3);
  const int nops = 3 + Choose(kCfg, 15);
  EnableMemPreemption();
  std::vector<Fiber*> fs;
  for (int i = 0; i < clients; i++)
    fs.push_back(Spawn(StrCat("client", i), [&, i] {
      StoreClient(store.get(), &m, i, nops, keys);
    }));
  for (Fiber* f : fs) Join(f);
  // With nothing referenced every lookup fails and every key is free again.
  std::vector<std::shared_ptr<Chunk>> out;
  for (int k = 1; k <= keys; k++) {
    if (store->Get({static_cast<Key>(k)}, &out).ok())
      Violate("C01", "chunk-not-freed",
              StrCat("chunk ", k, " is still there without any reference"));
    m.offered[k].insert(9);
    auto c = store->Insert(MakeChunkData(k, 9));
    if (!c || c->episode_id() != 9)
      Violate("C01", "stale-data",
              StrCat("a new insert of ", k, " returns old data"));
    Quiesce();
    if (!store->Get({static_cast<Key>(k)}, &out).ok())
      Violate("C01", "chunk-lost",
              StrCat("chunk ", k, " is not found although referenced"));
    out.clear();
    if (k == keys && Flip(kWork, 500)) store.reset();
    if (!store) break;
  }
  store.reset();
  DisableMemPreemption();
}

// ----------------------------------------------------------------- queues
namespace {
struct QOp {
  int value = 0;
  uint64_t start = 0, end = 0;  // end 0: still in the call
  bool ok = false;
};
struct QModel {
  uint64_t seq = 0;
  std::vector<std::unique_ptr<QOp>> pushes;
  std::vector<std::unique_ptr<QOp>> pops;  // one per popped value
  std::map<int, QOp*> by_value;
  std::set<int> popped;
  int pushing = 0, popping = 0, popping_batch = 0;
  uint64_t closed_at = 0;       // Close returned
  bool close_started = false;
  bool last_started = false;
  uint64_t last_at = 0;
  int capacity = 0;

  void Popped(int v, uint64_t start) {
    pops.push_back(std::make_unique<QOp>());
    QOp* p = pops.back().get();
    p->value = v;
    p->start = start;
    p->end = ++seq;
    if (!by_value.count(v))
      Violate("Q01", "strange-element", StrCat("popped ", v, " never pushed"));
    else if (by_value[v]->end && !by_value[v]->ok)
      Violate("Q01", "strange-element",
              StrCat("popped ", v, " whose push was refused"));
    if (!popped.insert(v).second)
      Violate("Q01", "popped-twice", StrCat("popped ", v, " twice"));
  }
  int Size() {
    int n = 0;
    for (auto& p : pushes) n += p->end && p->ok;
    return n - static_cast<int>(popped.size());
  }
  void CheckOrder() {
    for (auto& x : pushes) {
      if (!x->end || !x->ok) continue;
      uint64_t xs = UINT64_MAX;  // start of x's pop
      for (auto& p : pops)
        if (p->value == x->value) xs = p->start;
      for (auto& p : pops) {
        QOp* y = by_value.count(p->value) ? by_value[p->value] : nullptr;
        if (!y || y == x.get()) continue;
        if (x->end < y->start && p->end < xs && xs != UINT64_MAX)
          Violate("Q01", "order",
                  StrCat("value ", y->value, " overtakes ", x->value));
        if (x->end < y->start && xs == UINT64_MAX && popping == 0 &&
            popping_batch == 0)
          Violate("Q01", "element-lost",
                  StrCat("value ", x->value, " is skipped"));
      }
    }
  }
};

template <typename Q>
struct Batch {
  static constexpr bool kHas = false;
};
template <>
struct Batch<rv::internal::Queue<int>> {
  static constexpr bool kHas = true;
};

template <typename Q>
void RunQueue(Q* q, QModel* m) {
  const int npush = 1 + Choose(kCfg, 3), npop = 1 + Choose(kCfg, 3);
  const int nops = 2 + Choose(kCfg, 10);
  int running_pushers = npush;
  std::vector<Fiber*> fs;
  for (int i = 0; i < npush; i++) {
    fs.push_back(Spawn(StrCat("push", i), [&, i] {
      const int s = kWork + 1 + i;
      for (int j = 0; j < nops; j++) {
        QOp* op;
        {
          NoPreempt np;
          m->pushes.push_back(std::make_unique<QOp>());
          op = m->pushes.back().get();
          op->value = (i + 1) * 100 + j;
          op->start = ++m->seq;
          m->by_value[op->value] = op;
          m->pushing++;
        }
        const bool was_closed = m->closed_at != 0 || m->last_at != 0;
        bool ok = q->Push(op->value);
        NoPreempt np;
        m->pushing--;
        op->end = ++m->seq;
        op->ok = ok;
        if (ok && was_closed)
          Violate("Q01", "push-after-close", "a push after close succeeded");
        if (!ok && !m->close_started && !m->last_started)
          Violate("Q01", "push-refused", "a push was refused by an open queue");
        if (!ok && m->popped.count(op->value))
          Violate("Q01", "strange-element", "a refused element was popped");
        if (!ok) break;
        if (Flip(s, 100)) SleepNs(1000 * Choose(s, 100));
      }
      running_pushers--;
    }));
  }
  for (int i = 0; i < npop; i++) {
    fs.push_back(Spawn(StrCat("pop", i), [&, i] {
      const int s = kWork + 10 + i;
      for (int j = 0; j < 4 * nops; j++) {
        const uint64_t start = ++m->seq;
        const bool was_closed = m->closed_at != 0;
        if constexpr (Batch<Q>::kHas) {
          if (Flip(s, 300)) {
            int n = 1 + Choose(s, 3);
            std::vector<int> out;
            absl::Duration timeout =
                Flip(s, 500) ? absl::Microseconds(1 + Choose(s, 500))
                             : absl::InfiniteDuration();
            const int64_t t0 = NowNs();
            m->popping_batch++;
            absl::Status st = q->PopBatch(n, timeout, &out);
            NoPreempt np;
            m->popping_batch--;
            if (st.ok()) {
              if (static_cast<int>(out.size()) != n || was_closed)
                Violate("Q01", "batch-size",
                        StrCat("PopBatch(", n, ") returned ", out.size()));
              for (int v : out) m->Popped(v, start);
            } else if (absl::IsDeadlineExceeded(st)) {
              if (absl::Nanoseconds(NowNs() - t0) < timeout)
                Violate("Q01", "early-timeout", "PopBatch timed out early");
              Probe("batch-timeout");
            } else if (absl::IsInvalidArgument(st)) {
              if (n <= m->capacity)
                Violate("Q01", "batch-refused", st.ToString());
            } else if (absl::IsResourceExhausted(st)) {
              if (!m->last_started ||
                  (m->Size() >= n && m->popping + m->popping_batch == 0))
                Violate("Q01", "batch-exhausted",
                        StrCat("PopBatch(", n, ") is refused with ",
                               m->Size(), " elements in the queue"));
              Probe("batch-exhausted");
            } else if (!m->close_started && !m->last_started) {
              Violate("Q01", "batch-cancelled", st.ToString());
            }
            if (!st.ok() && !out.empty())
              Violate("Q01", "element-lost", "failed PopBatch has elements");
            if (absl::IsCancelled(st)) break;
            continue;
          }
        }
        int v = -1;
        m->popping++;
        bool ok = q->Pop(&v);
        NoPreempt np;
        m->popping--;
        if (ok) {
          if (was_closed)
            Violate("Q01", "pop-after-close", "a pop after close succeeded");
          m->Popped(v, start);
        } else {
          if (!m->close_started && !m->last_started)
            Violate("Q01", "pop-refused", "a pop failed on an open queue");
          break;
        }
        if (Flip(s, 100)) SleepNs(1000 * Choose(s, 100));
      }
    }));
  }
  auto check_quiet = [&] {
    NoPreempt np;
    m->CheckOrder();
    if (m->close_started && !m->closed_at) return;
    const int size = m->Size();
    if (q->size() != size && !m->closed_at)
      Violate("Q01", "wrong-size", StrCat("size() is ", q->size(), ", expected ",
                                          size));
    if (m->capacity && size > m->capacity)
      Violate("Q01", "over-capacity", StrCat(size, " elements"));
    const bool ended = m->closed_at || m->last_at;
    if (m->pushing && (ended || !m->capacity || size < m->capacity))
      Violate("Q01", "lost-push-wakeup",
              StrCat("a push is blocked with ", size, " elements of ",
                     m->capacity, ended ? " after close" : ""));
    if (m->popping && (m->closed_at || size > 0 || m->last_at))
      Violate("Q01", "lost-pop-wakeup",
              StrCat("a pop is blocked with ", size, " elements",
                     ended ? " after close" : ""));
    if (m->popping_batch && ended)
      Violate("Q01", "lost-pop-wakeup", "a batch pop is blocked after close");
  };
  Quiesce();
  check_quiet();
  const int how = Choose(kWork, 3);
  if (how == 0) {
    m->last_started = true;
    q->SetLastItemPushed();
    m->last_at = ++m->seq;
    Quiesce();
    check_quiet();
  }
  if (how == 1) SleepNs(1000 * Choose(kWork, 300));
  // Drain what is left so that blocked pushers end.
  if (how == 0) {
    int v;
    uint64_t start = ++m->seq;
    m->popping++;
    while (q->Pop(&v)) {
      m->Popped(v, start);
      start = ++m->seq;
    }
    m->popping--;
    for (Fiber* f : fs) Join(f);
    if (m->Size() != 0)
      Violate("Q01", "element-lost",
              StrCat(m->Size(), " elements were never delivered"));
    m->CheckOrder();
  }
  m->close_started = true;
  q->Close();
  m->closed_at = ++m->seq;
  if (how != 0) {
    Quiesce();
    check_quiet();
  }
  for (Fiber* f : fs) Join(f);
  m->CheckOrder();
}
}  // namespace

SCENARIO(queue) {
  SetHangProps("Q01");
  RandomSchedule(Flip(kCfg, 500), false);
  QModel m;
  EnableMemPreemption();
  if (Flip(kCfg, 700)) {
    m.capacity = 1 + Choose(kCfg, 4);
    rv::internal::Queue<int> q(m.capacity);
    RunQueue(&q, &m);
  } else {
    rv::internal::UnboundedQueue<int> q;
    RunQueue(&q, &m);
  }
  DisableMemPreemption();
}

// -------------------------------------------------------------- executors
namespace {
struct Task {
  uint64_t start, end = 0;
  int runs = 0;
  bool cancelled = false;
  uint64_t run_at = 0;
};
struct TaskModel {
  uint64_t seq = 0;
  uint64_t close_started = 0;
  std::vector<std::unique_ptr<Task>> tasks;
  int active = 0, max_active = 0;
  Task* New() {
    NoPreempt np;
    tasks.push_back(std::make_unique<Task>());
    tasks.back()->start = ++seq;
    return tasks.back().get();
  }
  void Run(Task* t, int threads, bool cancelled) {
    NoPreempt np;
    t->run_at = ++seq;
    t->cancelled = cancelled;
    if (++t->runs > 1) Violate("Q01", "task-twice", "a task runs twice");
    if (++active > threads && !close_started)
      Violate("Q01", "too-many-threads",
              StrCat(active, " tasks run at once with ", threads, " threads"));
  }
  void Check(int threads) {
    for (auto& t : tasks) {
      if (t->runs != 1 && t->end && (!close_started || t->end < close_started))
        Violate("Q01", "task-lost",
                StrCat("a task ran ", t->runs, " times"));
      if (threads != 1) continue;
      for (auto& u : tasks)
        if (t->end && t->end < u->start && u->runs && t->runs &&
            u->run_at < t->run_at &&
            (!close_started || t->run_at < close_started))
          Violate("Q01", "task-order", "a later task runs first");
    }
  }
};
}  // namespace

SCENARIO(executor) {
  SetHangProps("Q01");
  const bool stalls = Flip(kCfg, 500);
  RandomSchedule(stalls, false);
  TaskModel m;
  const int threads = 1 + Choose(kCfg, 3);
  const int clients = 1 + Choose(kCfg, 3);
  const int nops = 1 + Choose(kCfg, 10);
  const bool late = Flip(kCfg, 300);
  EnableMemPreemption();
  std::vector<Fiber*> fs;
  auto body = [&](auto schedule) {
    for (int i = 0; i < clients; i++)
      fs.push_back(Spawn(StrCat("client", i), [&, i, schedule] {
        const int s = kWork + 1 + i;
        for (int j = 0; j < nops; j++) {
          Task* t = m.New();
          int64_t pause = Flip(s, 300) ? 1000 * Choose(s, 2000) : 0;
          schedule(t, pause);
          t->end = ++m.seq;
          if (Flip(s, 200)) SleepNs(1000 * Choose(s, 500));
        }
      }));
    if (!late) {
      for (Fiber* f : fs) Join(f);
      if (!stalls && Flip(kWork, 500)) {
        // Everything must get done without further calls.
        SleepNs(1000000000);
        Quiesce();
        m.Check(threads);
      }
    } else {
      SleepNs(1000 * Choose(kWork, 1000));
    }
  };
  if (Flip(kCfg, 600)) {
    rv::TaskExecutor ex(threads, "exec");
    body([&](Task* t, int64_t pause) {
      ex.Schedule([&m, t, pause, threads] {
        m.Run(t, threads, false);
        if (pause) SleepNs(pause);
        m.active--;
      });
    });
    m.close_started = ++m.seq;
    ex.Close();
    for (Fiber* f : fs) Join(f);
  } else {
    rv::InsertWorker w(threads, Choose(kCfg, 5), "worker");
    body([&](Task* t, int64_t pause) {
      rv::InsertTaskInfo info;
      info.send_confirmation = false;
      w.Schedule(std::move(info),
                 [&m, t, pause, threads](rv::InsertTaskInfo,
                                         const absl::Status& st, bool) {
                   m.Run(t, threads, !st.ok());
                   if (!st.ok() && !m.close_started)
                     Violate("Q01", "task-cancelled",
                             "a task was cancelled before shutdown");
                   if (pause) SleepNs(pause);
                   m.active--;
                 });
    });
    m.close_started = ++m.seq;
    w.Close();
    for (Fiber* f : fs) Join(f);
  }
  m.Check(threads);
  DisableMemPreemption();
}

SCENARIO(periodic) {
  SetHangProps("Q01");
  const bool stalls = Flip(kCfg, 300);
  RandomSchedule(stalls, false);
  const int64_t period = 1000 * (1 + Choose(kCfg, 2000));
  bool running = false, stopped = false;
  int64_t last = -1, calls = 0;
  EnableMemPreemption();
  const int64_t t0 = NowNs();
  {
    rv::internal::PeriodicClosure c(
        [&] {
          {
            NoPreempt np;
            if (running)
              Violate("Q01", "closure-overlap", "two runs at the same time");
            if (stopped)
              Violate("Q01", "closure-after-stop", "a run after Stop returned");
            running = true;
            calls++;
            const int64_t now = NowNs();
            // Reading the clock and the call are some steps apart.
            const int64_t slack = 20 * Config().step_ns;
            if (!stalls && now - (last < 0 ? t0 : last) < period - slack)
              Violate("Q01", "closure-too-often",
                      StrCat("runs ", now - (last < 0 ? t0 : last),
                             "ns apart with period ", period, "ns"));
            last = now;
          }
          if (Flip(kWork, 300)) SleepNs(1000 * Choose(kWork, 4000));
          running = false;
        },
        absl::Nanoseconds(period), "periodic");
    if (!c.Start().ok()) Violate("Q01", "start-failed", "Start failed");
    if (Flip(kWork, 200) && c.Start().ok())
      Violate("Q01", "start-twice", "a second Start succeeded");
    const int64_t wait = period * Choose(kWork, 12);
    if (wait) SleepNs(wait);
    Quiesce();
    if (wait > 0 && calls == 0 && !stalls && wait > 2 * period &&
        NowNs() - t0 > 2 * period + 1000000)
      Violate("Q01", "closure-not-run",
              StrCat("no run within ", NowNs() - t0, "ns, period ", period));
    Fiber* other = nullptr;
    int ok = 0;
    if (Flip(kWork, 200))
      other = Spawn("stop", [&] { ok += c.Stop().ok(); });
    ok += c.Stop().ok();
    if (!other) {
      if (running)
        Violate("Q01", "closure-after-stop", "Stop returned during a run");
      stopped = true;
    } else {
      Join(other);
      stopped = true;
    }
    if (ok != 1) Violate("Q01", "stop-twice", StrCat(ok, " Stops succeeded"));
  }
  SleepNs(5 * period);
  DisableMemPreemption();
}

}  // namespace harness

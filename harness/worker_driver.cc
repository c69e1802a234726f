#include "harness/worker_driver.h"

#include "absl/strings/str_cat.h"
#include "reverb/cc/errors.h"

namespace harness {
using absl::StrCat;
using namespace reverbsim;

void Recorder::Got(EvType t, const rv::ExtensionItem* item) {
  size_t i;
  {
    NoPreempt np;
    i = n_++;
    const auto& log = o_->log();
    if (i >= log.size()) {
      Violate("T08", "extra-notification",
              StrCat(name_, " is told of a ", EvName(t),
                     " that the table did not make"));
      return;
    }
    const Ev& e = log[i];
    bool ok = e.type == t;
    if (ok && item)
      ok = item->ref->item.key() == e.key && item->priority == e.priority &&
           item->times_sampled == e.times_sampled;
    if (!ok)
      Violate("T08", "wrong-notification",
              StrCat(name_, " is told of ", EvName(t), " ",
                     item ? StrCat("key ", item->ref->item.key(), " priority ",
                                   item->priority, " times ",
                                   item->times_sampled)
                          : "",
                     " where the table did ", Str(e)));
  }
  if (async_ && slow_ > 0 && Flip(kTime, slow_)) {
    Fault("slow-extension");
    busy = true;
    SleepNs(1000 * (1 + Choose(kTime, 3000)));
    busy = false;
  }
}

void WorkerDriver::Setup(int threads) {
  executor = std::make_shared<rv::TaskExecutor>(threads, "callbacks");
  spec.worker = true;
  max_enqueued_inserts =
      std::max<int64_t>(1, std::min<int64_t>(spec.max_size * 0.1, 1000));
  oracle->on_sample = [this](const rv::ExtensionItem& item) {
    last_ref = item.ref.get();
  };
  oracle->on_event = [this](const Ev& e) {
    for (auto& s : samples)
      if (s->answers == 0 && !oracle->CanSample()) s->denied = true;
    OpCtx* op = static_cast<OpCtx*>(FiberSlot());
    if (e.type == kEvSample) {
      completed_samples++;
      sample_log.push_back({e, last_ref});
      if (op)
        Violate("T06,T09", "unexpected-sample",
                "a sample was taken by a fiber that does not sample");
    }
    if (op == nullptr && (e.type == kEvInsert || e.type == kEvUpdate)) {
      AsyncInsert* found = nullptr;
      for (auto& i : inserts)
        if (!i->applied && !i->refused && i->key == e.key && i->priority == e.priority) {
          found = i.get();
          break;
        }
      if (!found) {
        Violate("T06,T08,T09", "unexpected-insert",
                StrCat("the worker applies ", Str(e),
                       " which is not a pending insert"));
        return;
      }
      found->applied = true;
      completed_inserts++;
      if (e.type == kEvUpdate) Probe("async-insert-became-update");
      if (!close_started)
        for (auto& i : inserts)
          if (!i->applied && i->end != 0 && i->end < found->start)
            Violate("T09", "insert-order",
                    StrCat("the worker applies the insert of key ", e.key,
                           " before that of key ", i->key,
                           " which was accepted earlier"));
    }
    if (op == nullptr && e.type == kEvReset)
      Violate("T06", "unexpected-reset", "reset by nobody");
  };
}

HoldBack* WorkerDriver::NewHold() {
  holds.push_back(std::make_unique<HoldBack>());
  HoldBack* h = holds.back().get();
  h->cb = std::make_shared<std::function<void(const absl::Status&)>>(
      [this, h](const absl::Status& st) {
        NoPreempt np;
        h->delivered++;
        if (!st.ok()) {
          h->error = true;
          if (!close_started)
            Violate("T09", "insert-notification-error",
                    StrCat("an insert notification carries ", st.ToString(),
                           " although the table is open"));
        }
        if (h->delivered > h->registered)
          Violate("T09", "insert-notification-twice",
                  "more insert notifications than inserts told to hold back");
        if (h->waiting) {
          Fiber* f = h->waiting;
          h->waiting = nullptr;
          Wake(f);
        }
      });
  return h;
}

bool WorkerDriver::InsertAsync(Key key, double priority, int episode,
                               int nchunks, HoldBack* hold) {
  std::vector<std::shared_ptr<rv::ChunkStore::Chunk>> chunks;
  for (int i = 0; i < nchunks; i++) {
    chunks.push_back(MakeChunk(next_chunk++, episode + i));
    all_chunks.push_back(chunks.back());
  }
  rv::TableItem item = MakeItem(spec.name, key, priority, chunks);
  chunks.clear();
  const bool malformed = Malform(kWork, &item);
  bool more = false;
  AsyncInsert* in;
  {
    NoPreempt np;
    inserts.push_back(std::make_unique<AsyncInsert>());
    in = inserts.back().get();
    in->key = key;
    in->priority = priority;
    in->start = ++seq;
    in->end = 0;
    // The notification may arrive before the call returns.
    hold->registered++;
  }
  SIM_LOG(StrCat("async insert key=", key, " priority=", priority));
  absl::Status st = table->InsertOrAssignAsync(std::move(item), &more, hold->cb);
  NoPreempt np;
  if (!st.ok()) {
    in->refused = true;
    hold->registered--;
    const bool invalid = malformed || InvalidPriority(spec, priority);
    if (in->applied || !invalid ||
        st.code() != absl::StatusCode::kInvalidArgument)
      Violate("T09,T06", "unexpected-status",
              StrCat("an asynchronous insert ended with ", st.ToString()));
    Probe("invalid-priority-refused");
    return true;
  }
  if (malformed)
    Violate("T06", "malformed-item-accepted",
            "an insert whose chunks do not match its trajectory returned OK");
  in->end = ++seq;
  if (more) {
    hold->registered--;
    if (hold->delivered > hold->registered)
      Violate("T09", "insert-notification-twice",
              "an insert notification although nobody was told to hold back");
  }
  return more;
}

void WorkerDriver::WaitHold(HoldBack* h) {
  while (h->delivered < h->registered && !h->error) {
    h->waiting = Self();
    BlockUntil(kForever, "insert hold back");
  }
}

AsyncSample* WorkerDriver::SampleAsync(int want, absl::Duration timeout) {
  NoPreempt* np = new NoPreempt;
  samples.push_back(std::make_unique<AsyncSample>());
  AsyncSample* s = samples.back().get();
  s->want = want;
  s->start = ++seq;
  s->enqueued_ns = NowNs();
  s->timeout = timeout;
  s->denied = !oracle->CanSample();
  s->who = FiberName();
  s->cb = std::make_shared<rv::Table::SamplingCallback>(
      [this, s](rv::Table::SampleRequest* r) {
        NoPreempt np;
        Answered(s, r->status, &r->samples);
      });
  delete np;
  SIM_LOG(StrCat("async sample want=", want, " timeout=", DurStr(timeout)));
  table->EnqueSampleRequest(want, s->cb, timeout);
  s->accepted_ns = NowNs();
  s->end = ++seq;
  return s;
}

void WorkerDriver::SampleBlocking(int want, absl::Duration timeout) {
  AsyncSample* s;
  {
    NoPreempt np;
    samples.push_back(std::make_unique<AsyncSample>());
    s = samples.back().get();
    s->want = want;
    s->start = ++seq;
    s->enqueued_ns = NowNs();
    s->timeout = timeout;
    s->denied = !oracle->CanSample();
    s->who = FiberName();
  }
  SIM_LOG(StrCat("blocking sample want=", want, " timeout=", DurStr(timeout)));
  std::vector<rv::Table::SampledItem> items;
  absl::Status st = table->SampleFlexibleBatch(&items, want, timeout);
  NoPreempt np;
  Answered(s, st, &items);
  s->end = ++seq;
}

void WorkerDriver::Answered(AsyncSample* s, const absl::Status& st,
                            std::vector<rv::Table::SampledItem>* items) {
  SIM_LOG(StrCat("sample request of ", s->who, " answered ", st.ToString(),
                 " with ", items->size(), " samples"));
  if (++s->answers > 1) {
    Violate("T09,T03", "answered-twice", "a sample request is answered twice");
    return;
  }
  s->status = st;
  if (st.ok() && (items->empty() || static_cast<int>(items->size()) > s->want))
    Violate("T09,T06,T05", "wrong-sample-count",
            StrCat("a request for up to ", s->want, " samples got ",
                   items->size()));
  if (!st.ok() && !items->empty())
    Violate("T03,T09", "failed-call-has-effect",
            StrCat("a sample request that failed with ", st.ToString(),
                   " carries ", items->size(),
                   " samples, which the table has counted"));
  const int64_t dur = NowNs() - s->enqueued_ns;
  if (!st.ok()) {
    if (rv::errors::IsRateLimiterTimeout(st)) {
      if (s->timeout == absl::InfiniteDuration())
        Violate("T03,T09", "timeout-without-deadline",
                "a sample request without timeout timed out");
      else if (absl::Nanoseconds(dur) < s->timeout)
        Violate("T03,T09", "early-timeout",
                StrCat("a sample request with timeout ", DurStr(s->timeout),
                       " timed out after ", dur, "ns"));
      if (!s->denied)
        Violate("T03,T09", "timeout-though-allowed",
                "a sample request timed out although the limiter allowed "
                "samples all the time");
      Probe("async-timeout");
    } else if (st.code() == absl::StatusCode::kCancelled) {
      if (!close_started)
        Violate("T03,T09", "cancelled-without-close",
                "a sample request was cancelled although the table is open");
      Probe("async-cancelled");
    } else {
      Violate("T03,T06,T09", "unexpected-status",
              StrCat("a sample request ended with ", st.ToString()));
    }
  } else if (static_cast<int>(items->size()) < s->want) {
    Probe("async-partial-batch");
  }
  size_t after = 0;
  for (auto& it : *items) {
    bool found = false;
    for (size_t i = 0; i < sample_log.size(); i++) {
      SampleEvent& e = sample_log[i];
      if (e.claimed || e.ref != it.ref.get() ||
          e.ev.times_sampled != it.times_sampled)
        continue;
      found = true;
      e.claimed = true;
      if (!s->events.empty() && i < after)
        Violate("T06,T09", "sample-order",
                "the samples of one request are not in the order taken");
      after = i;
      s->events.push_back(i);
      CheckSampled(oracle.get(), it, e.ev);
      break;
    }
    if (!found)
      Violate("T05,T06,T09", "sample-unknown",
              StrCat("a request is answered with key ",
                     it.ref ? it.ref->item.key() : 0, " times_sampled ",
                     it.times_sampled, " which is no sample of the table"));
  }
}

void WorkerDriver::CheckOrder() {
  for (auto& a : samples)
    for (auto& b : samples) {
      if (a->end == 0 || a->events.empty() || b->events.empty()) continue;
      if (a->end < b->start && a->events.back() > b->events.front())
        Violate("T09", "request-order",
                "a later sample request got samples taken before those of an "
                "earlier one");
    }
}

void WorkerDriver::CheckQuiescentAsync() {
  // An extension that is just slow holds up everything; wait for it.
  for (bool busy = true; busy;) {
    Quiesce();
    busy = false;
    for (auto& r : recorders) busy |= r->busy;
    if (busy) SleepNs(1000000);
  }
  const MState& m = oracle->state();
  auto state = [&] {
    return StrCat("inserts ", m.inserts, " samples ", m.samples, " deletes ",
                  m.deletes, "; ", SpecString(spec), "; blocked: ",
                  BlockedFibers());
  };
  for (const OpCtx* op : oracle->open()) {
    (void)op;
    Violate("T02,T08,T09", "stuck-call",
            "a mutation or reset is blocked although nothing else runs: " +
                BlockedFibers());
  }
  int unapplied = 0, unanswered = 0;
  for (auto& i : inserts) unapplied += !i->applied && !i->refused;
  for (auto& s : samples) {
    if (s->answers) continue;
    unanswered++;
    if (closed)
      Violate("T03,T09", "blocked-after-close",
              "a sample request is not answered although the table was "
              "closed: " + state());
    if (s->timeout != absl::InfiniteDuration() &&
        s->accepted_ns >= 0 &&
        absl::Nanoseconds(NowNs() - s->accepted_ns) > s->timeout)
      Violate("T03,T09", "timeout-missing",
              StrCat("a sample request with timeout ", DurStr(s->timeout),
                     " is not answered after ", NowNs() - s->enqueued_ns,
                     "ns: ", state()));
  }
  if (!closed && unapplied > 0 && oracle->CanInsert())
    Violate("T02,T09", "lost-insert-wakeup",
            StrCat(unapplied, " queued insert(s) are not applied although the "
                              "limiter allows it: ", state()));
  if (!closed && unanswered > 0 && oracle->CanSample())
    Violate("T02,T09", "lost-sample-wakeup",
            StrCat(unanswered, " sample request(s) wait although the limiter "
                               "allows a sample: ", state()));
  if (unapplied) Probe("quiescent-with-queued-insert");
  if (unanswered) Probe("quiescent-with-queued-sample");
  int held = 0;
  for (auto& h : holds) held += h->registered - h->delivered;
  if (held > 0 && (closed || unapplied < max_enqueued_inserts))
    Violate("T09,T03", "insert-notification-missing",
            StrCat(held, " insert notification(s) are missing, ", unapplied,
                   " inserts are queued, ", max_enqueued_inserts,
                   " are allowed: ", state()));
  size_t unclaimed = 0;
  for (auto& e : sample_log) unclaimed += !e.claimed;
  size_t open_want = 0;
  for (auto& s : samples)
    if (!s->answers) open_want += s->want;
  if (unclaimed > open_want || (unanswered == 0 && unclaimed > 0))
    Violate("T03,T09,T06,T05", "samples-lost",
            StrCat(unclaimed, " samples were taken from the table but not "
                              "delivered by any request: ", state()));
  CheckOrder();
  for (auto& r : recorders)
    if (r->count() != oracle->log().size())
      Violate("T08", "notifications-missing",
              StrCat(r->DebugString(), " was told of ", r->count(), " of ",
                     oracle->log().size(), " changes"));
  NoPreempt np;
  rv::TableInfo info = table->info();
  oracle->CheckInfo(info, m, "at quiescence");
  const auto& is = info.rate_limiter_info().insert_stats();
  const auto& ss = info.rate_limiter_info().sample_stats();
  auto eq = [&](const char* what, int64_t got, int64_t want) {
    if (got != want)
      Violate("T07", StrCat("wrong-", what),
              StrCat("the limiter reports ", what, " ", got, ", expected ",
                     want, "; ", state()));
  };
  eq("completed-inserts", is.completed(), completed_inserts);
  eq("completed-samples", ss.completed(), completed_samples);
  eq("pending-inserts", is.pending(), 0);
  eq("pending-samples", ss.pending(), 0);
}

void WorkerDriver::CheckEnd() {
  for (auto& s : samples)
    if (s->answers != 1)
      Violate("T03,T09", "unanswered",
              StrCat("a sample request got ", s->answers,
                     " answers although the table is gone"));
  for (auto& h : holds)
    if (h->registered != h->delivered)
      Violate("T03,T09", "insert-notification-missing",
              StrCat(h->registered, " hold-backs, ", h->delivered,
                     " notifications although the table is gone"));
  CheckOrder();
  for (auto& r : recorders)
    if (r->registered != 1 || r->unregistered != 1)
      Violate("T08", "registration",
              StrCat(r->DebugString(), " registered ", r->registered,
                     " times, unregistered ", r->unregistered));
  if (oracle->registered() != 1 || oracle->unregistered() != 1)
    Violate("T08", "registration",
            StrCat("extension registered ", oracle->registered(),
                   " times, unregistered ", oracle->unregistered()));
}

}  // namespace harness

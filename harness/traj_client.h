// A trajectory writer with the model of what it must do.
#ifndef VERIF_HARNESS_TRAJ_CLIENT_H_
#define VERIF_HARNESS_TRAJ_CLIENT_H_

#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/world.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

struct Ref {
  std::weak_ptr<rv::CellRef> ref;
  Cell cell;
  int col;
};

struct TrajClient {
  World* w;
  int id;
  int stream;
  std::unique_ptr<rv::TrajectoryWriter> writer;
  std::unique_ptr<rv::Client> client;
  bool has_signatures = false;
  std::vector<ColSpec> cols;
  std::vector<int> keep;             // per column, smallest ever configured
  std::vector<std::deque<Ref>> history;
  std::vector<Expected*> created;    // in order, creation returned OK
  std::vector<bool> configured;
  std::vector<bool> this_step;       // column present in the partial step
  std::vector<bool> known;           // columns which had data before
  int episode = 0, step = 0;
  int order = 0;
  bool closer_running = false;
  Fiber* closer = nullptr;
  int close_at_item = 0;
  bool close_called = false, close_returned = false;
  bool closed_before = false;        // Close had returned when the call began
  bool fatal_sent = false;           // an item the server must refuse
  bool failed = false;               // the writer reported a permanent error
  int64_t slack_ns = 0;              // 0: lateness not checked
  uint64_t n_cells = 0;

  std::string Name() const { return StrCat("writer ", id); }

  // Status of a call that may legitimately fail because the writer is closed
  // or has met a permanent error.
  bool Explained(const absl::Status& st, const char* what) {
    if (st.ok()) {
      if (closed_before)
        Violate("W03", "call-after-close-ok",
                StrCat(Name(), ": ", what, " returned OK after Close"));
      return true;
    }
    if (absl::IsCancelled(st) && close_called) {
      Probe("cancelled-after-close");
      failed = true;
      return true;
    }
    if (fatal_sent && (absl::IsNotFound(st) || absl::IsInvalidArgument(st))) {
      Probe("permanent-error-reported");
      failed = true;
      return true;
    }
    return false;
  }

  void Append(bool partial) {
    std::vector<absl::optional<tensorflow::Tensor>> data(cols.size());
    std::vector<Cell> cells(cols.size());
    bool any = false;
    for (size_t i = 0; i < cols.size(); i++) {
      if (this_step[i] || Flip(stream, partial ? 600 : 250)) continue;
      cells[i].value =
          MakeCell(cols[i], (static_cast<uint64_t>(id) << 32) + ++n_cells);
      cells[i].episode = episode;
      cells[i].step = step;
      data[i] = cells[i].value;
      any = true;
    }
    if (!any && partial) return;
    // A tensor that the column cannot hold, or the second one of a step.
    known.resize(cols.size());
    int bad = -1;
    bool twice = false;
    if (Flip(stream, 40)) {
      std::vector<int> could;
      for (size_t i = 0; i < cols.size(); i++)
        if (this_step[i] || (data[i].has_value() && known[i]))
          could.push_back(i);
      if (!could.empty()) {
        bad = could[Choose(stream, could.size())];
        twice = this_step[bad];
        ColSpec c = cols[bad];
        if (!twice) {
          if (Flip(stream, 500)) {
            c.dtype = c.dtype == tensorflow::DT_INT32 ? tensorflow::DT_FLOAT
                                                      : tensorflow::DT_INT32;
          } else {
            c.shape.push_back(2);
          }
        }
        data[bad] = MakeCell(c, ++n_cells);
      }
    }
    std::vector<absl::optional<std::weak_ptr<rv::CellRef>>> refs;
    absl::Status st = partial ? writer->AppendPartial(data, &refs)
                              : writer->Append(data, &refs);
    if (bad >= 0) {
      if (st.ok()) {
        Violate("W02", "bad-append-accepted",
                StrCat(Name(), ": column ", bad, twice
                           ? " is given twice in a step"
                           : " is given a tensor of another type",
                       " but the call returned OK"));
        return;
      }
      if (twice ? !absl::IsFailedPrecondition(st)
                : !absl::IsInvalidArgument(st)) {
        if (!Explained(st, "Append"))
          Violate("W02,W03", "append-failed",
                  StrCat(Name(), ": ", st.ToString(), " for a bad column"));
        return;
      }
      Probe(twice ? "column-twice-refused" : "wrong-tensor-refused");
      // What came before it is in.
      for (size_t i = 0; i < refs.size() && i < cols.size(); i++) {
        if (!refs[i].has_value()) continue;
        known[i] = true;
        history[i].push_back({*refs[i], cells[i], static_cast<int>(i)});
        if (history[i].size() > 40) history[i].pop_front();
        this_step[i] = true;
      }
      return;
    }
    if (!st.ok()) {
      if (!Explained(st, "Append"))
        Violate("W02,W03", "append-failed", StrCat(Name(), ": ", st.ToString()));
      return;
    }
    Explained(st, "Append");
    if (refs.size() != cols.size()) {
      Violate("W02", "wrong-refs", StrCat(Name(), ": ", refs.size(), " refs"));
      return;
    }
    for (size_t i = 0; i < cols.size(); i++) {
      if (refs[i].has_value() != data[i].has_value())
        Violate("W02", "wrong-refs", StrCat(Name(), ": column ", i));
      if (!refs[i].has_value()) continue;
      known[i] = true;
      history[i].push_back({*refs[i], cells[i], static_cast<int>(i)});
      if (history[i].size() > 40) history[i].pop_front();
      if (partial) this_step[i] = true;
    }
    if (!partial) {
      step++;
      this_step.assign(cols.size(), false);
    }
  }

  // Reads back one cell through its reference.
  void ReadBack() {
    size_t c = Choose(stream, cols.size());
    if (history[c].empty()) return;
    Ref& r = history[c][Choose(stream, history[c].size())];
    std::shared_ptr<rv::CellRef> p = r.ref.lock();
    if (!p) return;
    tensorflow::Tensor t;
    absl::Status st = p->GetData(&t);
    if (!st.ok()) {
      Violate("W02", "cell-not-readable", StrCat(Name(), ": ", st.ToString()));
    } else if (!SameTensor(t, r.cell.value)) {
      Violate("W02", "wrong-cell", StrCat(Name(), ": a cell reads as ",
                                          t.DebugString()));
    }
  }

  // The column types that a table's signature asks for.
  static bool Matches(const ServerTable* t, const std::vector<ColumnExp>& exp,
                      const std::vector<ColSpec>& types) {
    if (!t->has_signature) return true;
    if (t->signature.size() != exp.size()) return false;
    for (size_t i = 0; i < exp.size(); i++) {
      if (types[i].dtype != t->signature[i].dtype) return false;
      if (exp[i].squeeze == t->has_time[i]) {
        // The number of dimensions could still agree.
        std::vector<int64_t> got = types[i].shape, want = t->signature[i].shape;
        if (!exp[i].squeeze) got.insert(got.begin(), exp[i].rows.size());
        if (t->has_time[i]) want.insert(want.begin(), -1);
        if (got.size() != want.size()) return false;
        for (size_t d = 0; d < got.size(); d++)
          if (want[d] >= 0 && want[d] != got[d]) return false;
      } else if (types[i].shape != t->signature[i].shape) {
        return false;
      }
    }
    return true;
  }

  void CreateItem(bool fatal) {
    ServerTable* table = w->tables[Choose(stream, w->tables.size())].get();
    std::vector<rv::TrajectoryColumn> traj;
    std::vector<ColumnExp> exp;
    std::vector<ColSpec> types;
    bool live = true, in_window = true, has_empty = false, all_empty = true,
         mixed = false;
    const int ncols = table->has_signature && !Flip(stream, 200)
                          ? table->signature.size()
                          : 1 + Choose(stream, cols.size() + 1);
    std::vector<std::shared_ptr<rv::CellRef>> hold;
    for (int i = 0; i < ncols; i++) {
      size_t c = Choose(stream, cols.size());
      if (!Flip(stream, 200)) c = i % cols.size();
      std::vector<Ref> picked;
      auto& h = history[c];
      // Mostly what is still within the history.
      size_t from = 0;
      if (!Flip(stream, 60) && h.size() > static_cast<size_t>(keep[c]))
        from = h.size() - keep[c];
      const size_t n = h.size() - from;
      if (n > 0) {
        switch (Weighted(stream, {5, 1, 1, 1, 1, 1})) {
          case 0: {  // contiguous
            size_t a = from + Choose(stream, n);
            size_t len = 1 + Choose(stream, h.size() - a);
            for (size_t j = a; j < a + len; j++) picked.push_back(h[j]);
            break;
          }
          case 1:  // the whole window
            for (size_t j = from; j < h.size(); j++) picked.push_back(h[j]);
            break;
          case 2:  // the last
            picked.push_back(h.back());
            break;
          case 3:  // every second
            for (size_t j = from; j < h.size(); j += 2) picked.push_back(h[j]);
            Probe("strided-column");
            break;
          case 4:  // backwards
            for (size_t j = h.size(); j-- > from;) picked.push_back(h[j]);
            Probe("reversed-column");
            break;
          case 5: {  // any
            size_t m = 1 + Choose(stream, 4);
            for (size_t j = 0; j < m; j++)
              picked.push_back(h[from + Choose(stream, n)]);
            Probe("arbitrary-column");
            break;
          }
        }
      }
      if (Flip(stream, 10)) picked.clear();
      ColumnExp e;
      std::vector<std::weak_ptr<rv::CellRef>> refs;
      for (auto& r : picked) {
        refs.push_back(r.ref);
        e.rows.push_back(r.cell);
        if (r.ref.expired()) live = false;
        bool inside = false;
        for (size_t j = h.size() > static_cast<size_t>(keep[c])
                            ? h.size() - keep[c] : 0;
             j < h.size(); j++)
          if (h[j].cell.value.SharesBufferWith(r.cell.value)) inside = true;
        if (!inside) in_window = false;
      }
      e.squeeze = picked.size() == 1 ? Flip(stream, 300) : Flip(stream, 15);
      if (e.squeeze && picked.size() != 1) mixed = true;
      // A column of two writer columns.
      if (const size_t o = Choose(stream, cols.size());
          !picked.empty() && Flip(stream, 30) && !history[o].empty()) {
        const Ref& r = history[o].back();
        if (cols[o].dtype != cols[c].dtype || cols[o].shape != cols[c].shape)
          mixed = true;
        if (e.squeeze) mixed = true;
        refs.push_back(r.ref);
        e.rows.push_back(r.cell);
        if (r.ref.expired()) live = false;
      }
      has_empty |= picked.empty();
      all_empty &= picked.empty();
      traj.emplace_back(std::move(refs), e.squeeze);
      exp.push_back(std::move(e));
      types.push_back(cols[c]);
    }
    Expected* x;
    {
      NoPreempt np;
      x = w->NewItem(id, fatal ? "no-such-table" : table->spec.name);
      x->order = order++;
      x->cols = exp;
      x->must_not_arrive = true;
    }
    const bool valid = live && !has_empty && !mixed &&
                       (!has_signatures ||
                        (!fatal && Matches(table, exp, types)));
    // Until it fails the item may arrive at any time.
    x->must_not_arrive = !valid || fatal;
    if (close_at_item > 0 && --close_at_item == 0) Wake(closer);
    absl::Status st = writer->CreateItem(x->table, x->priority, traj);
    if (st.ok()) x->created = Step();
    SIM_LOG(StrCat(Name(), " creates item ", x->order, " in ", x->table,
                   " -> ", st.ToString()));
    if (st.ok()) {
      Explained(st, "CreateItem");
      if (!valid)
        Violate(has_signatures && live && !has_empty && !mixed ? "W02,V03" : "W02,W04",
                "invalid-item-accepted",
                StrCat(Name(), ": item ", x->order, " is accepted although ",
                       !live ? "it refers to data that is gone"
                       : has_empty ? "it has an empty column"
                       : mixed ? "a column mixes types or squeezes several rows"
                                   : "it does not match the table"));
      if (fatal) {
        fatal_sent = true;
        Probe("item-for-unknown-table");
      }
      created.push_back(x);
      return;
    }
    x->must_not_arrive = true;
    if (absl::IsInvalidArgument(st) && (!valid || !in_window)) {
      Probe(!live ? "expired-reference-refused"
            : has_empty ? "empty-column-refused"
            : mixed ? "mixed-column-refused" : "bad-signature-refused");
      return;
    }
    if (all_empty && absl::IsInvalidArgument(st)) return;
    if (absl::IsInternal(st) && !in_window) {
      // Data that only an item on its way kept alive went away meanwhile.
      Probe("reference-expired-meanwhile");
      return;
    }
    if (Explained(st, "CreateItem")) return;
    Violate("W02,W03", "item-refused",
            StrCat(Name(), ": item ", x->order, ": ", st.ToString()));
  }

  // All but the last `ignored` created items were reported as stored.
  void Acked(size_t ignored, const char* what) {
    NoPreempt np;
    for (size_t i = 0; i + ignored < created.size(); i++) {
      Expected* e = created[i];
      if (e->table == "no-such-table") {
        Violate("W02,W03", "failed-item-acknowledged",
                StrCat(Name(), ": ", what, " returned OK although item ",
                       e->order, " is for an unknown table"));
        continue;
      }
      e->acked = true;
      if (!w->async && e->inserts == 0)
        Violate("W02", "acknowledged-item-missing",
                StrCat(Name(), ": ", what, " returned OK but item ", e->order,
                       " was not inserted"));
      if (!e->confirmed)
        Violate("W02", "unconfirmed-item-acknowledged",
                StrCat(Name(), ": ", what, " returned OK but item ", e->order,
                       " was not confirmed"));
    }
  }

  void CheckTimeout(int64_t start, absl::Duration timeout,
                    const absl::Status& st, const char* what) {
    const int64_t took = NowNs() - start;
    if (absl::IsDeadlineExceeded(st)) {
      Probe("flush-timeout");
      if (absl::Nanoseconds(took) < timeout)
        Violate("W03", "early-timeout",
                StrCat(Name(), ": ", what, " with timeout ",
                       absl::FormatDuration(timeout), " timed out after ",
                       took, "ns"));
    }
    if (slack_ns && timeout != absl::InfiniteDuration() &&
        absl::Nanoseconds(took - slack_ns) > timeout)
      Violate("W03", "late-timeout",
              StrCat(Name(), ": ", what, " with timeout ",
                     absl::FormatDuration(timeout), " took ", took, "ns"));
  }

  absl::Duration Timeout() {
    switch (Weighted(stream, {4, 2, 2, 1})) {
      case 0: return absl::InfiniteDuration();
      case 1: return absl::Milliseconds(1 + Choose(stream, 20));
      case 2: return absl::Milliseconds(100 * (1 + Choose(stream, 5)));
      default: return absl::ZeroDuration();
    }
  }

  void Flush(size_t ignored, absl::Duration timeout) {
    const int64_t start = NowNs();
    SIM_LOG(StrCat(Name(), " flush ignore=", ignored, " timeout=",
                   absl::FormatDuration(timeout)));
    absl::Status st = writer->Flush(ignored, timeout);
    SIM_LOG(StrCat(Name(), " flush -> ", st.ToString()));
    CheckTimeout(start, timeout, st, "Flush");
    if (st.ok()) {
      Explained(st, "Flush");
      Acked(ignored, "Flush");
      return;
    }
    if (absl::IsDeadlineExceeded(st) && timeout != absl::InfiniteDuration())
      return;
    if (!Explained(st, "Flush"))
      Violate("W03", "flush-failed", StrCat(Name(), ": ", st.ToString()));
  }

  void EndEpisode(bool clear, absl::Duration timeout) {
    const int64_t start = NowNs();
    SIM_LOG(StrCat(Name(), " end episode clear=", clear));
    absl::Status st = writer->EndEpisode(clear, timeout);
    SIM_LOG(StrCat(Name(), " end episode -> ", st.ToString()));
    CheckTimeout(start, timeout, st, "EndEpisode");
    if (st.ok()) {
      Explained(st, "EndEpisode");
      Acked(0, "EndEpisode");
      episode++;
      step = 0;
      this_step.assign(cols.size(), false);
      if (clear)
        for (auto& h : history) {
          for (auto& r : h)
            if (!r.ref.expired()) cleared_live = true;
          h.clear();
        }
      return;
    }
    if (absl::IsDeadlineExceeded(st) && timeout != absl::InfiniteDuration())
      return;
    if (!Explained(st, "EndEpisode"))
      Violate("W03", "end-episode-failed", StrCat(Name(), ": ", st.ToString()));
  }
  bool cleared_live = false;

  std::shared_ptr<rv::ChunkerOptions> RandomOptions(int* k, int s) {
    *k = 1 + Choose(s, 8);
    bool delta = Flip(s, 300);
    if (Flip(s, 250))
      return std::make_shared<rv::AutoTunedChunkerOptions>(*k, 1.0, delta);
    return std::make_shared<rv::ConstantChunkerOptions>(1 + Choose(s, *k), *k,
                                                        delta);
  }

  void Configure() {
    size_t c = Choose(stream, cols.size());
    int k;
    if (Flip(stream, 150)) {
      const int bad = Choose(stream, 3);
      k = bad == 1 ? 0 : 1 + Choose(stream, 5);
      absl::Status st = writer->ConfigureChunker(
          c, std::make_shared<rv::ConstantChunkerOptions>(
                 bad == 0 ? 0 : bad == 1 ? 1 : k + 1, k, false));
      if (!absl::IsInvalidArgument(st))
        Violate("W02", "invalid-options-accepted",
                StrCat(Name(), ": ConfigureChunker returned ", st.ToString()));
      Probe("invalid-options-refused");
      return;
    }
    auto o = RandomOptions(&k, stream);
    absl::Status st = writer->ConfigureChunker(c, o);
    if (st.ok()) keep[c] = std::min(keep[c], k);
    else if (!absl::IsFailedPrecondition(st))
      Violate("W03", "configure-failed", StrCat(Name(), ": ", st.ToString()));
  }

  void Ops(int n) {
    for (int i = 0; i < n; i++) {
      closed_before = close_returned;
      switch (Weighted(stream, {1, 8, 2, 7, 3, 1, 1, 1, 1})) {
        case 0: break;
        case 1: Append(false); break;
        case 2: Append(true); break;
        case 3: CreateItem(false); break;
        case 4: Flush(Choose(stream, 3), Timeout()); break;
        case 5: EndEpisode(Flip(stream, 500), Timeout()); break;
        case 6: ReadBack(); break;
        case 7: Configure(); break;
        case 8: SleepNs(1000 * (1 + Choose(stream, 20000))); break;
      }
    }
  }

  void Run(int nops) {
    absl::Status st;
    rv::TrajectoryWriter::Options o;
    int k;
    o.chunker_options = RandomOptions(&k, stream);
    keep.assign(cols.size(), k);
    history.resize(cols.size());
    this_step.assign(cols.size(), false);
    if (Flip(stream, 400)) {
      client = std::make_unique<rv::Client>(w->Stub());
      while (true) {
        st = client->NewTrajectoryWriter(o, absl::InfiniteDuration(), &writer);
        if (st.ok()) break;
        if (!absl::IsUnavailable(st)) {
          Violate("W03,V03", "writer-not-created", st.ToString());
          return;
        }
        SleepNs(1000000);
      }
      has_signatures = true;
    } else {
      writer = std::make_unique<rv::TrajectoryWriter>(w->Stub(), o);
    }
    if (Flip(stream, 120)) {
      int64_t ns = 1000LL * (1 + Choose(stream, 60000));
      // At some time, or together with the creation of some item.
      if (Flip(stream, 600)) close_at_item = 1 + Choose(stream, 4);
      const bool at_item = close_at_item > 0;
      closer = Spawn(StrCat("closer", id), [this, ns, at_item] {
        if (at_item)
          while (close_at_item > 0 && !done_ops) SleepNs(1000000);
        else
          SleepNs(ns);
        close_called = true;
        writer->Close();
        close_returned = true;
        SIM_LOG(StrCat(Name(), " closed"));
      });
    }
    Ops(nops);
    closed_before = close_returned;
    if (!close_called && Flip(stream, 150)) {
      CreateItem(true);
      if (fatal_sent && Flip(stream, 300)) CreateItem(false);
    }
    done_ops = true;
    // Wait until faults are over, then everything must get through.
    while (!w_quiet()) SleepNs(1000000);
    const int64_t start = NowNs();
    closed_before = close_returned;
    if (Flip(stream, 500))
      Flush(0, absl::InfiniteDuration());
    else
      EndEpisode(Flip(stream, 500), absl::InfiniteDuration());
    if (fatal_sent && !failed)
      Violate("W03", "permanent-error-not-reported",
              StrCat(Name(), ": no call reported that an item is for an "
                             "unknown table"));
    if (NowNs() - start > 30000000000)
      Violate("W03", "slow-recovery",
              StrCat(Name(), ": the final flush took ",
                     (NowNs() - start) / 1000000, "ms"));
    if (closer) Join(closer);
    const bool close = Flip(stream, 500);
    if (close) {
      close_called = true;
      writer->Close();
      close_returned = true;
      if (Flip(stream, 300)) Ops(2);
    } else if (!failed && !close_called && Flip(stream, 500)) {
      // Destruction flushes.
      Append(false);
      CreateItem(false);
      destroyed_with_pending = true;
    }
    writer.reset();
    if (destroyed_with_pending && !failed && !fatal_sent) Acked(0, "Destruction");
    SIM_LOG(StrCat(Name(), " done"));
  }
  bool destroyed_with_pending = false;
  bool done_ops = false;
  std::function<bool()> w_quiet;
};

}  // namespace harness
#endif

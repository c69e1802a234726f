// A legacy writer with the model of what it must do.
#ifndef VERIF_HARNESS_WRITER_CLIENT_H_
#define VERIF_HARNESS_WRITER_CLIENT_H_

#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/world.h"
#include "reverb/cc/writer.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

struct WriterClient {
  World* w;
  int id;
  int stream;
  std::unique_ptr<rv::Writer> writer;
  std::unique_ptr<rv::Client> client;
  bool has_signatures = false;
  absl::optional<int> limit;
  int chunk_length = 1, max_timesteps = 1;
  std::vector<ColSpec> cols;
  std::vector<std::vector<Cell>> steps;  // successfully appended
  std::vector<Expected*> created;
  int order = 0;
  bool closed = false;
  bool fatal_sent = false;
  bool failed = false;            // some call reported an error of the stream
  uint64_t n_cells = 0;
  bool done_ops = false;
  std::function<bool()> w_quiet;
  int node = 0;

  std::string Name() const { return StrCat("writer ", id); }

  // Some stream of this writer was hit by a fault.
  bool Faulty() {
    for (auto& c : Connections())
      if (c->client_node == node && c->kind == kInsertConn &&
          (c->broken || c->refused || c->cancelled))
        return true;
    return false;
  }

  bool Explained(const absl::Status& st, const char* what) {
    if (closed) {
      if (!absl::IsFailedPrecondition(st))
        Violate("W03", "call-after-close",
                StrCat(Name(), ": ", what, " after Close returned ",
                       st.ToString()));
      return true;
    }
    if (st.ok()) return true;
    if (Faulty() || fatal_sent || failed) {
      Probe(StrCat("writer-error-", absl::StatusCodeToString(st.code())));
      failed = true;
      return true;
    }
    return false;
  }

  std::vector<Cell> Step() {
    std::vector<Cell> cells(cols.size());
    for (size_t i = 0; i < cols.size(); i++) {
      cells[i].value =
          MakeCell(cols[i], (static_cast<uint64_t>(id) << 32) + ++n_cells);
      cells[i].episode = 0;
      cells[i].step = steps.size();
    }
    return cells;
  }

  void Append() {
    auto cells = Step();
    std::vector<tensorflow::Tensor> data;
    for (auto& c : cells) data.push_back(c.value);
    absl::Status st = writer->Append(data);
    SIM_LOG(StrCat(Name(), " append -> ", st.ToString()));
    if (!Explained(st, "Append"))
      Violate("W01,W03", "append-failed", StrCat(Name(), ": ", st.ToString()));
    if (st.ok()) {
      steps.push_back(cells);
      Buffered(1);
    }
  }

  void BadAppend() {
    auto cells = Step();
    std::vector<tensorflow::Tensor> data;
    for (auto& c : cells) data.push_back(c.value);
    data.push_back(data[0]);
    // Noticed only if there are steps which are not in a chunk yet.
    if (buffered == 0 || failed || unknown_steps) return;
    absl::Status st = writer->Append(data);
    if (!absl::IsInvalidArgument(st) && !closed)
      Violate("W01", "bad-step-accepted",
              StrCat(Name(), ": a step with another number of tensors -> ",
                     st.ToString()));
  }

  void AppendSequence() {
    const int n = 1 + Choose(stream, 5);
    std::vector<std::vector<Cell>> rows;
    for (int i = 0; i < n; i++) {
      rows.push_back(Step());
      steps.push_back(rows.back());
    }
    steps.resize(steps.size() - n);
    std::vector<tensorflow::Tensor> data;
    for (size_t c = 0; c < cols.size(); c++) {
      tensorflow::TensorShape shape;
      shape.AddDim(n);
      for (int64_t d : cols[c].shape) shape.AddDim(d);
      tensorflow::Tensor t(cols[c].dtype, shape);
      const int64_t per = rows[0][c].value.NumElements();
      for (int i = 0; i < n; i++) {
        if (cols[c].dtype == tensorflow::DT_STRING) {
          for (int64_t j = 0; j < per; j++)
            t.flat<tensorflow::tstring>()(i * per + j) =
                rows[i][c].value.flat<tensorflow::tstring>()(j);
        } else {
          auto src = rows[i][c].value.tensor_data();
          memcpy(const_cast<char*>(t.tensor_data().data()) + i * src.size(),
                 src.data(), src.size());
        }
      }
      data.push_back(t);
    }
    absl::Status st = writer->AppendSequence(data);
    SIM_LOG(StrCat(Name(), " append sequence of ", n, " -> ", st.ToString()));
    if (!Explained(st, "AppendSequence"))
      Violate("W01,W03", "append-failed", StrCat(Name(), ": ", st.ToString()));
    if (st.ok()) {
      for (auto& r : rows) steps.push_back(r);
      Buffered(n);
    } else if (!closed) {
      // How many steps were appended is not reported.
      unknown_steps = true;
    }
  }
  bool unknown_steps = false;
  int buffered = 0;        // steps that are not in a chunk yet
  bool pending = false;    // items wait for those steps
  void Buffered(int n) {
    buffered += n;
    if (buffered >= chunk_length) {
      buffered %= chunk_length;
      pending = false;
    }
  }

  bool Matches(const ServerTable* t) const {
    if (!t->has_signature) return true;
    if (t->signature.size() != cols.size()) return false;
    for (size_t i = 0; i < cols.size(); i++)
      if (t->signature[i].dtype != cols[i].dtype ||
          t->signature[i].shape != cols[i].shape)
        return false;
    return true;
  }

  void CreateItem(bool fatal) {
    if (unknown_steps) return;
    ServerTable* table = w->tables[Choose(stream, w->tables.size())].get();
    const int have = std::min<int>(steps.size(), max_timesteps);
    int n = 1 + (have > 1 ? Choose(stream, have) : 0);
    if (Flip(stream, 100)) n = have + 1 + Choose(stream, 3);
    if (Flip(stream, 200) && have > 0) n = have;
    const bool fits = n <= have;
    Expected* x;
    {
      NoPreempt np;
      x = w->NewItem(id, fatal ? "no-such-table" : table->spec.name);
      x->order = order++;
      x->after_error = failed;
      if (fits) {
        x->cols.resize(cols.size());
        for (size_t c = 0; c < cols.size(); c++)
          for (size_t s = steps.size() - n; s < steps.size(); s++)
            x->cols[c].rows.push_back(steps[s][c]);
      }
    }
    const bool valid =
        fits && (!has_signatures || (!fatal && Matches(table)));
    x->must_not_arrive = !valid || fatal || closed;
    absl::Status st = writer->CreateItem(x->table, n, x->priority);
    SIM_LOG(StrCat(Name(), " creates item ", x->order, " of ", n, " steps in ",
                   x->table, " -> ", st.ToString()));
    if (st.ok()) {
      Explained(st, "CreateItem");
      if (!valid && !closed)
        Violate(fits ? "W01,V03" : "W01,W04", "invalid-item-accepted",
                StrCat(Name(), ": item ", x->order, " of ", n,
                       " steps is accepted although ",
                       fits ? "it does not match the table"
                            : StrCat("only ", have, " may be referenced")));
      if (fatal) {
        fatal_sent = true;
        Probe("item-for-unknown-table");
      }
      created.push_back(x);
      pending |= buffered > 0;
      return;
    }
    x->must_not_arrive = true;
    if (closed) {
      Explained(st, "CreateItem");
      return;
    }
    if (absl::IsInvalidArgument(st) && !valid) {
      Probe(fits ? "bad-signature-refused" : "too-long-item-refused");
      return;
    }
    if (Explained(st, "CreateItem")) return;
    Violate(absl::IsInvalidArgument(st) ? "W01,W04" : "W01,W03",
            "item-refused",
            StrCat(Name(), ": item ", x->order, " of ", n, " steps (", have,
                   " may be referenced): ", st.ToString()));
  }

  void Acked(const char* what) {
    NoPreempt np;
    for (Expected* e : created) {
      if (e->table == "no-such-table") {
        if (failed) continue;  // was reported
        Violate("W01,W03", "failed-item-acknowledged",
                StrCat(Name(), ": ", what, " returned OK although item ",
                       e->order, " is for an unknown table"));
        continue;
      }
      if (failed) continue;  // the user knows that items may be lost
      e->acked = true;
      if (!w->async && e->inserts == 0)
        Violate("W01", "acknowledged-item-missing",
                StrCat(Name(), ": ", what, " returned OK but item ", e->order,
                       " was not inserted"));
      if (!e->confirmed)
        Violate("W01", "unconfirmed-item-acknowledged",
                StrCat(Name(), ": ", what, " returned OK but item ", e->order,
                       " was not confirmed"));
    }
  }

  void Flush() {
    SIM_LOG(StrCat(Name(), " flush"));
    absl::Status st = writer->Flush();
    SIM_LOG(StrCat(Name(), " flush -> ", st.ToString()));
    if (!Explained(st, "Flush"))
      Violate("W01,W03", "flush-failed", StrCat(Name(), ": ", st.ToString()));
    if (st.ok() && !closed) {
      if (pending) buffered = 0;
      pending = false;
      if (limit) Acked("Flush");
    }
  }

  void Close() {
    const bool retry = !Flip(stream, 200);
    absl::Status st = writer->Close(retry);
    SIM_LOG(StrCat(Name(), " close -> ", st.ToString()));
    if (!Explained(st, "Close"))
      Violate("W01,W03", "close-failed", StrCat(Name(), ": ", st.ToString()));
    if (!st.ok() || closed) return;
    closed = true;
    NoPreempt np;
    if (failed || fatal_sent || Faulty()) return;
    // Nothing went wrong, so everything was received.
    for (Expected* e : created) {
      e->acked = true;
      if (!w->async && e->inserts == 0)
        Violate("W01", "item-missing-after-close",
                StrCat(Name(), ": item ", e->order,
                       " is not inserted although the writer closed without "
                       "any fault"));
    }
  }

  void Ops(int n) {
    for (int i = 0; i < n; i++) {
      switch (Weighted(stream, {1, 9, 2, 7, 3, 1, 1})) {
        case 0: break;
        case 1: Append(); break;
        case 2: AppendSequence(); break;
        case 3: if (!steps.empty()) CreateItem(Flip(stream, 15)); break;
        case 4: Flush(); break;
        case 5: BadAppend(); break;
        case 6: SleepNs(1000 * (1 + Choose(stream, 20000))); break;
      }
    }
  }

  void Run(int nops) {
    node = CurrentNode();
    max_timesteps = 1 + Choose(stream, 8);
    chunk_length = 1 + Choose(stream, max_timesteps);
    const bool delta = Flip(stream, 300);
    if (Flip(stream, 700)) limit = 1 + Choose(stream, 4);
    {
      NoPreempt np;
      w->legacy_nodes.insert(node);
      w->props_of_writer[id] = "W01";
      if (limit) w->in_flight_limit[id] = *limit;
      else w->loose_order.insert(id);
    }
    if (Flip(stream, 400)) {
      client = std::make_unique<rv::Client>(w->Stub());
      while (true) {
        absl::Status st = client->NewWriter(chunk_length, max_timesteps, delta,
                                            limit, &writer);
        if (st.ok()) break;
        if (!absl::IsUnavailable(st)) {
          Violate("W03,V03", "writer-not-created", st.ToString());
          return;
        }
        SleepNs(1000000);
      }
      has_signatures = true;
    } else {
      writer = std::make_unique<rv::Writer>(w->Stub(), chunk_length,
                                            max_timesteps, delta, nullptr,
                                            limit);
    }
    Ops(nops);
    if (!steps.empty() && Flip(stream, 150)) CreateItem(true);
    done_ops = true;
    while (!w_quiet()) SleepNs(1000000);
    if (Flip(stream, 700)) {
      Flush();
      if (limit && fatal_sent && !failed)
        Violate("W01,W03", "permanent-error-not-reported",
                StrCat(Name(), ": no call reported that an item is for an "
                               "unknown table"));
    }
    if (Flip(stream, 700)) {
      Close();
      if (closed && Flip(stream, 300)) Ops(3);
    }
    writer.reset();
    SIM_LOG(StrCat(Name(), " done"));
  }
};

}  // namespace harness
#endif

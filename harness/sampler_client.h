// A user of samplers with the model of what they must do.
#ifndef VERIF_HARNESS_SAMPLER_CLIENT_H_
#define VERIF_HARNESS_SAMPLER_CLIENT_H_

#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/world.h"
#include "reverb/cc/sampler.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

struct SamplerClient {
  enum Mode { kTrajectory, kSample, kTimestep };

  World* w;
  int id;
  int node;
  int stream;
  ServerTable* t;
  bool decomposable = false;  // all items are sequences of timesteps
  bool solo = false;          // nobody else samples the table
  bool faults = false;        // the network may fail
  int64_t slack_ns = 0;       // 0: lateness not checked
  std::function<bool()> w_quiet;
  bool done_ops = false;
  bool early_stop = false;    // the server goes away, then:
  bool must_close = false;
  std::unique_ptr<rv::Client> client;

  // The current sampler.
  std::unique_ptr<rv::Sampler> s;
  rv::Sampler::Options o;
  bool local = false;
  Mode mode = kTrajectory;
  bool unknown_table = false;
  int epoch = 0;
  size_t first_conn = 0, first_op = 0;
  size_t ops_seen = 0;        // solo: operations of the table since creation
  int64_t consumed = 0;
  int64_t created_at = 0;
  bool close_called = false, close_returned = false;
  bool in_call = false;
  int64_t call_since = 0;
  absl::Status final_status;  // of the first call that failed
  int workers = 1;

  std::string Name() const {
    return StrCat("sampler ", id, ".", epoch, local ? " (local)" : "");
  }

  static int64_t Millis(absl::Duration d) {
    return absl::ToInt64Milliseconds(d);
  }

  bool ConnTrouble() const {
    auto& all = Connections();
    for (size_t i = first_conn; i < all.size(); i++)
      if (all[i]->client_node == node && all[i]->kind == kSampleConn &&
          (all[i]->broken || all[i]->refused))
        return true;
    return false;
  }
  bool SawStatus(grpc::StatusCode code) const {
    auto& all = Connections();
    for (size_t i = first_conn; i < all.size(); i++)
      if (all[i]->client_node == node && all[i]->kind == kSampleConn &&
          all[i]->broken && all[i]->broken_status.error_code() == code)
        return true;
    return false;
  }

  // Draws the settings and creates a sampler. False: none.
  bool Create() {
    if (w->stopping) return false;
    epoch++;
    o = rv::Sampler::Options();
    static const int kMax[] = {1, 2, 3, 5, 8, 20};
    if (Flip(stream, 700)) o.max_samples = kMax[Choose(stream, 6)];
    static const int kFlight[] = {1, 2, 3, 5, 100};
    o.max_in_flight_samples_per_worker = kFlight[Choose(stream, 5)];
    if (Flip(stream, 450)) o.num_workers = 1 + Choose(stream, 3);
    if (Flip(stream, 500)) o.max_samples_per_stream = 1 + Choose(stream, 5);
    if (Flip(stream, 500)) o.flexible_batch_size = 1 + Choose(stream, 4);
    switch (Weighted(stream, {5, 2, 1, 1, 1})) {
      case 0: break;
      case 1:
        o.rate_limiter_timeout = absl::Milliseconds(1 + Choose(stream, 60));
        break;
      case 2:
        o.rate_limiter_timeout = absl::Milliseconds(500 + Choose(stream, 4000));
        break;
      case 3: o.rate_limiter_timeout = absl::ZeroDuration(); break;
      case 4:
        o.rate_limiter_timeout =
            absl::Microseconds(100 * (1 + Choose(stream, 40)));
        break;
    }
    if (Flip(stream, 30) && !TryInvalid()) return false;
    mode = decomposable ? static_cast<Mode>(Choose(stream, 3)) : kTrajectory;
    unknown_table = Flip(stream, 30);
    local = false;
    consumed = 0;
    ops_seen = 0;
    close_called = close_returned = false;
    final_status = absl::OkStatus();
    rows_left = nullptr;
    const int64_t max =
        o.max_samples < 0 ? INT64_MAX : o.max_samples;
    workers = std::min<int64_t>(
        std::max(1, o.num_workers),
        std::max<int64_t>(1, max / o.max_in_flight_samples_per_worker));
    first_conn = Connections().size();
    first_op = t->ops.size();
    created_at = NowNs();
    counting = true;
    DrawSpec();
    SIM_LOG(StrCat(Name(), " on ", t->spec.name, " max=", o.max_samples,
                   " flight=", o.max_in_flight_samples_per_worker,
                   " workers=", o.num_workers, " per_stream=",
                   o.max_samples_per_stream, " flex=", o.flexible_batch_size,
                   " timeout=", absl::FormatDuration(o.rate_limiter_timeout),
                   " mode=", mode, spec ? " with a specification" : ""));
    if (node == w->ep.node && Flip(stream, 500)) {
      local = true;
      unknown_table = false;
      s = std::make_unique<rv::Sampler>(t->table, o, spec);
      return true;
    }
    const std::string name = unknown_table ? "no-such-table" : t->spec.name;
    if (!spec && Flip(stream, 500)) {
      if (!client) client = std::make_unique<rv::Client>(w->Stub());
      absl::Status st;
      if (early_stop || Flip(stream, 500))
        st = client->NewSamplerWithoutSignatureCheck(name, o, &s);
      else
        st = client->NewSampler(
            name, o, Flip(stream, 500) ? absl::InfiniteDuration()
                                       : absl::Seconds(Choose(stream, 3)),
            &s);
      if (!st.ok()) {
        Violate("S04,V03", "sampler-not-created",
                StrCat(Name(), ": ", st.ToString()));
        return false;
      }
      // Local unless the attempt to get at the table failed.
      local = false;
      auto& all = Connections();
      for (size_t i = first_conn; i < all.size(); i++)
        if (all[i]->client_node == node && all[i]->kind == kInitConn)
          local = node == w->ep.node && all[i]->client_finished &&
                  all[i]->client_status.ok();
      if (unknown_table) local = false;
      return true;
    }
    s = std::make_unique<rv::Sampler>(w->Stub(), name, o, spec);
    return true;
  }

  // Settings that make no sense are refused. False: no sampler now.
  bool TryInvalid() {
    rv::Sampler::Options x = o;
    switch (Choose(stream, 8)) {
      case 0: x.max_samples = 0; break;
      case 1: x.max_samples = -2; break;
      case 2: x.max_in_flight_samples_per_worker = Choose(stream, 2) - 1; break;
      case 3: x.num_workers = Flip(stream, 500) ? 0 : -2; break;
      case 4: x.max_samples_per_stream = Flip(stream, 500) ? 0 : -2; break;
      case 5: x.rate_limiter_timeout = -absl::Milliseconds(1); break;
      case 6: x.flexible_batch_size = 0; break;
      default: x.flexible_batch_size = -2;
    }
    if (!client) client = std::make_unique<rv::Client>(w->Stub());
    std::unique_ptr<rv::Sampler> bad;
    absl::Status st =
        client->NewSamplerWithoutSignatureCheck(t->spec.name, x, &bad);
    if (!absl::IsInvalidArgument(st) || bad)
      Violate("S04", "invalid-options-accepted",
              StrCat(Name(), ": a sampler with max_samples=", x.max_samples,
                     " flight=", x.max_in_flight_samples_per_worker,
                     " workers=", x.num_workers, " per_stream=",
                     x.max_samples_per_stream, " flex=", x.flexible_batch_size,
                     " timeout=", absl::FormatDuration(x.rate_limiter_timeout),
                     ": ", st.ToString()));
    Probe("sampler-invalid-options");
    return !w->stopping;
  }

  // ---------------------------------------------------------- specification
  rv::internal::DtypesAndShapes spec;   // what the sampler is told to expect
  bool spec_failed = false;
  static std::vector<int64_t> Dims(const tensorflow::Tensor& x) {
    std::vector<int64_t> d;
    for (int i = 0; i < x.dims(); i++) d.push_back(x.dim_size(i));
    return d;
  }
  // The shape in which this column reaches the caller.
  std::vector<int64_t> ColumnDims(const ColumnExp& c) const {
    std::vector<int64_t> d = Dims(c.rows[0].value);
    if (mode == kTrajectory && !c.squeeze)
      d.insert(d.begin(), c.rows.size());
    return d;
  }
  void DrawSpec() {
    spec.reset();
    spec_failed = false;
    if (!Flip(stream, 120)) return;
    std::vector<const Expected*> some;
    for (auto& kv : w->by_key)
      if (kv.second->table == t->spec.name && !kv.second->cols.empty())
        some.push_back(kv.second);
    if (some.empty()) return;
    const Expected* e = some[Choose(stream, some.size())];
    std::vector<rv::internal::TensorSpec> v;
    auto add = [&](tensorflow::DataType type, const std::vector<int64_t>& d) {
      v.push_back({"x", type, tensorflow::PartialTensorShape(
                                  std::vector<tensorflow::int64>(d.begin(),
                                                                 d.end()))});
    };
    add(tensorflow::DT_UINT64, {});
    add(tensorflow::DT_DOUBLE, {});
    add(tensorflow::DT_INT64, {});
    add(tensorflow::DT_DOUBLE, {});
    const int odd = Flip(stream, 300) ? Choose(stream, e->cols.size()) : -1;
    for (size_t c = 0; c < e->cols.size(); c++) {
      tensorflow::DataType type = e->cols[c].rows[0].value.dtype();
      std::vector<int64_t> d = ColumnDims(e->cols[c]);
      if (mode == kTrajectory && !e->cols[c].squeeze && Flip(stream, 700))
        d[0] = -1;
      for (auto& x : d)
        if (Flip(stream, 150)) x = -1;
      if (static_cast<int>(c) == odd) switch (Choose(stream, 4)) {
          case 0: type = tensorflow::DT_BOOL; break;
          case 1: d.push_back(1); break;
          case 2:
            if (!d.empty()) d.back() = 17;
            break;
          case 3: continue;
        }
      add(type, d);
    }
    spec = v;
  }
  bool Fits(const Expected& e) const {
    if (e.cols.size() + 4 != spec->size()) return false;
    for (size_t c = 0; c < e.cols.size(); c++) {
      const auto& want = (*spec)[c + 4];
      if (want.dtype != e.cols[c].rows[0].value.dtype()) return false;
      const std::vector<int64_t> d = ColumnDims(e.cols[c]);
      if (want.shape.dims() != static_cast<int>(d.size())) return false;
      for (size_t i = 0; i < d.size(); i++)
        if (want.shape.dim_size(i) >= 0 && want.shape.dim_size(i) != d[i])
          return false;
    }
    return true;
  }
  // The sampler refused a sample because of the specification.
  void Refused(const std::vector<tensorflow::Tensor>& data,
               const absl::Status& st) {
    NoPreempt np;
    spec_failed = true;
    consumed++;
    Probe("sampler-refuses-sample");
    bool some = false;
    for (auto& kv : w->by_key)
      some |= kv.second->table == t->spec.name && !Fits(*kv.second);
    if (!data.empty() && data[0].dtype() == tensorflow::DT_UINT64 &&
        data[0].NumElements() > 0) {
      auto it = w->by_key.find(data[0].flat<tensorflow::uint64>()(0));
      if (it != w->by_key.end()) some = !Fits(*it->second);
    }
    if (!some)
      Violate("S02,S04", "fitting-sample-refused",
              StrCat(Name(), ": ", st.ToString()));
  }

  // ------------------------------------------------------------ accounting
  bool counting = false;
  // Called under the table's lock for every sample operation of the table.
  void OnOp(SampleOp* op) {
    if (!solo || !counting || !s_exact()) return;
    ops_seen++;
    if (o.max_samples > 0 && ops_seen > static_cast<size_t>(o.max_samples))
      Violate("S01", "samples-too-many",
              StrCat(Name(), ": ", ops_seen, " samples are taken from the table "
                     "although only ", o.max_samples, " are wanted"));
    const int64_t queue = std::max(1, o.num_workers);
    const int64_t bound =
        int64_t{workers} * o.max_in_flight_samples_per_worker + queue + 1;
    if (static_cast<int64_t>(ops_seen) - consumed > bound)
      Violate("S03", "too-many-in-flight",
              StrCat(Name(), ": ", ops_seen, " samples are taken and ", consumed,
                     " consumed; at most ", bound, " may be in flight"));
  }
  // Every sample that the table produced is for the current sampler, and none
  // gets lost.
  bool s_exact() const { return epoch == 1 && !faults; }

  // Finds the operation behind a sample that the caller got.
  void Match(uint64_t key, double probability, int64_t size, double priority,
             bool limited) {
    NoPreempt np;
    auto same = [&](SampleOp* op) {
      return op->table == t && op->ev.key == key &&
             op->ev.priority == priority && op->ev.table_size == size &&
             Near(op->ev.probability, probability);
    };
    const std::string what = StrCat(Name(), ": sample ", consumed, " (key ",
                                    key, ", priority ", priority, ", size ",
                                    size, ", probability ", probability, ")");
    SampleOp* op = nullptr;
    if (local) {
      for (size_t i = first_op; i < t->ops.size(); i++) {
        SampleOp* x = t->ops[i].get();
        if (x->consumed || x->conn >= 0) continue;
        if (same(x)) {
          op = x;
          break;
        }
        if (solo && workers == 1 && epoch == 1) {
          // Nothing may be skipped.
          Violate("S03", "sample-skipped",
                  StrCat(what, " although the table's next one is ",
                         Str(x->ev)));
          return;
        }
      }
      if (!op) {
        Violate("S01,S02", "sample-from-nowhere",
                StrCat(what, " matches no sample operation of the table"));
        return;
      }
      // Samples that look alike may be somebody else's.
      if (!solo) return;
    } else {
      bool first = true;
      auto& reads = w->reads[node];
      for (auto& r : reads) {
        if (r->conn < static_cast<int>(first_conn) || r->consumed) continue;
        if (same(r->op) && r->rate_limited == limited) {
          op = r->op;
          r->consumed = true;
          break;
        }
        if (workers == 1 && first) {
          Violate("S02,S03", "sample-skipped",
                  StrCat(what, " although the next one read is ",
                         Str(r->op->ev)));
          return;
        }
        first = false;
      }
      if (!op) {
        Violate("S01,S02,S03", "sample-from-nowhere",
                StrCat(what, " was not read from any stream in this order"));
        return;
      }
    }
    if (op->consumed)
      Violate("S01", "sample-delivered-twice",
              StrCat(what, " was delivered before"));
    op->consumed = true;
    last_delivery_op = op;
  }
  SampleOp* last_delivery_op = nullptr;

  static std::string CompareColumn(const tensorflow::Tensor& got,
                                   const ColumnExp& want, bool squeeze) {
    if (squeeze && want.squeeze) {
      if (!SameTensor(got, want.rows[0].value))
        return StrCat("is ", got.DebugString(), " instead of ",
                      want.rows[0].value.DebugString());
      return "";
    }
    if (got.dims() < 1 ||
        got.dim_size(0) != static_cast<int64_t>(want.rows.size()))
      return StrCat("has shape ", got.shape().DebugString(), " instead of ",
                    want.rows.size(), " rows");
    for (size_t r = 0; r < want.rows.size(); r++) {
      tensorflow::Tensor row = got.SubSlice(r);
      if (!SameTensor(row, want.rows[r].value))
        return StrCat("has row ", r, " ", row.DebugString(), " instead of ",
                      want.rows[r].value.DebugString());
    }
    return "";
  }

  // Info tensors: one value, or the same one for each of `len` steps.
  template <class T>
  bool Info(const tensorflow::Tensor& x, int len, T* v) {
    if (x.dtype() != tensorflow::DataTypeToEnum<T>::v()) return false;
    if (len < 0) {
      if (x.dims() != 0) return false;
      *v = x.scalar<T>()();
      return true;
    }
    if (x.dims() != 1 || x.dim_size(0) != len || len == 0) return false;
    *v = x.flat<T>()(0);
    for (int i = 0; i < len; i++)
      if (x.flat<T>()(i) != *v) return false;
    return true;
  }

  // Timestep mode: the item whose steps are being returned.
  Expected* rows_left = nullptr;
  size_t next_row = 0;
  bool step_limited = false;
  std::vector<tensorflow::Tensor> step_info;

  void CheckData(std::vector<tensorflow::Tensor> data, bool end, bool limited) {
    NoPreempt np;
    if (data.size() < 5) {
      Violate("S02", "too-few-tensors", StrCat(Name(), ": ", data.size()));
      return;
    }
    tensorflow::uint64 key = 0;
    double prob = 0, prio = 0;
    tensorflow::int64 size = 0;
    // The key decides the length.
    if (data[0].dtype() != tensorflow::DT_UINT64 ||
        data[0].NumElements() < 1) {
      Violate("S02", "wrong-info", StrCat(Name(), ": no key"));
      return;
    }
    key = data[0].flat<tensorflow::uint64>()(0);
    auto it = w->by_key.find(key);
    if (it == w->by_key.end()) {
      Violate("S02", "unknown-item", StrCat(Name(), ": key ", key));
      return;
    }
    Expected* e = it->second;
    const int len = mode == kSample ? e->cols[0].rows.size() : -1;
    if (!Info(data[0], len, &key) || !Info(data[1], len, &prob) ||
        !Info(data[2], len, &size) || !Info(data[3], len, &prio)) {
      Violate("S02", "wrong-info",
              StrCat(Name(), ": the sample of key ", key,
                     " has malformed information"));
      return;
    }
    SIM_LOG(StrCat(Name(), " gets key ", key, " end=", end));
    if (spec && !Fits(*e))
      Violate("S02", "unfit-sample-delivered",
              StrCat(Name(), ": the sample of key ", key,
                     " does not fit the sampler's specification"));
    if (e->cols.size() + 4 != data.size()) {
      Violate("S02", "wrong-columns",
              StrCat(Name(), ": the sample of key ", key, " has ",
                     data.size() - 4, " columns instead of ", e->cols.size()));
      return;
    }
    if (mode == kTimestep) {
      if (!rows_left) {
        rows_left = e;
        next_row = 0;
        step_limited = limited;
        step_info.assign(data.begin(), data.begin() + 4);
        Match(key, prob, size, prio, limited);
      } else if (rows_left != e || step_limited != limited) {
        Violate("S01,S02", "steps-mixed",
                StrCat(Name(), ": a step of key ", key, " follows step ",
                       next_row, " of key ", rows_left->key));
        return;
      }
      for (int i = 0; i < 4; i++)
        if (!SameTensor(step_info[i], data[i]))
          Violate("S02", "info-changes",
                  StrCat(Name(), ": information ", i,
                         " differs between the steps of key ", key));
      for (size_t c = 0; c < e->cols.size(); c++) {
        auto& rows = e->cols[c].rows;
        if (next_row >= rows.size() ||
            !SameTensor(data[c + 4], rows[next_row].value)) {
          Violate("S02", "wrong-data",
                  StrCat(Name(), ": step ", next_row, " of column ", c,
                         " of key ", key, " is ", data[c + 4].DebugString(),
                         next_row < rows.size()
                             ? " instead of " +
                                   rows[next_row].value.DebugString()
                             : std::string(" but there is no such step")));
          return;
        }
      }
      next_row++;
      const bool last = next_row == e->cols[0].rows.size();
      if (end != last)
        Violate("S01", "wrong-end-of-sequence",
                StrCat(Name(), ": step ", next_row - 1, " of ",
                       e->cols[0].rows.size(), " of key ", key,
                       " has end_of_sequence=", end));
      if (last) {
        rows_left = nullptr;
        consumed++;
      }
      return;
    }
    for (size_t c = 0; c < e->cols.size(); c++) {
      std::string diff =
          CompareColumn(data[c + 4], e->cols[c], mode == kTrajectory);
      if (!diff.empty())
        Violate("S02", "wrong-data",
                StrCat(Name(), ": column ", c, " of key ", key, " ", diff));
    }
    Match(key, prob, size, prio, limited);
    consumed++;
  }

  // When something last arrived for a sampler with one worker.
  int64_t LastArrival() const {
    int64_t last = created_at;
    if (local) {
      // A sampler that is gone may have caused the last one.
      if (!solo || epoch != 1) return last;
      for (size_t i = first_op; i < t->ops.size(); i++)
        last = std::max(last, t->ops[i]->ev.at_ns);
      return last;
    }
    auto it = w->reads.find(node);
    if (it == w->reads.end()) return last;
    for (auto& r : it->second)
      if (r->conn >= static_cast<int>(first_conn))
        last = std::max(last, r->op->ev.at_ns);
    return last;
  }

  // One call. False: the sampler is used up.
  bool Get() {
    std::vector<tensorflow::Tensor> data;
    bool end = false, limited = false;
    const bool closed_before = close_returned;
    const bool max_before =
        o.max_samples > 0 && consumed >= o.max_samples && !rows_left;
    const bool failed_before = !final_status.ok();
    call_since = NowNs();
    in_call = true;
    absl::Status st;
    switch (mode) {
      case kTrajectory: st = s->GetNextTrajectory(&data, &limited); break;
      case kSample: st = s->GetNextSample(&data, &limited); break;
      case kTimestep: st = s->GetNextTimestep(&data, &end, &limited); break;
    }
    in_call = false;
    const int64_t took = NowNs() - call_since;
    if (!st.ok()) SIM_LOG(StrCat(Name(), " gets ", st.ToString()));
    const absl::Duration timeout = o.rate_limiter_timeout;
    if (slack_ns && timeout != absl::InfiniteDuration() && !faults &&
        absl::Nanoseconds(took - slack_ns) > timeout)
      Violate("S04", "late-timeout",
              StrCat(Name(), ": a call with rate limiter timeout ",
                     absl::FormatDuration(timeout), " took ", took / 1000000,
                     "ms"));
    if (st.ok()) {
      if (max_before)
        Violate("S01", "more-than-max",
                StrCat(Name(), ": more than ", o.max_samples, " samples"));
      if (closed_before && !rows_left)
        Violate("S04", "call-after-close-ok",
                StrCat(Name(), ": a call after Close returned a sample"));
      if (failed_before && !rows_left)
        Violate("S04", "error-forgotten",
                StrCat(Name(), ": a sample follows ", final_status.ToString()));
      if (unknown_table)
        Violate("S04", "sample-of-unknown-table", Name());
      CheckData(std::move(data), end, limited);
      return true;
    }
    if (rows_left)
      Violate("S01,S04", "trajectory-cut",
              StrCat(Name(), ": ", st.ToString(), " after step ", next_row,
                     " of a trajectory of ", rows_left->cols[0].rows.size()));
    if (max_before) {
      if (!absl::IsOutOfRange(st))
        Violate("S01,S04", "wrong-end",
                StrCat(Name(), ": the end of the sequence is reported as ",
                       st.ToString()));
      Probe("sampler-max-reached");
    } else if (failed_before) {
      const bool ok = st.code() == final_status.code() ||
                      (absl::IsCancelled(st) && close_called);
      if (!ok)
        Violate("S04", "error-changes",
                StrCat(Name(), ": ", st.ToString(), " follows ",
                       final_status.ToString()));
    } else if (absl::IsOutOfRange(st)) {
      Violate("S01", "early-end",
              StrCat(Name(), ": the end is reported after ", consumed, " of ",
                     o.max_samples, " samples"));
    } else if (absl::IsCancelled(st)) {
      if (!close_called && !w->stopping)
        Violate("S04", "cancelled-without-close",
                StrCat(Name(), ": ", st.ToString()));
      Probe("sampler-cancelled");
    } else if (absl::IsDeadlineExceeded(st)) {
      Probe("sampler-timeout");
      const int64_t since = workers == 1 ? LastArrival() : created_at;
      // Milliseconds travel to a server.
      absl::Duration least = timeout;
      if (!local && timeout != absl::InfiniteDuration())
        least = absl::Milliseconds(Millis(timeout));
      if (timeout == absl::InfiniteDuration() ||
          absl::Nanoseconds(NowNs() - since) < least)
        Violate("S04", "early-timeout",
                StrCat(Name(), ": ", st.ToString(), " with timeout ",
                       absl::FormatDuration(timeout), ", ",
                       (NowNs() - since) / 1000, "us after the last sample"));
    } else if (spec && absl::IsInvalidArgument(st)) {
      Refused(data, st);
      return false;
    } else if (absl::IsNotFound(st)) {
      if (!unknown_table)
        Violate("S04", "wrong-error", StrCat(Name(), ": ", st.ToString()));
      Probe("sampler-unknown-table");
    } else if (st.code() == absl::StatusCode::kUnknown &&
               SawStatus(grpc::StatusCode::UNKNOWN)) {
      Probe("sampler-stream-removed");
    } else {
      Violate("S04",
              absl::IsUnavailable(st) ? "transient-error-reported"
                                      : "wrong-error",
              StrCat(Name(), ": ", st.ToString()));
    }
    if (final_status.ok()) final_status = st;
    return false;
  }

  void Close(bool destroy) {
    const int64_t start = NowNs();
    close_called = true;
    SIM_LOG(StrCat(Name(), destroy ? " destroy" : " close"));
    if (destroy)
      s.reset();
    else
      s->Close();
    close_returned = true;
    SIM_LOG(StrCat(Name(), " closed"));
    const int64_t took = NowNs() - start;
    if (slack_ns && took > (local ? 3000000000 : 0) + slack_ns + extra_ns)
      Violate("S04", "slow-close",
              StrCat(Name(), ": closing took ", took / 1000000, "ms"));
  }
  int64_t extra_ns = 0;       // how long the network may delay a close

  void Round(int calls) {
    Fiber* closer = nullptr;
    if (Flip(stream, 200)) {
      const int64_t ns = 1000LL * (1 + Choose(stream, 40000));
      closer = Spawn(StrCat("sampler-closer", id), [this, ns] {
        SleepNs(ns);
        Close(false);
      });
    }
    Fiber* late = nullptr;
    bool over = false;
    if (early_stop) {
      late = Spawn(StrCat("sampler-late-closer", id), [this, &over] {
        while (!over && !must_close) SleepNs(1000000);
        if (!over) Close(false);
      });
    }
    const bool slow = Flip(stream, 200);
    bool alive = true;
    for (int i = 0; alive && (i < calls || rows_left); i++) {
      alive = Get();
      if (slow && Flip(stream, 300))
        SleepNs(1000LL * (1 + Choose(stream, 20000)));
    }
    // A failed sampler keeps saying so.
    if (!alive && !spec_failed && Flip(stream, 400)) Get();
    if (closer) Join(closer);
    over = true;
    if (late) Join(late);
    if (Flip(stream, 300)) {
      Close(false);
      if (!spec_failed && Flip(stream, 300)) Get();
    }
    Close(true);
    counting = false;
  }

  void Run(int rounds) {
    for (int r = 0; r < rounds; r++) {
      if (!Create()) continue;
      // Without a fault every wanted sample arrives.
      int calls = Flip(stream, 500) && o.max_samples > 0
                      ? (mode == kTimestep ? 1000 : o.max_samples + 1)
                      : Choose(stream, 12);
      if (Flip(stream, 150)) {
        // Let it prefetch.
        SleepNs(1000000LL * Choose(stream, 60));
      }
      Round(calls);
    }
    done_ops = true;
  }
};

}  // namespace harness
#endif

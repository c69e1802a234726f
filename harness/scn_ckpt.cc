// Tables that are saved and loaded again, on a disk that fails and through
// crashes: what is loaded must be what was saved.
#include <algorithm>

#include "absl/strings/str_cat.h"
#include "harness/ckpt_model.h"
#include "harness/table_driver.h"
#include "reverb/cc/platform/tfrecord_checkpointer.h"
#include "reverb/cc/support/grpc_util.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/tensor_compression.h"
#include "reverb/cc/support/trajectory_util.h"
#include "tensorflow/core/lib/io/record_reader.h"
#include "tensorflow/core/lib/io/record_writer.h"
#include "tensorflow/core/platform/env.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

namespace {

// Where checkpoints are stored in this run.
std::string kRoot;

struct Life;

// What outlives the process.
struct Deployment {
  SimDisk disk;
  std::vector<TableSpec> specs;
  std::vector<absl::optional<tensorflow::StructuredValue>> signatures;
  ChunkData chunks;
  Key next_chunk = 1000;
  std::vector<std::unique_ptr<SaveRec>> saves;
  std::vector<std::unique_ptr<Life>> lives;
  // Directories of completed saves that were not removed, in the order of
  // completion.
  std::vector<std::string> complete;
  std::map<std::string, uint64_t> created;   // step
  std::map<int, SaveRec*> saving;    // by fiber
  int active_saves = 0;
  std::set<std::string> unrelated;
  absl::optional<std::string> fallback;
};

// A process.
struct Life {
  std::vector<std::unique_ptr<TableDriver>> d;
  std::vector<std::unique_ptr<TableLog>> logs;
  std::vector<std::shared_ptr<rv::ChunkStore::Chunk>> pool;
  std::unique_ptr<rv::TFRecordCheckpointer> ckpt;
  std::unique_ptr<rv::ReverbServiceImpl> service;   // if used
  std::unique_ptr<rv::ChunkStore> store;
  std::vector<Fiber*> fibers;
};

// No faults, no delays in its scope.
struct QuietDisk {
  DiskConfig old;
  QuietDisk() : old(SimDisk::Get()->cfg) {
    DiskConfig c = old;
    c.latency_ns = 0;
    c.fail_permille = c.read_fail_permille = c.slow_permille = 0;
    c.capacity = -1;
    SimDisk::Get()->cfg = c;
  }
  ~QuietDisk() { SimDisk::Get()->cfg = old; }
};

std::shared_ptr<rv::ChunkStore::Chunk> NewChunk(Deployment* dep, int stream,
                                                int episode) {
  rv::ChunkData d = MakeChunkData(dep->next_chunk++, episode,
                                  1 + Choose(stream, 4));
  const int more = Choose(stream, 3);
  for (int i = 0; i < more; i++) {
    tensorflow::Tensor t(tensorflow::DT_INT64, {1 + Choose(stream, 30)});
    for (int j = 0; j < t.NumElements(); j++)
      t.flat<int64_t>()(j) = Choose(kCfg, 0) + j * 77777 + d.chunk_key();
    rv::CompressTensorAsProto(t, d.mutable_data()->add_tensors());
  }
  if (Flip(stream, 200)) d.set_delta_encoded(true);
  dep->chunks[d.chunk_key()] = d.SerializeAsString();
  return std::make_shared<rv::ChunkStore::Chunk>(std::move(d));
}

void UseChunks(Deployment* dep, Life* life, TableDriver* d) {
  d->chunk_source = [dep, life](int stream, int n, int episode) {
    NoPreempt np;
    std::vector<std::shared_ptr<rv::ChunkStore::Chunk>> r;
    std::set<uint64_t> have;
    for (int i = 0; i < n; i++) {
      std::shared_ptr<rv::ChunkStore::Chunk> c;
      if (!life->pool.empty() && Flip(stream, 400))
        c = life->pool[Choose(stream, life->pool.size())];
      else
        c = NewChunk(dep, stream, episode + i);
      if (!have.insert(c->key()).second) continue;
      r.push_back(c);
      life->pool.push_back(c);
      if (life->pool.size() > 6) life->pool.erase(life->pool.begin());
    }
    return r;
  };
}

// A table whose configuration comes from the checkpoint that is loaded into it
// may have had another one before.
std::shared_ptr<rv::Table> Placeholder(const TableSpec& s, TableOracle* o) {
  std::vector<std::shared_ptr<rv::TableExtension>> ext;
  if (o) ext.push_back(o->extension());
  SelSpec any;
  return std::make_shared<rv::Table>(
      s.name, MakeSelector(any), MakeSelector(any), s.max_size + 3, 0,
      std::make_shared<rv::RateLimiter>(1, 1, -1e9, 1e9), ext);
}

std::unique_ptr<Life> FreshLife(Deployment* dep, bool placeholders) {
  auto life = std::make_unique<Life>();
  for (size_t i = 0; i < dep->specs.size(); i++) {
    auto d = std::make_unique<TableDriver>();
    d->spec = dep->specs[i];
    d->oracle = std::make_unique<TableOracle>(d->spec);
    d->oracle->strict_ops = true;
    d->oracle->loading = true;
    d->table = placeholders ? Placeholder(d->spec, d->oracle.get())
                            : d->oracle->MakeTable({}, dep->signatures[i]);
    UseChunks(dep, life.get(), d.get());
    life->d.push_back(std::move(d));
  }
  return life;
}

void Begin(Deployment* dep, Life* life) {
  for (size_t i = 0; i < life->d.size(); i++) {
    TableDriver* d = life->d[i].get();
    d->oracle->loading = false;
    auto log = std::make_unique<TableLog>();
    log->Attach(d->oracle.get());
    log->signature =
        dep->signatures[i] ? Bytes(*dep->signatures[i]) : "";
    life->logs.push_back(std::move(log));
  }
}

std::vector<std::shared_ptr<rv::Table>> Tables(Life* life) {
  std::vector<std::shared_ptr<rv::Table>> r;
  for (auto& d : life->d) r.push_back(d->table);
  return r;
}

bool Done(Deployment* dep, const std::string& dir) {
  return dep->disk.Exists(dir + "/DONE");
}

std::vector<LoadedTable> Loaded(Life* life) {
  std::vector<LoadedTable> r;
  for (auto& d : life->d)
    r.push_back({d->spec.name, d->table.get(), d->oracle.get()});
  return r;
}
std::string FindCut(SaveRec* save, Life* life, Deployment* dep,
                    std::vector<const MState*>* found) {
  return FindCut(save, Loaded(life), dep->chunks, found);
}
SaveRec* LastOk(Deployment* dep) { return LastOk(dep->saves); }
void Adopt(Deployment* dep, Life* life, const std::string& how) {
  Adopt(dep->saves, dep->chunks, Loaded(life), how);
}

std::set<std::string> Listing(Deployment* dep) {
  std::set<std::string> r;
  for (auto& c : dep->disk.Children(kRoot)) r.insert(StrCat(kRoot, "/", c));
  return r;
}

// After a successful save which no other overlapped.
void CheckPruning(Deployment* dep, SaveRec* r) {
  NoPreempt np;
  if (!Done(dep, r->dir)) {
    Violate("K04,K02", "saved-checkpoint-gone",
            StrCat("checkpoint ", r->dir, " is not there when its save returns"));
    EndRun();
  }
  dep->complete.push_back(r->dir);
  while (static_cast<int>(dep->complete.size()) > r->keep)
    dep->complete.erase(dep->complete.begin());
  std::set<std::string> want(dep->complete.begin(), dep->complete.end()), have;
  for (auto& p : Listing(dep))
    if (Done(dep, p) && !dep->unrelated.count(p)) have.insert(p);
  if (want != have) {
    std::string w, h;
    for (auto& p : want) w += " " + p.substr(kRoot.size() + 1);
    for (auto& p : have) h += " " + p.substr(kRoot.size() + 1);
    Violate("K04", "wrong-checkpoints-kept",
            StrCat("after a save which keeps ", r->keep,
                   " the complete checkpoints are", h, " instead of", w));
    EndRun();
  }
}

void CheckUnrelated(Deployment* dep) {
  for (auto& p : dep->unrelated)
    if (!dep->disk.Exists(p)) {
      Violate("K04", "unrelated-entry-deleted", StrCat(p, " is gone"));
      EndRun();
    }
}

// What is on disk after something unclear happened.
void Relist(Deployment* dep) {
  NoPreempt np;
  std::vector<std::string> now;
  for (auto& p : dep->complete)
    if (Done(dep, p)) now.push_back(p);
  // A save that did not return may have completed.
  for (auto& s : dep->saves)
    if (dep->created.count(s->dir) && Done(dep, s->dir) &&
        std::find(now.begin(), now.end(), s->dir) == now.end())
      now.push_back(s->dir);
  // In the order in which they were created.
  std::sort(now.begin(), now.end(), [dep](auto& a, auto& b) {
    return dep->created[a] < dep->created[b];
  });
  dep->complete = now;
}

void Save(Deployment* dep, Life* life, int stream) {
  auto rec = std::make_unique<SaveRec>();
  SaveRec* r = rec.get();
  const int fid = FiberId();
  int wf, rf;
  {
    NoPreempt np;
    r->id = dep->saves.size();
    r->keep = life->service ? 1 : 1 + Weighted(stream, {5, 2, 2, 1});
    for (auto& l : life->logs) r->tables.push_back(l.get());
    wf = dep->disk.write_faults[fid];
    rf = dep->disk.read_faults[fid];
    r->start = Step();
    r->overlapped = dep->active_saves > 0;
    for (auto& s : dep->saves)
      if (!s->end && !s->crashed) s->overlapped = true;
    dep->active_saves++;
    dep->saving[fid] = r;
    dep->saves.push_back(std::move(rec));
  }
  std::string path;
  absl::Status st;
  SIM_LOG(StrCat("save ", r->id, " keep ", r->keep));
  if (life->service) {
    rv::CheckpointRequest req;
    rv::CheckpointResponse resp;
    grpc::ServerContext ctx;
    st = rv::FromGrpcStatus(life->service->Checkpoint(&ctx, &req, &resp));
    path = resp.checkpoint_path();
  } else {
    std::vector<rv::Table*> ts;
    for (auto& d : life->d) ts.push_back(d->table.get());
    st = life->ckpt->Save(std::move(ts), r->keep, &path);
  }
  NoPreempt np;
  SIM_LOG(StrCat("save ", r->id, " -> ", st.ToString(), " ", path));
  r->end = Step();
  r->ok = st.ok();
  wf = dep->disk.write_faults[fid] - wf;
  rf = dep->disk.read_faults[fid] - rf;
  r->faulty = wf + rf > 0;
  dep->active_saves--;
  dep->saving.erase(fid);
  Probe(st.ok() ? "save-ok" : "save-failed");
  if (st.ok() && wf > 0)
    Violate("K03", "io-error-not-reported",
            StrCat("save ", r->id, " succeeds although ", wf,
                   " of its file operations failed"));
  if (st.ok() && path != r->dir)
    Violate("K01,K04", "wrong-path",
            StrCat("save ", r->id, " returns ", path, " instead of ", r->dir));
  if (!st.ok() && !r->faulty && !r->overlapped)
    Violate("K01,K02,K03,K04", "save-fails",
            StrCat("save ", r->id, " fails: ", st.ToString()));
  if (!st.ok() && !r->faulty && r->overlapped) Probe("overlapped-save-failed");
  if (st.ok() && !r->overlapped) {
    CheckPruning(dep, r);
  } else if (st.ok() && !Done(dep, r->dir)) {
    // Another save may have pruned it only if it is newer.
    bool newer = false;
    for (auto& s : dep->saves)
      newer |= s.get() != r && !s->dir.empty() && s->dir > r->dir &&
               Done(dep, s->dir);
    if (!newer)
      Violate("K04,K02", "saved-checkpoint-gone",
              StrCat("checkpoint ", r->dir,
                     " is not there when its save returns"));
    Relist(dep);
  } else {
    Relist(dep);
  }
  CheckUnrelated(dep);
}

// The number of records with each chunk key.
void CheckStoredOnce(Deployment* dep, const std::string& dir) {
  QuietDisk q;
  NoPreempt np;
  std::unique_ptr<tensorflow::RandomAccessFile> f;
  if (!tensorflow::Env::Default()
           ->NewRandomAccessFile(dir + "/chunks.tfrecord", &f)
           .ok())
    return;
  tensorflow::io::RecordReader r(f.get());
  tensorflow::uint64 at = 0;
  tensorflow::tstring rec;
  std::map<uint64_t, int> n;
  while (r.ReadRecord(&at, &rec).ok()) {
    rv::ChunkData d;
    if (!d.ParseFromArray(rec.data(), rec.size())) return;
    if (++n[d.chunk_key()] > 1)
      Violate("K01", "chunk-stored-twice",
              StrCat("chunk ", d.chunk_key(), " is stored more than once"));
  }
}

// Loads into tables that must not change if loading fails.
absl::Status TryLoad(Deployment* dep, Life* scratch, rv::ChunkStore* store,
                     const std::string& path, size_t ntables,
                     std::vector<std::shared_ptr<rv::Table>>* tables) {
  tables->clear();
  for (size_t i = 0; i < ntables; i++)
    tables->push_back(scratch->d[i]->table);
  auto before = *tables;
  rv::TFRecordCheckpointer ck("sim://d/nowhere");
  absl::Status st = ck.Load(path, store, tables);
  if (!st.ok()) {
    Probe("load-refused");
    for (size_t i = 0; i < ntables; i++) {
      if ((*tables)[i] != before[i])
        Violate("K01,K03", "failed-load-changes-table",
                StrCat("loading ", path, " failed with ", st.ToString(),
                       " but replaced table ", i));
      if (scratch->d[i]->oracle->unregistered() > 0 ||
          before[i]->UnsafeClearExtensions().empty())
        Violate("K01,K03", "failed-load-changes-table",
                StrCat("loading ", path, " failed with ", st.ToString(),
                       " but table ", i, " lost its extensions"));
    }
  }
  return st;
}

// Loads `path`, which is not a complete and undamaged checkpoint.
void LoadDamaged(Deployment* dep, SaveRec* of, const std::string& path,
                 const std::string& damage, bool must_fail) {
  auto scratch = FreshLife(dep, true);
  auto store = std::make_unique<rv::ChunkStore>();
  std::vector<std::shared_ptr<rv::Table>> tables;
  absl::Status st = TryLoad(dep, scratch.get(), store.get(), path,
                            dep->specs.size(), &tables);
  NoPreempt np;
  SIM_LOG(StrCat("load of ", damage, " ", path, " -> ", st.ToString()));
  if (!st.ok()) return;
  std::vector<const MState*> found;
  for (size_t i = 0; i < tables.size(); i++) scratch->d[i]->table = tables[i];
  std::string diff = of ? FindCut(of, scratch.get(), dep, &found) : "unknown";
  if (must_fail)
    Violate("K02,K03", "partial-checkpoint-loaded",
            StrCat("loading ", path, " (", damage, ") succeeds"));
  if (!diff.empty())
    Violate("K03", "damaged-checkpoint-loaded",
            StrCat("loading ", path, " (", damage,
                   ") succeeds with other content: ", diff));
}

void Damage(Deployment* dep) {
  SaveRec* r = LastOk(dep);
  if (!r || !Done(dep, r->dir)) return;
  const std::string copy = StrCat("sim://d/copies/", dep->saves.size());
  std::map<std::string, std::string> files;
  for (auto& c : dep->disk.Children(r->dir))
    files[c] = *dep->disk.Data(StrCat(r->dir, "/", c));
  auto it = files.begin();
  std::vector<std::string> names;
  for (auto& [n, d] : files)
    names.push_back(n);
  if (names.empty()) return;
  const std::string name = names[Choose(kDisk, names.size())];
  std::string& data = files[name];
  std::string what;
  // Where records begin.
  std::vector<size_t> bounds;
  for (size_t at = 0; at + 12 <= data.size();) {
    uint64_t len;
    memcpy(&len, data.data() + at, 8);
    bounds.push_back(at);
    at += 16 + len;
  }
  const int kind = Choose(kDisk, 5);
  if (kind == 0 && !bounds.empty()) {
    what = "truncated between records";
    data.resize(bounds[Choose(kDisk, bounds.size())]);
  } else if (kind == 1 && !data.empty()) {
    what = "truncated";
    data.resize(Choose(kDisk, data.size()));
  } else if (kind == 2 && !data.empty()) {
    what = "bit flipped";
    data[Choose(kDisk, data.size())] ^= 1 << Choose(kDisk, 8);
  } else if (kind == 3) {
    what = "missing";
    files.erase(name);
  } else if (!data.empty()) {
    what = "zeroed";
    for (size_t i = Choose(kDisk, data.size()); i < data.size(); i++)
      data[i] = 0;
  } else {
    return;
  }
  (void)it;
  Fault(StrCat("checkpoint-", what.substr(0, 9)));
  for (auto& [n, d] : files) dep->disk.WriteDirectly(StrCat(copy, "/", n), d);
  QuietDisk q;
  LoadDamaged(dep, r, copy, StrCat(name, " ", what), false);
  for (auto& [n, d] : files) dep->disk.Remove(StrCat(copy, "/", n));
}

std::vector<std::string> Records(const std::string& path) {
  std::unique_ptr<tensorflow::RandomAccessFile> f;
  std::vector<std::string> all;
  if (!tensorflow::Env::Default()->NewRandomAccessFile(path, &f).ok())
    return all;
  tensorflow::io::RecordReader r(f.get());
  tensorflow::uint64 at = 0;
  tensorflow::tstring rec;
  while (r.ReadRecord(&at, &rec).ok()) all.push_back(std::string(rec));
  return all;
}
void WriteRecords(const std::string& path,
                  const std::vector<std::string>& records) {
  std::unique_ptr<tensorflow::WritableFile> f;
  if (!tensorflow::Env::Default()->NewWritableFile(path, &f).ok()) return;
  tensorflow::io::RecordWriter w(f.get());
  for (auto& r : records)
    if (!w.WriteRecord(r).ok()) return;
  (void)w.Close();
  (void)f->Close();
}

// Loads a checkpoint as versions before trajectories stored it: data in the
// old field, items that name chunks and a range of their rows, no content in
// the last file. It must be the same as the new one.
void OldFormat(Deployment* dep) {
  SaveRec* r = LastOk(dep);
  if (!r || !Done(dep, r->dir)) return;
  QuietDisk q;
  const std::string copy = StrCat("sim://d/old/", dep->saves.size());
  std::vector<std::string> chunks = Records(r->dir + "/chunks.tfrecord");
  std::vector<std::string> tables = Records(r->dir + "/tables.tfrecord");
  // A later save may have failed while it deleted this checkpoint.
  if (!dep->disk.Exists(r->dir + "/chunks.tfrecord") ||
      tables.size() != dep->specs.size())
    return;
  std::map<uint64_t, std::shared_ptr<rv::ChunkStore::Chunk>> by_key;
  for (auto& x : chunks) {
    rv::ChunkData d;
    if (!d.ParseFromString(x)) return;
    by_key[d.chunk_key()] = std::make_shared<rv::ChunkStore::Chunk>(d);
    if (Flip(kDisk, 700)) {
      d.mutable_deprecated_data()->Swap(d.mutable_data()->mutable_tensors());
      d.clear_data();
      x = d.SerializeAsString();
    }
  }
  int converted = 0;
  for (auto& x : tables) {
    rv::PriorityTableCheckpoint t;
    if (!t.ParseFromString(x)) return;
    for (auto& item : *t.mutable_items()) {
      std::vector<std::shared_ptr<rv::ChunkStore::Chunk>> used;
      for (auto k : rv::internal::GetChunkKeys(item.flat_trajectory())) {
        if (!by_key.count(k)) return;
        used.push_back(by_key[k]);
      }
      if (used.empty() || Flip(kDisk, 200)) continue;
      const auto& slices = item.flat_trajectory().columns(0).chunk_slices();
      const int offset = slices[0].offset();
      int rows = 0;
      for (auto& s : slices) rows += s.length();
      if (slices.size() != static_cast<int>(used.size())) continue;
      rv::FlatTrajectory same;
      for (int c = 0; c < used[0]->num_columns(); c++) {
        auto* col = same.add_columns();
        int left = rows;
        for (auto& u : used) {
          auto* s = col->add_chunk_slices();
          s->set_chunk_key(u->key());
          s->set_offset(u == used[0] ? offset : 0);
          s->set_length(std::min<int>(u->num_rows() - s->offset(), left));
          s->set_index(c);
          left -= s->length();
        }
      }
      if (same.SerializeAsString() !=
          item.flat_trajectory().SerializeAsString())
        continue;
      item.clear_flat_trajectory();
      for (auto& u : used) item.add_deprecated_chunk_keys(u->key());
      item.mutable_deprecated_sequence_range()->set_offset(offset);
      item.mutable_deprecated_sequence_range()->set_length(rows);
      converted++;
    }
    x = t.SerializeAsString();
  }
  dep->disk.MkdirDirectly(copy);
  WriteRecords(copy + "/chunks.tfrecord", chunks);
  WriteRecords(copy + "/tables.tfrecord", tables);
  dep->disk.WriteDirectly(copy + "/DONE", "");
  auto scratch = FreshLife(dep, true);
  auto store = std::make_unique<rv::ChunkStore>();
  std::vector<std::shared_ptr<rv::Table>> loaded;
  absl::Status st = TryLoad(dep, scratch.get(), store.get(), copy,
                            dep->specs.size(), &loaded);
  NoPreempt np;
  SIM_LOG(StrCat("load in the old format -> ", st.ToString()));
  Probe(converted ? "old-format-items" : "old-format");
  if (!st.ok()) {
    Violate("K01", "old-format-refused", st.ToString());
  } else {
    std::vector<const MState*> found;
    for (size_t i = 0; i < loaded.size(); i++) scratch->d[i]->table = loaded[i];
    std::string diff = FindCut(r, scratch.get(), dep, &found);
    if (!diff.empty())
      Violate("K01", "old-format-differs",
              StrCat("the checkpoint ", r->dir, " in the old format: ", diff));
    // What was loaded can be saved and loaded again.
    std::vector<rv::Table*> ts;
    for (auto& t : loaded) ts.push_back(t.get());
    std::string path;
    auto again = FreshLife(dep, true);
    std::vector<std::shared_ptr<rv::Table>> tables2;
    st = rv::TFRecordCheckpointer(copy).Save(ts, 1, &path);
    if (st.ok())
      st = TryLoad(dep, again.get(), store.get(), path, dep->specs.size(),
                   &tables2);
    if (!st.ok())
      Violate("K01", "old-format-not-resaved", st.ToString());
    for (auto& c : dep->disk.Children(path))
      dep->disk.Remove(StrCat(path, "/", c));
  }
  for (auto* n : {"chunks.tfrecord", "tables.tfrecord", "DONE"})
    dep->disk.Remove(StrCat(copy, "/", n));
}

void Mismatch(Deployment* dep) {
  SaveRec* r = LastOk(dep);
  if (!r || !Done(dep, r->dir)) return;
  QuietDisk q;
  auto store = std::make_unique<rv::ChunkStore>();
  std::vector<std::shared_ptr<rv::Table>> tables;
  if (dep->specs.size() > 1) {
    auto scratch = FreshLife(dep, true);
    // One of the saved tables is not in the set.
    const size_t gone = Choose(kWork, dep->specs.size());
    std::swap(scratch->d[gone], scratch->d.back());
    absl::Status st = TryLoad(dep, scratch.get(), store.get(), r->dir,
                              dep->specs.size() - 1, &tables);
    if (st.ok())
      Violate("K01", "mismatch-accepted",
              "a checkpoint is loaded although one of its tables is not in "
              "the set");
    Probe("mismatch-refused");
  }
  auto scratch = FreshLife(dep, true);
  absl::Status st =
      TryLoad(dep, scratch.get(), store.get(), StrCat(kRoot, "/none"),
              dep->specs.size(), &tables);
  if (st.ok())
    Violate("K01", "nothing-loaded", "loading a path without checkpoint is OK");
}

// A checkpoint of another deployment with the same tables.
void MakeFallback(Deployment* dep) {
  QuietDisk q;
  auto life = FreshLife(dep, false);
  Begin(dep, life.get());
  for (auto& d : life->d) {
    OpMix mix;
    mix.read = 0;
    TableDriver* p = d.get();
    Fiber* f = Spawn("before", [p, mix] {
      TableClientOps(p, 7, 1 + Choose(kWork, 8), mix, 6);
    });
    SleepNs(1000000 * (1 + Choose(kWork, 30)));
    d->stop = true;
    // If it waits it ends when the table is closed.
    life->fibers.push_back(f);
  }
  auto rec = std::make_unique<SaveRec>();
  rec->id = dep->saves.size();
  for (auto& l : life->logs) rec->tables.push_back(l.get());
  rec->start = Step();
  std::vector<rv::Table*> ts;
  for (auto& d : life->d) ts.push_back(d->table.get());
  absl::Status st = rv::TFRecordCheckpointer("sim://d/elsewhere")
                        .Save(std::move(ts), 1, &rec->dir);
  rec->end = Step();
  rec->ok = true;
  if (!st.ok())
    Violate("K01,K02,K03,K04", "save-fails", StrCat("save fails: ", st.ToString()));
  SIM_LOG(StrCat("fallback checkpoint ", rec->dir));
  Probe("fallback-checkpoint");
  dep->fallback = rec->dir;
  dep->saves.push_back(std::move(rec));
  for (auto& d : life->d) d->Close();
  for (Fiber* f : life->fibers) Join(f);
  for (auto& log : life->logs) log->Detach();
  life->pool.clear();
  for (auto& d : life->d) {
    d->table.reset();
    d->chunk_source = nullptr;
  }
  dep->lives.push_back(std::move(life));
}

void RunCkpt(bool crashes) {
  SetHangProps("K01,K02,K03,K04,K05");
  const bool exact = false;
  RandomSchedule(/*stalls=*/Flip(kCfg, 300), exact);
  static const char* roots[] = {"sim://d/ckpt/root", "sim://d/root",
                                "sim://d/lr=[0.1,0.2]/*?/root", "sim://d/a b"};
  kRoot = roots[Weighted(kCfg, {4, 1, 1, 1})];
  Deployment dep;
  dep.disk.cfg = RandomDisk(Flip(kCfg, 500));
  dep.disk.on_mkdir = [&dep](const std::string& p) {
    auto it = dep.saving.find(FiberId());
    if (it == dep.saving.end() || p.compare(0, kRoot.size(), kRoot) != 0 ||
        p.size() <= kRoot.size() + 1)
      return;
    it->second->dir = p;
    dep.created[p] = Step();
  };
  const int nt = 1 + Choose(kCfg, 3);
  for (int i = 0; i < nt; i++) {
    dep.specs.push_back(RandomTable(StrCat("t", i), 6));
    dep.signatures.emplace_back();
    if (Flip(kCfg, 300)) {
      dep.signatures.back().emplace();
      auto* s = dep.signatures.back()->mutable_tensor_spec_value();
      s->set_name(StrCat("sig", i));
      s->set_dtype(tensorflow::DT_INT64);
      s->mutable_shape()->add_dim()->set_size(-1);
    }
  }
  if (Flip(kCfg, 300)) {
    static const char* names[] = {"0notes", "README", "lost+found", "zz"};
    const int n = 1 + Choose(kCfg, 3);
    for (int i = 0; i < n; i++) {
      std::string p = StrCat(kRoot, "/", names[Choose(kCfg, 4)]);
      if (Flip(kCfg, 500)) {
        dep.disk.MkdirDirectly(p);
      } else {
        dep.disk.WriteDirectly(StrCat(p, ".txt"), "x");
        p += ".txt";
      }
      dep.unrelated.insert(p);
    }
  }
  const int nlives = 2 + Choose(kCfg, 3);
  const int nclients = 1 + Choose(kCfg, 3);
  const int nsavers = 1 + Weighted(kCfg, {3, 1, 1});
  const int keys = 3 + Choose(kCfg, 8);
  const bool use_service = Flip(kCfg, 400);
  const bool jumps = Flip(kCfg, 300);
  OpMix mix;
  mix.read = 1;
  if (Flip(kCfg, 700)) mix.reset = 0;
  if (Flip(kCfg, 250)) MakeFallback(&dep);
  EnableMemPreemption();
  for (int life_no = 0; life_no < nlives; life_no++) {
    // Start: load what there is.
    std::unique_ptr<Life> life;
    for (int attempt = 0; attempt < 20; attempt++) {
      if (attempt > 10) dep.disk.cfg.read_fail_permille = 0;
      life = FreshLife(&dep, Flip(kWork, 500));
      const int rf = dep.disk.read_faults[FiberId()];
      absl::Status st;
      auto tables = Tables(life.get());
      life->ckpt = std::make_unique<rv::TFRecordCheckpointer>(kRoot, "",
                                                              dep.fallback);
      bool nothing = false;
      if (use_service) {
        std::shared_ptr<rv::Checkpointer> ck = std::move(life->ckpt);
        st = rv::ReverbServiceImpl::Create(tables, ck, &life->service);
        if (st.ok()) {
          auto m = life->service->tables();
          nothing = true;
          for (size_t i = 0; i < tables.size(); i++) {
            if (m[tables[i]->name()] != tables[i]) nothing = false;
            tables[i] = m[tables[i]->name()];
          }
        }
      } else {
        life->store = std::make_unique<rv::ChunkStore>();
        st = life->ckpt->LoadLatest(life->store.get(), &tables);
        if (absl::IsNotFound(st))
          st = life->ckpt->LoadFallbackCheckpoint(life->store.get(), &tables);
        if (absl::IsNotFound(st)) nothing = true;
      }
      const bool faulty = dep.disk.read_faults[FiberId()] > rf;
      SIM_LOG(StrCat("life ", life_no, ": load -> ", st.ToString(),
                     nothing ? " nothing" : ""));
      if (!st.ok() && !nothing) {
        if (!faulty) {
          Violate("K02,K03,K01", "load-fails",
                  StrCat("loading the latest checkpoint fails: ",
                         st.ToString()));
          EndRun();
        }
        Probe("load-retried");
        continue;
      }
      if (nothing) {
        if (SaveRec* must = LastOk(&dep)) {
          Violate(faulty ? "K03,K02" : "K02,K04", "checkpoint-lost",
                  StrCat("no checkpoint is found although save ", must->id,
                         " in ", must->dir, " was successful"));
          EndRun();
        }
        if (faulty) {
          // Something may be there.
          bool any = false;
          for (auto& p : Listing(&dep)) any |= Done(&dep, p);
          if (any) Violate("K03", "checkpoint-lost", "after a read error");
        }
        const bool svc = life->service != nullptr;
        life->service.reset();
        life = FreshLife(&dep, false);
        if (svc) {
          // A service over the real tables; nothing is there to be loaded.
          QuietDisk q;
          absl::Status s2 = rv::ReverbServiceImpl::Create(
              Tables(life.get()),
              std::make_shared<rv::TFRecordCheckpointer>(kRoot),
              &life->service);
          if (!s2.ok()) Violate("K02", "load-fails", s2.ToString());
        } else {
          life->ckpt = std::make_unique<rv::TFRecordCheckpointer>(kRoot);
        }
        for (auto& d : life->d) d->oracle->loading = false;
      } else {
        for (size_t i = 0; i < tables.size(); i++)
          life->d[i]->table = tables[i];
        tables.clear();
        Adopt(&dep, life.get(), StrCat("life ", life_no));
      }
      break;
    }
    Begin(&dep, life.get());
    Life* l = life.get();
    dep.lives.push_back(std::move(life));
    // Partial checkpoints are refused.
    for (auto& p : Listing(&dep)) {
      if (Done(&dep, p) || dep.unrelated.count(p)) continue;
      QuietDisk q;
      Probe("partial-checkpoint");
      LoadDamaged(&dep, nullptr, p, "partial", true);
    }
    // Work and saves.
    const bool crash = crashes && Flip(kWork, 700);
    SetNode(2);
    std::vector<Fiber*> fs, sv;
    for (size_t t = 0; t < l->d.size(); t++)
      for (int i = 0; i < nclients; i++) {
        TableDriver* d = l->d[t].get();
        const int id = t * 3 + i, nops = 2 + Choose(kWork, 14);
        fs.push_back(Spawn(StrCat("client", t, "-", i), [d, id, nops, mix,
                                                         keys] {
          TableClientOps(d, id, nops, mix, keys);
        }));
      }
    Deployment* dp = &dep;
    for (int i = 0; i < nsavers; i++)
      sv.push_back(Spawn(StrCat("saver", i), [dp, l, i] {
        const int s = kWork + 20 + i;
        const int n = 1 + Choose(s, 4);
        for (int j = 0; j < n; j++) {
          SleepNs(1 + 10000 * Choose(s, 300));
          Save(dp, l, s);
        }
      }));
    SetNode(0);
    const int64_t until = NowNs() + 1000 * Choose(kWork, 40000);
    int n = 0;
    int64_t pause = 300000;
    while (true) {
      bool busy = false;
      for (Fiber* f : sv) busy |= !reverbsim::Done(f);
      if (crash && NowNs() >= until) break;
      if (!busy) break;
      SleepNs(pause);
      pause = std::min<int64_t>(pause * 3 / 2, 200000000);
      if (jumps && ++n < 8 && Flip(kTime, 150)) {
        Fault("clock-jump");
        JumpWallClock((static_cast<int64_t>(Choose(kTime, 2000)) - 1500) *
                      (Choose(kTime, 2) ? 1000000 : 3600000000));
      }
    }
    if (crash) {
      const bool machine = Flip(kWork, 500);
      SIM_LOG(machine ? "the machine crashes" : "the process crashes");
      KillNode(2);
      dep.disk.Crash(machine);
      for (auto& s : dep.saves)
        if (!s->end) {
          s->crashed = true;
          Probe("crash-during-save");
        }
      dep.active_saves = 0;
      dep.saving.clear();
      for (auto& log : l->logs) log->Detach();
      l->service.release();
      l->ckpt.release();
      l->store.release();
      // The process is gone; what it holds never runs again.
      for (auto& d : l->d) {
        d->oracle.release();
        new std::shared_ptr<rv::Table>(d->table);
      }
      Relist(&dep);
      CheckUnrelated(&dep);
      continue;
    }
    for (auto& d : l->d) d->stop = true;
    for (auto& d : l->d) d->Close();
    for (Fiber* f : fs) Join(f);
    for (auto& log : l->logs) log->Detach();
    if (SaveRec* r = LastOk(&dep))
      if (Done(&dep, r->dir)) CheckStoredOnce(&dep, r->dir);
    if (Flip(kWork, 400)) Damage(&dep);
    if (Flip(kWork, 300)) OldFormat(&dep);
    if (Flip(kWork, 300)) Mismatch(&dep);
    l->service.reset();
    l->pool.clear();
    for (auto& d : l->d) {
      d->table.reset();
      d->chunk_source = nullptr;
    }
  }
  DisableMemPreemption();
}
}  // namespace

SCENARIO(ckpt) { RunCkpt(false); }
SCENARIO(ckpt_crash) { RunCkpt(true); }

}  // namespace harness

#include "harness/ckpt_model.h"

#include <algorithm>

#include "absl/strings/str_cat.h"

namespace harness {
using absl::StrCat;
using namespace reverbsim;

void TableLog::Attach(TableOracle* o) {
  NoPreempt np;
  oracle = o;
  spec = o->spec();
  cuts.push_back({Step(), std::make_shared<MState>(o->state())});
  obs.fn = [this](bool same) {
    if (!same) before_op = cuts.size();
    if (oracle->mid_op()) return;
    auto m = std::make_shared<MState>(oracle->state());
    // States in the middle of one atomic operation are no cuts.
    if (cuts.size() > before_op) cuts.resize(before_op);
    cuts.push_back({Step(), std::move(m)});
  };
  o->AddObserver(&obs);
}
void TableLog::Detach() {
  if (oracle) oracle->RemoveObserver(&obs);
  oracle = nullptr;
}

namespace {
std::string Options(const rv::KeyDistributionOptions& o) {
  return o.ShortDebugString();
}
std::string Options(const SelSpec& s) {
  return Options(MakeSelector(s)->options());
}
}  // namespace

std::string CompareLoaded(rv::Table& table,
                          const std::vector<std::shared_ptr<rv::TableItem>>& in,
                          const rv::TableInfo& info, const TableLog& log,
                          const MState& m, const ChunkData& chunks) {
  const TableSpec& s = log.spec;
  auto num = [](const char* what, double got, double want) -> std::string {
    if (got == want) return "";
    return StrCat(what, " is ", got, " instead of ", want);
  };
  for (const std::string& d :
       {num("the size", info.current_size(), m.items.size()),
        num("max_size", info.max_size(), s.max_size),
        num("max_times_sampled", info.max_times_sampled(), s.max_times),
        num("the number of episodes", info.num_episodes(), m.episodes.size()),
        num("the number of deleted episodes", info.num_deleted_episodes(),
            m.deleted_episodes),
        num("the number of unique samples", info.num_unique_samples(),
            m.unique)})
    if (!d.empty()) return d;
  if (Options(info.sampler_options()) != Options(s.sampler))
    return StrCat("the sampler is ", Options(info.sampler_options()));
  if (Options(info.remover_options()) != Options(s.remover))
    return StrCat("the remover is ", Options(info.remover_options()));
  if ((info.has_signature() ? Bytes(info.signature()) : "") !=
      log.signature)
    return "the signature differs";
  auto limiter = table.Checkpoint().checkpoint.rate_limiter();
  for (const std::string& d :
       {num("the limiter's insert count", limiter.insert_count(), m.inserts),
        num("the limiter's sample count", limiter.sample_count(), m.samples),
        num("the limiter's delete count", limiter.delete_count(), m.deletes),
        num("samples_per_insert",
            info.rate_limiter_info().samples_per_insert(), s.limiter.spi),
        num("min_size_to_sample",
            info.rate_limiter_info().min_size_to_sample(), s.limiter.min_size),
        num("min_diff", info.rate_limiter_info().min_diff(),
            s.limiter.min_diff),
        num("max_diff", info.rate_limiter_info().max_diff(),
            s.limiter.max_diff)})
    if (!d.empty()) return d;
  // Insertion order.
  std::vector<const MItem*> order;
  for (auto& [k, x] : m.items) order.push_back(&x);
  std::sort(order.begin(), order.end(), [](const MItem* a, const MItem* b) {
    return a->insert_seq < b->insert_seq;
  });
  if (in.size() != order.size())
    return StrCat(in.size(), " items are loaded instead of ", order.size());
  for (size_t i = 0; i < in.size(); i++) {
    const rv::PrioritizedItem& p = in[i]->item;
    auto it = m.items.find(p.key());
    if (it == m.items.end()) return StrCat("item ", p.key(), " is unknown");
    const MItem& x = it->second;
    if (order[i]->key != p.key())
      return StrCat("item number ", i, " by insertion is ", p.key(),
                    " instead of ", order[i]->key);
    if (p.priority() != x.priority)
      return StrCat("item ", p.key(), " has priority ", p.priority(),
                    " instead of ", x.priority);
    if (p.times_sampled() != x.times)
      return StrCat("item ", p.key(), " was sampled ", p.times_sampled(),
                    " times instead of ", x.times);
    if (p.table() != x.proto.table() ||
        p.flat_trajectory().SerializeAsString() != x.trajectory)
      return StrCat("item ", p.key(), " refers to other data");
    if (p.inserted_at().SerializeAsString() !=
        x.proto.inserted_at().SerializeAsString())
      return StrCat("item ", p.key(), " has another time of insertion");
    if (in[i]->chunks.size() != x.episodes.size())
      return StrCat("item ", p.key(), " has ", in[i]->chunks.size(),
                    " chunks instead of ", x.episodes.size());
    for (auto& c : in[i]->chunks) {
      auto d = chunks.find(c->key());
      if (d == chunks.end() || c->data().SerializeAsString() != d->second)
        return StrCat("item ", p.key(), " has wrong data in chunk ", c->key());
    }
  }
  return "";
}

// The state that `save` may have stored and that was loaded. Empty: found.
std::string FindCut(SaveRec* save, const std::vector<LoadedTable>& loaded,
                    const ChunkData& chunks,
                    std::vector<const MState*>* found) {
  found->clear();
  for (size_t i = 0; i < loaded.size(); i++) {
    const LoadedTable& d = loaded[i];
    TableLog* log = save->tables[i];
    rv::TableInfo info = d.table->info();
    std::string first;
    const MState* hit = nullptr;
    for (size_t c = 0; c < log->cuts.size() && !hit; c++) {
      const uint64_t until =
          c + 1 < log->cuts.size() ? log->cuts[c + 1].from : UINT64_MAX;
      if (until < save->start) continue;
      if (save->end && log->cuts[c].from > save->end) break;
      std::string diff = CompareLoaded(*d.table, d.oracle->loaded, info, *log,
                                       *log->cuts[c].m, chunks);
      SIM_LOG(StrCat("save ", save->id, " table ", d.name, " cut ", c,
                     " step ", log->cuts[c].from, ": ", diff));
      if (diff.empty()) {
        hit = log->cuts[c].m.get();
      } else if (first.empty() || (save->end == save->start)) {
        first = diff;
      }
    }
    if (!hit)
      return StrCat("table ", d.name, ": ",
                    first.empty() ? "no state" : first);
    found->push_back(hit);
  }
  return "";
}

// The most recent save that was reported successful.
SaveRec* LastOk(const std::vector<std::unique_ptr<SaveRec>>& saves) {
  SaveRec* r = nullptr;
  for (auto& s : saves)
    if (s->ok && (!r || s->end > r->end)) r = s.get();
  return r;
}

// Checks what was loaded into the tables of `life` from the latest
// checkpoint and lets the models continue from it.
void Adopt(const std::vector<std::unique_ptr<SaveRec>>& saves,
           const ChunkData& chunks, const std::vector<LoadedTable>& loaded,
           const std::string& how) {
  NoPreempt np;
  SaveRec* must = LastOk(saves);
  std::vector<const MState*> found;
  std::string diff, older;
  bool any = false;
  for (size_t i = saves.size(); i-- > 0 && !any;) {
    SaveRec* s = saves[i].get();
    std::string d = FindCut(s, loaded, chunks, &found);
    const bool allowed =
        !must || s == must || s->end == 0 || s->end > must->start;
    if (d.empty()) {
      if (allowed) {
        any = true;
        if (s != must) Probe("loaded-unreported-checkpoint");
        break;
      }
      older = StrCat("save ", s->id);
    } else if (s == must || (!must && diff.empty())) {
      diff = d;
    }
  }
  if (!any) {
    std::string m = StrCat(how, ": what was loaded is not what save ",
                           must ? must->id : -1, " stored: ", diff,
                           older.empty() ? "" : StrCat("; it is from ", older));
    if (!older.empty())
      Violate("K02,K04", "older-checkpoint-loaded", m);
    else
      Violate("K01,K05,K03,K02", "wrong-checkpoint-content", m);
    EndRun();
  }
  // One object per chunk over all tables.
  std::map<uint64_t, const void*> seen;
  for (auto& d : loaded)
    for (auto& item : d.oracle->loaded)
      for (auto& c : item->chunks) {
        auto r = seen.emplace(c->key(), c.get());
        if (r.first->second != c.get())
          Violate("K01", "chunk-not-shared",
                  StrCat("chunk ", c->key(), " is loaded more than once"));
      }
  for (size_t i = 0; i < loaded.size(); i++) {
    MState m = *found[i];
    loaded[i].oracle->Restore(m);
    loaded[i].oracle->extra_props = "K01";
  }
  Probe("checkpoint-loaded");
}

}  // namespace harness

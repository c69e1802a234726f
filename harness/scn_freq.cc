// Selection frequencies of the random selectors.
#include <cmath>

#include "absl/strings/str_cat.h"
#include "harness/table_driver.h"

namespace harness {
using namespace reverbsim;
using absl::StrCat;

SCENARIO(table_frequency) {
  SetHangProps("T06,T04");
  RandomSchedule(false, false);
  Config().max_steps = 1000000;
  TableSpec spec;
  spec.sampler.kind = Flip(kCfg, 300) ? kUniform : kPrioritized;
  static const double e[] = {1.0, 0.5, 2.0, 0.0, 1.5};
  spec.sampler.exponent = e[Choose(kCfg, 5)];
  spec.max_size = 1 + Choose(kCfg, 40);
  TableOracle o(spec);
  auto table = o.MakeTable();
  Log(SpecString(spec));
  // A random history first.
  const int nops = Choose(kCfg, 120);
  const int keys = 1 + Choose(kCfg, 60);
  const bool wild = Flip(kCfg, 300);
  auto priority = [&]() -> double {
    if (Flip(kWork, 150)) return 0;
    double p = 1 + Choose(kWork, 20);
    if (wild && Flip(kWork, 200)) p *= 1000;
    if (wild && Flip(kWork, 200)) p /= 1000;
    return p;
  };
  auto chunk = MakeChunk(1, 1);
  for (int i = 0; i < nops + 1; i++) {
    Key k = 1 + Choose(kWork, keys);
    switch (i == nops ? 0 : Choose(kWork, 4)) {
      case 0:
      case 1:
        (void)table->InsertOrAssign(MakeItem("t", k, priority(), {chunk}),
                                    absl::InfiniteDuration());
        break;
      case 2: {
        rv::KeyWithPriority u;
        u.set_key(k);
        u.set_priority(priority());
        (void)table->MutateItems({u}, {});
        break;
      }
      case 3: (void)table->MutateItems({}, {k}); break;
    }
  }
  const MState m = o.state();
  if (m.items.empty()) return;
  std::map<Key, double> want;
  for (auto& [k, x] : m.items) {
    double p = 0;
    std::string why;
    want[k] = o.Selectable(spec.sampler, k, &p, &why) ? p : 0;
  }
  const int n = 6000;
  std::map<Key, int64_t> got;
  for (int done = 0; done < n;) {
    std::vector<rv::Table::SampledItem> items;
    int batch = std::min(n - done, 1 + static_cast<int>(Choose(kWork, 400)));
    absl::Status st =
        table->SampleFlexibleBatch(&items, batch, absl::InfiniteDuration());
    if (!st.ok() || items.empty()) {
      Violate("T06", "unexpected-status", StrCat("a sample ended with ",
                                                 st.ToString()));
      return;
    }
    for (auto& i : items) got[i.ref->item.key()]++;
    done += items.size();
  }
  for (auto& [k, p] : want) {
    const double mean = n * p, sd = std::sqrt(n * p * (1 - p));
    // 7 standard deviations, and a Poisson allowance for rare keys.
    if (std::fabs(got[k] - mean) > 7 * sd + 15)
      Violate("T06", "wrong-frequency",
              StrCat("key ", k, " with priority ", m.items.at(k).priority,
                     " was sampled ", got[k], " of ", n,
                     " times, its probability is ", p, "; ",
                     SpecString(spec)));
  }
  Probe(want.size() > 8 ? "frequency-large" : "frequency-small");
}
}  // namespace harness

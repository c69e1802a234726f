#ifndef ABSL_RANDOM_RANDOM_H_
#define ABSL_RANDOM_RANDOM_H_
#include <cstdint>
#include "absl/random/distributions.h"
#include "sim/sim.h"
namespace reverbsim {
class BitGen {
 public:
  using result_type = uint64_t;
  BitGen() : s_(LibrarySeed()) {}
  template <typename SeedSeq>
  explicit BitGen(SeedSeq&&) : s_(LibrarySeed()) {}
  BitGen(const BitGen&) = default;
  BitGen(BitGen&) = default;
  BitGen& operator=(const BitGen&) = default;
  static constexpr result_type(min)() { return 0; }
  static constexpr result_type(max)() { return ~uint64_t{0}; }
  result_type operator()() {
    uint64_t z = (s_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }

 private:
  uint64_t s_;
};
}  // namespace reverbsim
namespace absl {
using BitGen = ::reverbsim::BitGen;
using InsecureBitGen = ::reverbsim::BitGen;
}  // namespace absl
#endif

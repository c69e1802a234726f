// Helpers of the demonstrations.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/table.h"
#include "reverb/cc/tensor_compression.h"

namespace rv = deepmind::reverb;

#define FAIL(...)                 \
  do {                            \
    fprintf(stderr, __VA_ARGS__); \
    fprintf(stderr, "\n");        \
    fflush(stderr);               \
    _exit(1);                     \
  } while (0)
#define EXPECT(c, ...) \
  do {                 \
    if (!(c)) FAIL(__VA_ARGS__); \
  } while (0)

inline std::shared_ptr<rv::ChunkStore::Chunk> DemoChunk(uint64_t key,
                                                        uint64_t episode) {
  rv::ChunkData d;
  d.set_chunk_key(key);
  d.mutable_sequence_range()->set_episode_id(episode);
  d.mutable_sequence_range()->set_start(0);
  d.mutable_sequence_range()->set_end(0);
  static rv::ChunkStore* store = new rv::ChunkStore;
  return store->Insert(std::move(d));
}

inline rv::Table::Item DemoItem(uint64_t key, double priority,
                                const std::string& table = "dist",
                                uint64_t episode = 0) {
  rv::Table::Item item;
  item.item.set_key(key);
  item.item.set_table(table);
  item.item.set_priority(priority);
  item.chunks.push_back(DemoChunk(key * 100, episode ? episode : key * 100));
  auto* slice =
      item.item.mutable_flat_trajectory()->add_columns()->add_chunk_slices();
  slice->set_chunk_key(key * 100);
  slice->set_length(1);
  return item;
}

inline bool WaitUntil(const std::function<bool()>& f,
                      absl::Duration d = absl::Seconds(10)) {
  for (auto end = absl::Now() + d; absl::Now() < end;
       absl::SleepFor(absl::Milliseconds(5)))
    if (f()) return true;
  return f();
}
inline void Pause(int ms = 150) { absl::SleepFor(absl::Milliseconds(ms)); }
[[noreturn]] inline void Ok() {
  fflush(stdout);
  _exit(0);
}

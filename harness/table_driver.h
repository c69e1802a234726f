// Workload driver for one table used directly (blocking mode).
#ifndef VERIF_HARNESS_TABLE_DRIVER_H_
#define VERIF_HARNESS_TABLE_DRIVER_H_

#include "harness/oracle.h"

namespace harness {

// Statistics the limiter must report.
struct CallModel {
  int64_t completed_min = 0;   // calls that certainly went through the limiter
  int64_t completed_maybe = 0; // calls that possibly did
  int64_t limited = 0;         // exact mode: calls that waited
  int64_t wait_ns = 0;         // exact mode: total time waited
  std::multiset<std::pair<int64_t, int64_t>> waits;  // (start wall ns, waited)
};

struct TableDriver {
  TableSpec spec;
  std::unique_ptr<TableOracle> oracle;
  std::shared_ptr<rv::Table> table;
  bool exact = false;
  bool close_started = false, closed = false;
  CallModel ins, smp;
  Key next_chunk = 1000;
  // Where inserts get their chunks from, if set.
  std::function<std::vector<std::shared_ptr<rv::ChunkStore::Chunk>>(
      int stream, int n, int episode)> chunk_source;
  bool stop = false;   // clients end early
  std::vector<std::weak_ptr<rv::ChunkStore::Chunk>> all_chunks;

  void Insert(Key key, double priority, int episode, int nchunks,
              absl::Duration timeout);
  void Sample(int batch, absl::Duration timeout);
  void Mutate(std::vector<std::pair<Key, double>> updates,
              std::vector<Key> deletes);
  void Reset();
  void Close();
  void ReadSize();
  void ReadInfo();
  void ReadGet(Key key);
  void ReadCopy(size_t n);
  void ReadEpisodes();
  void ReadCan(int n, bool sample);
  void ReadCheckpoint();
  // At quiescence: blocked calls must be forbidden by the limiter and all
  // statistics must be exact.
  void CheckQuiescent();
  void CheckStats(const rv::TableInfo& info);
  void CheckHistory();
};

// Random operations on a table by client `id`.
struct OpMix {
  int insert = 8, sample = 7, mutate = 4, read = 3, reset = 1, sleep = 2;
};
void TableClientOps(TableDriver* d, int id, int nops, const OpMix& mix,
                    int keys);

// May be one that the table must refuse if `spec` is given.
double RandomPriority(int stream, const TableSpec* spec = nullptr);
absl::Duration RandomTimeout(int stream);
std::string DurStr(absl::Duration d);

// Observes the model during a read and accepts any state it passed through.
class ReadWatch {
 public:
  ReadWatch(TableOracle* o, std::function<std::string(const MState&)> digest);
  ~ReadWatch();
  // True if the value was the digest of some state during the call.
  bool Saw(const std::string& v) const;
  std::string Seen() const;

 private:
  TableOracle* o_;
  std::vector<std::string> seen_;
  TableOracle::Observer obs_;
};

}  // namespace harness
#endif

// What checkpoints may contain: every state that each table passed through,
// and the saves that were attempted.
#ifndef VERIF_HARNESS_CKPT_MODEL_H_
#define VERIF_HARNESS_CKPT_MODEL_H_

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "harness/oracle.h"
#include "sim/disk.h"

namespace harness {

struct TableLog {
  TableSpec spec;
  std::string signature;       // serialized, empty: none
  struct Cut {
    uint64_t from;             // step
    std::shared_ptr<MState> m;
  };
  std::vector<Cut> cuts;
  size_t before_op = 1;   // number of cuts before the current operation
  TableOracle* oracle = nullptr;
  TableOracle::Observer obs;
  void Attach(TableOracle* o);
  void Detach();
};

struct SaveRec {
  int id = 0;
  int keep = 1;
  uint64_t start = 0, end = 0;   // steps; end 0: never returned
  bool ok = false;
  bool overlapped = false;
  bool faulty = false;           // a fault was injected into it
  bool crashed = false;          // the process stopped meanwhile
  std::string dir;
  std::vector<TableLog*> tables;
};

// Data of all chunks ever created.
using ChunkData = std::map<uint64_t, std::string>;

// Compares a loaded table with a state. Empty if equal.
std::string CompareLoaded(rv::Table& table,
                          const std::vector<std::shared_ptr<rv::TableItem>>& in,
                          const rv::TableInfo& info, const TableLog& log,
                          const MState& m, const ChunkData& chunks);

// A table after a start of its process.
struct LoadedTable {
  std::string name;
  rv::Table* table;
  TableOracle* oracle;
};

// The state of each table that `save` may have stored and that was loaded.
// Empty: found.
std::string FindCut(SaveRec* save, const std::vector<LoadedTable>& loaded,
                    const ChunkData& chunks,
                    std::vector<const MState*>* found);
SaveRec* LastOk(const std::vector<std::unique_ptr<SaveRec>>& saves);
// Checks what was loaded from the latest checkpoint and lets the models
// continue from it.
void Adopt(const std::vector<std::unique_ptr<SaveRec>>& saves,
           const ChunkData& chunks, const std::vector<LoadedTable>& loaded,
           const std::string& how);

}  // namespace harness
#endif

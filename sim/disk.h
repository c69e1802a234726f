// Simulated disk: a TensorFlow file system "sim://" that keeps everything in
// memory. Operations take time and may fail; a crash of the process loses what
// the process had not handed to the operating system, a crash of the machine
// also what was not made durable.
#ifndef VERIF_SIM_DISK_H_
#define VERIF_SIM_DISK_H_

#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "sim/sim.h"

namespace reverbsim {

struct DiskConfig {
  int64_t latency_ns = 20000;
  int slow_permille = 0;
  int64_t slow_ns = 20000000;
  int fail_permille = 0;        // per operation that changes something
  int read_fail_permille = 0;   // per operation that only looks
  int64_t capacity = -1;        // bytes; -1: unlimited
  int64_t buffer = 4096;        // of a file being written, in the process
};

struct DiskInode {
  bool dir = false;
  std::string data;     // as the operating system has it
  std::string synced;   // surely on disk
};

class SimDisk {
 public:
  SimDisk();
  ~SimDisk();
  static SimDisk* Get();

  DiskConfig cfg;
  // Faults injected so far into operations of each fiber.
  std::map<int, int> write_faults, read_faults;
  // Called after a directory was created, by the creating fiber.
  std::function<void(const std::string&)> on_mkdir;

  // Process (or machine) stops now. The caller kills its fibers.
  void Crash(bool machine);

  // Access for the scenario: no delays, no faults.
  bool Exists(const std::string& path) const;
  std::vector<std::string> Children(const std::string& dir) const;
  void WriteDirectly(const std::string& path, const std::string& data);
  void MkdirDirectly(const std::string& path);
  std::string* Data(const std::string& path);
  std::string Dump(const std::string& root) const;  // for comparisons
  int64_t Used() const;

  // Used by the file system.
  struct MetaOp {
    bool add;
    std::string path;
    std::shared_ptr<DiskInode> node;
  };
  std::map<std::string, std::shared_ptr<DiskInode>> live, durable;
  std::deque<MetaOp> log;
  void Add(const std::string& path, std::shared_ptr<DiskInode> n);
  void Remove(const std::string& path);
  void Sync(DiskInode* n);
};

// Draws a configuration from kCfg.
DiskConfig RandomDisk(bool faults);
// Registers the file system; before the runs are forked.
void RegisterSimDisk();

}  // namespace reverbsim
#endif

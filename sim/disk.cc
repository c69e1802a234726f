#include "sim/disk.h"

#include <algorithm>

#include "tensorflow/core/platform/env.h"
#include "tensorflow/core/platform/errors.h"
#include "tensorflow/core/platform/file_system.h"
#include "tensorflow/core/platform/status.h"

namespace reverbsim {
namespace {
using tensorflow::Status;
SimDisk* g_disk = nullptr;

std::string Clean(std::string p) {
  while (!p.empty() && p.back() == '/') p.pop_back();
  return p;
}
std::string Parent(const std::string& p) {
  const size_t s = p.rfind('/');
  return s == std::string::npos ? "" : Clean(p.substr(0, s));
}
bool IsRoot(const std::string& p) {
  // "sim:", "sim://d"
  return p.size() <= 4 || (p.compare(0, 6, "sim://") == 0 &&
                           p.find('/', 6) == std::string::npos);
}
Status NotFound(const std::string& p) {
  return tensorflow::errors::NotFound(p, "; No such file or directory");
}
Status RandomError(const std::string& what) {
  switch (Choose(kDisk, 5)) {
    case 0: return tensorflow::errors::Unknown(what, ": Input/output error");
    case 1: return tensorflow::errors::Internal(what, ": Input/output error");
    case 2: return tensorflow::errors::Unavailable(what, ": stale handle");
    case 3: return tensorflow::errors::PermissionDenied(what, ": denied");
    default: return tensorflow::errors::DeadlineExceeded(what, ": timed out");
  }
}
Status Full() {
  return tensorflow::errors::ResourceExhausted("No space left on device");
}

// A point in time at which an operation happens. May fail.
Status Op(bool write, const char* what, const std::string& path) {
  SimDisk* d = g_disk;
  int64_t t = d->cfg.latency_ns;
  if (Flip(kDisk, d->cfg.slow_permille)) {
    Fault("disk-slow");
    t += d->cfg.slow_ns;
  }
  if (t > 0) {
    SleepNs(1 + t);
  } else {
    Point();
  }
  if (Flip(kDisk, write ? d->cfg.fail_permille : d->cfg.read_fail_permille)) {
    Fault(std::string("disk-") + what + "-error");
    (write ? d->write_faults : d->read_faults)[FiberId()]++;
    SIM_LOG(std::string("disk: ") + what + " of " + path + " fails");
    return RandomError(what);
  }
  SIM_LOG(std::string("disk: ") + what + " " + path);
  return tensorflow::OkStatus();
}

class SimWritable : public tensorflow::WritableFile {
 public:
  SimWritable(std::string path, std::shared_ptr<DiskInode> n)
      : path_(std::move(path)), n_(std::move(n)) {}
  ~SimWritable() override {
    if (!closed_) Close().IgnoreError();
  }
  Status Append(tensorflow::StringPiece data) override {
    buf_.append(data.data(), data.size());
    if (static_cast<int64_t>(buf_.size()) > g_disk->cfg.buffer) return Write();
    return tensorflow::OkStatus();
  }
  Status Close() override {
    if (closed_)
      return tensorflow::errors::FailedPrecondition("already closed");
    Status s = Write();
    closed_ = true;
    Status c = Op(true, "close", path_);
    if (!c.ok() && n_->data.size() > n_->synced.size()) {
      // What was written last does not get to the disk.
      n_->data.resize(n_->synced.size() +
                      Choose(kDisk, n_->data.size() - n_->synced.size()));
    }
    s.Update(c);
    return s;
  }
  Status Flush() override { return Write(); }
  Status Sync() override {
    Status s = Write();
    if (!s.ok()) return s;
    s = Op(true, "sync", path_);
    if (!s.ok()) return s;
    g_disk->Sync(n_.get());
    return s;
  }
  Status Tell(int64_t* pos) override {
    *pos = n_->data.size() + buf_.size();
    return tensorflow::OkStatus();
  }

 private:
  Status Write() {
    if (closed_) return tensorflow::errors::FailedPrecondition("closed");
    while (!buf_.empty()) {
      // In pieces, between which others run and crashes happen.
      size_t n = buf_.size();
      if (n > 1 && Flip(kDisk, 300)) n = 1 + Choose(kDisk, n - 1);
      Status s = Op(true, "write", path_);
      if (!s.ok()) {
        // A part may have been written.
        n_->data.append(buf_, 0, Choose(kDisk, n));
        buf_.clear();
        return s;
      }
      if (g_disk->cfg.capacity >= 0 &&
          g_disk->Used() + static_cast<int64_t>(n) > g_disk->cfg.capacity) {
        Fault("disk-full");
        g_disk->write_faults[FiberId()]++;
        const int64_t room =
            std::max<int64_t>(0, g_disk->cfg.capacity - g_disk->Used());
        n_->data.append(buf_, 0, room);
        buf_.clear();
        return Full();
      }
      n_->data.append(buf_, 0, n);
      buf_.erase(0, n);
    }
    return tensorflow::OkStatus();
  }
  std::string path_;
  std::shared_ptr<DiskInode> n_;
  std::string buf_;
  bool closed_ = false;
};

class SimReadable : public tensorflow::RandomAccessFile {
 public:
  SimReadable(std::string path, std::shared_ptr<DiskInode> n)
      : path_(std::move(path)), n_(std::move(n)) {}
  Status Read(uint64_t offset, size_t n, tensorflow::StringPiece* result,
              char* scratch) const override {
    *result = tensorflow::StringPiece(scratch, 0);
    Status s = Op(false, "read", path_);
    if (!s.ok()) return s;
    const std::string& d = n_->data;
    size_t k = offset >= d.size() ? 0 : std::min(n, d.size() - offset);
    if (k) memcpy(scratch, d.data() + offset, k);
    *result = tensorflow::StringPiece(scratch, k);
    if (k < n)
      return tensorflow::errors::OutOfRange("Read less bytes than requested");
    return tensorflow::OkStatus();
  }

 private:
  std::string path_;
  std::shared_ptr<DiskInode> n_;
};

class SimFileSystem : public tensorflow::FileSystem {
 public:
  TF_USE_FILESYSTEM_METHODS_WITH_NO_TRANSACTION_SUPPORT;
  using Token = tensorflow::TransactionToken;

  Status NewRandomAccessFile(
      const std::string& f, Token*,
      std::unique_ptr<tensorflow::RandomAccessFile>* r) override {
    Status s = Op(false, "open", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    if (!n) return NotFound(f);
    *r = std::make_unique<SimReadable>(f, n);
    return tensorflow::OkStatus();
  }
  Status NewWritableFile(
      const std::string& f, Token*,
      std::unique_ptr<tensorflow::WritableFile>* r) override {
    Status s = Op(true, "create", f);
    if (!s.ok()) return s;
    const std::string p = Clean(f);
    auto parent = Find(Parent(p));
    if (!IsRoot(Parent(p)) && (!parent || !parent->dir)) return NotFound(f);
    if (auto old = Find(p)) {
      if (old->dir) return tensorflow::errors::FailedPrecondition("is a dir");
      g_disk->Remove(p);
    }
    auto n = std::make_shared<DiskInode>();
    g_disk->Add(p, n);
    *r = std::make_unique<SimWritable>(p, n);
    return tensorflow::OkStatus();
  }
  Status NewAppendableFile(
      const std::string& f, Token*,
      std::unique_ptr<tensorflow::WritableFile>* r) override {
    Status s = Op(true, "append", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    if (!n) {
      n = std::make_shared<DiskInode>();
      g_disk->Add(Clean(f), n);
    }
    *r = std::make_unique<SimWritable>(Clean(f), n);
    return tensorflow::OkStatus();
  }
  Status NewReadOnlyMemoryRegionFromFile(
      const std::string&, Token*,
      std::unique_ptr<tensorflow::ReadOnlyMemoryRegion>*) override {
    return tensorflow::errors::Unimplemented("no memory regions");
  }
  Status FileExists(const std::string& f, Token*) override {
    Status s = Op(false, "stat", f);
    if (!s.ok()) return s;
    if (IsRoot(Clean(f)) || Find(f)) return tensorflow::OkStatus();
    return NotFound(f);
  }
  Status GetChildren(const std::string& d, Token*,
                     std::vector<std::string>* r) override {
    r->clear();
    Status s = Op(false, "list", d);
    if (!s.ok()) return s;
    auto n = Find(d);
    if (!IsRoot(Clean(d)) && (!n || !n->dir)) return NotFound(d);
    *r = g_disk->Children(Clean(d));
    Shuffle(r);
    return tensorflow::OkStatus();
  }
  Status GetMatchingPaths(const std::string& pattern, Token*,
                          std::vector<std::string>* r) override {
    r->clear();
    Status s = Op(false, "list", pattern);
    if (!s.ok()) return s;
    const std::string dir = Parent(pattern);
    const std::string base = pattern.substr(pattern.rfind('/') + 1);
    for (auto& c : g_disk->Children(dir))
      if (Match(c, base)) r->push_back(dir + "/" + c);
    Shuffle(r);
    return tensorflow::OkStatus();
  }
  Status Stat(const std::string& f, Token*,
              tensorflow::FileStatistics* st) override {
    Status s = Op(false, "stat", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    st->is_directory = IsRoot(Clean(f)) || (n && n->dir);
    if (!n && !IsRoot(Clean(f))) return NotFound(f);
    st->length = n && !n->dir ? n->data.size() : 0;
    st->mtime_nsec = 0;
    return tensorflow::OkStatus();
  }
  Status DeleteFile(const std::string& f, Token*) override {
    Status s = Op(true, "delete", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    if (!n || n->dir) return NotFound(f);
    g_disk->Remove(Clean(f));
    return tensorflow::OkStatus();
  }
  Status CreateDir(const std::string& f, Token*) override {
    Status s = Op(true, "mkdir", f);
    if (!s.ok()) return s;
    const std::string p = Clean(f);
    if (Find(p) || IsRoot(p)) return tensorflow::errors::AlreadyExists(f);
    auto parent = Find(Parent(p));
    if (!IsRoot(Parent(p)) && (!parent || !parent->dir)) return NotFound(f);
    auto n = std::make_shared<DiskInode>();
    n->dir = true;
    g_disk->Add(p, n);
    if (g_disk->on_mkdir) g_disk->on_mkdir(p);
    return tensorflow::OkStatus();
  }
  Status DeleteDir(const std::string& f, Token*) override {
    Status s = Op(true, "rmdir", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    if (!n || !n->dir) return NotFound(f);
    if (!g_disk->Children(Clean(f)).empty())
      return tensorflow::errors::FailedPrecondition("directory not empty");
    g_disk->Remove(Clean(f));
    return tensorflow::OkStatus();
  }
  Status GetFileSize(const std::string& f, Token*, uint64_t* size) override {
    Status s = Op(false, "stat", f);
    if (!s.ok()) return s;
    auto n = Find(f);
    if (!n) return NotFound(f);
    *size = n->data.size();
    return tensorflow::OkStatus();
  }
  Status RenameFile(const std::string& a, const std::string& b,
                    Token*) override {
    Status s = Op(true, "rename", a);
    if (!s.ok()) return s;
    const std::string from = Clean(a), to = Clean(b);
    if (!Find(from)) return NotFound(a);
    std::vector<std::string> paths;
    for (auto& [p, n] : g_disk->live)
      if (p == from || p.compare(0, from.size() + 1, from + "/") == 0)
        paths.push_back(p);
    if (auto old = Find(to)) {
      if (old->dir && !g_disk->Children(to).empty())
        return tensorflow::errors::FailedPrecondition("not empty");
      g_disk->Remove(to);
    }
    for (auto& p : paths) {
      auto n = Find(p);
      g_disk->Remove(p);
      g_disk->Add(to + p.substr(from.size()), n);
    }
    return tensorflow::OkStatus();
  }
  Status HasAtomicMove(const std::string&, bool* has) override {
    *has = true;
    return tensorflow::OkStatus();
  }

 private:
  static std::shared_ptr<DiskInode> Find(const std::string& p) {
    auto it = g_disk->live.find(Clean(p));
    return it == g_disk->live.end() ? nullptr : it->second;
  }
  static void Shuffle(std::vector<std::string>* v) {
    for (size_t i = v->size(); i > 1; i--)
      std::swap((*v)[i - 1], (*v)[i - 1 - Choose(kDisk, i)]);
  }
};
}  // namespace

SimDisk::SimDisk() { g_disk = this; }
SimDisk::~SimDisk() { g_disk = nullptr; }
SimDisk* SimDisk::Get() { return g_disk; }

void SimDisk::Add(const std::string& path, std::shared_ptr<DiskInode> n) {
  live[path] = n;
  log.push_back({true, path, n});
}
void SimDisk::Remove(const std::string& path) {
  auto it = live.find(path);
  if (it == live.end()) return;
  log.push_back({false, path, it->second});
  live.erase(it);
}

namespace {
void Apply(std::map<std::string, std::shared_ptr<DiskInode>>* m,
           std::deque<SimDisk::MetaOp>* log, size_t n) {
  for (size_t i = 0; i < n; i++) {
    auto& op = log->front();
    if (op.add) {
      (*m)[op.path] = op.node;
    } else {
      m->erase(op.path);
    }
    log->pop_front();
  }
}
}  // namespace

void SimDisk::Sync(DiskInode* n) {
  n->synced = n->data;
  // A journal: what happened before is durable, too.
  Apply(&durable, &log, log.size());
}

void SimDisk::Crash(bool machine) {
  Fault(machine ? "machine-crash" : "process-crash");
  if (!machine) return;
  Apply(&durable, &log, log.size() - Choose(kDisk, log.size() + 1));
  log.clear();
  live.clear();
  for (auto& [p, n] : durable) {
    auto c = std::make_shared<DiskInode>();
    c->dir = n->dir;
    c->data = n->data;
    const size_t lo = n->synced.size(), hi = n->data.size();
    if (lo < hi) {
      switch (Choose(kDisk, 4)) {
        case 0: break;
        case 1: c->data.resize(lo); break;
        case 2: c->data.resize(lo + Choose(kDisk, hi - lo)); break;
        default: {
          const size_t a = lo + Choose(kDisk, hi - lo);
          for (size_t i = a; i < hi; i++) c->data[i] = 0;
        }
      }
      if (c->data != n->data) Fault("unsynced-data-lost");
    }
    c->synced = c->data;
    live[p] = c;
  }
  durable = live;
}

bool SimDisk::Exists(const std::string& path) const {
  return live.count(Clean(path)) > 0;
}
std::vector<std::string> SimDisk::Children(const std::string& dir) const {
  std::vector<std::string> r;
  const std::string pre = Clean(dir) + "/";
  for (auto it = live.lower_bound(pre); it != live.end(); ++it) {
    if (it->first.compare(0, pre.size(), pre) != 0) break;
    const std::string rest = it->first.substr(pre.size());
    if (rest.find('/') == std::string::npos) r.push_back(rest);
  }
  return r;
}
void SimDisk::MkdirDirectly(const std::string& path) {
  std::vector<std::string> todo;
  std::string p = Clean(path);
  while (!IsRoot(p) && !live.count(p)) {
    todo.push_back(p);
    p = Parent(p);
  }
  for (size_t i = todo.size(); i-- > 0;) {
    auto n = std::make_shared<DiskInode>();
    n->dir = true;
    Add(todo[i], n);
  }
  Apply(&durable, &log, log.size());
}
void SimDisk::WriteDirectly(const std::string& path, const std::string& data) {
  MkdirDirectly(Parent(path));
  auto n = std::make_shared<DiskInode>();
  n->data = data;
  Add(Clean(path), n);
  Sync(n.get());
}
std::string* SimDisk::Data(const std::string& path) {
  auto it = live.find(Clean(path));
  return it == live.end() || it->second->dir ? nullptr : &it->second->data;
}
std::string SimDisk::Dump(const std::string& root) const {
  std::string r;
  const std::string pre = Clean(root);
  for (auto& [p, n] : live)
    if (p.compare(0, pre.size(), pre) == 0)
      r += p + (n->dir ? "/" : "=" + n->data) + "\n";
  return r;
}
int64_t SimDisk::Used() const {
  int64_t n = 0;
  for (auto& [p, i] : live) n += 16 + i->data.size();
  return n;
}

DiskConfig RandomDisk(bool faults) {
  DiskConfig c;
  static const int64_t lat[] = {20000, 0, 2000, 500000};
  c.latency_ns = lat[Choose(kCfg, 4)];
  static const int64_t buf[] = {4096, 0, 100, 1 << 20};
  c.buffer = buf[Choose(kCfg, 4)];
  c.slow_permille = Flip(kCfg, 300) ? 100 : 0;
  if (faults) {
    static const int p[] = {0, 10, 30, 100};
    c.fail_permille = p[Choose(kCfg, 4)];
    c.read_fail_permille = p[Choose(kCfg, 4)];
    static const int64_t cap[] = {-1, 500, 2000, 8000, 30000};
    c.capacity = cap[Weighted(kCfg, {6, 1, 1, 1, 1})];
  }
  return c;
}

void RegisterSimDisk() {
  auto s = tensorflow::Env::Default()->RegisterFileSystem(
      "sim", [] { return new SimFileSystem; });
  if (!s.ok()) abort();
}

}  // namespace reverbsim

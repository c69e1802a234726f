// Batch runner: forks one process per simulated run, searches over seeds,
// confirms, minimises and writes replay files.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "sim/sim_internal.h"

namespace reverbsim {
void WarmUp();
}
using namespace reverbsim;

namespace {
double NowSec() {
  struct timespec ts;
  syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}

SharedResult* NewShared() {
  void* p = mmap(nullptr, sizeof(SharedResult), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<SharedResult*>(p);
}

// Runs one simulation in a forked child.
void RunOne(const RunSpec& spec, SharedResult* out) {
  out->status = kNotRun;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    ExecuteRun(spec, out);
  }
  int st = 0;
  // The child ends itself (ITIMER_VIRTUAL, alarm) if it does not terminate.
  while (waitpid(pid, &st, 0) != pid) {
  }
  if (out->status == kRunning || out->status == kNotRun) {
    // The child died without a report (e.g. killed by the memory guard).
    out->status = kSimError;
    snprintf(out->msg, sizeof(out->msg), "child died: status %d", st);
    strcpy(out->cls, "child-died");
  }
}

bool Contains(const std::string& props, const std::string& p) {
  std::stringstream ss(props);
  std::string s;
  while (std::getline(ss, s, ','))
    if (s == p) return true;
  return props == "*";
}

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

std::vector<ChoiceRec> Choices(const SharedResult* r) {
  return std::vector<ChoiceRec>(r->choices, r->choices + r->n_choices);
}

struct ScenarioSpec {
  std::string name;
  int weight;
};

struct Options {
  std::string property;
  std::vector<ScenarioSpec> scenarios;
  uint64_t seed = 1;
  double time_limit = 30;
  uint64_t max_runs = 1000000000ull;
  int jobs = 8;
  std::string out;
  std::string replay_dir = ".";
  std::string replay;
  std::set<std::string> known;
  double minimise_time = 40;
  bool dump_hashes = false;
  bool selfcheck = false;  // replay every run and compare
  bool verbose = false;
  int64_t only_seed = -1;
};

// One worker's statistics, written to a file at its end.
struct Stats {
  uint64_t runs = 0, steps = 0, switches = 0, sim_errors = 0, foreign = 0;
  double sim_s = 0;
  uint64_t max_fibers = 0;
  std::map<std::string, uint64_t> counters, per_scenario, known, foreign_cls,
      runs_with;
  std::vector<uint64_t> inter;
};

uint64_t SeedOf(const Options& o, uint64_t i) { return o.seed * 1000000007ull + i; }

int ScenarioOf(const Options& o, uint64_t i) {
  int total = 0;
  for (auto& s : o.scenarios) total += s.weight;
  // Spread with a hash so that all scenarios appear from the start.
  uint64_t z = i * 0x9E3779B97F4A7C15ull;
  z ^= z >> 31;
  z *= 0xBF58476D1CE4E5B9ull;
  z ^= z >> 29;
  int x = z % total;
  for (size_t k = 0; k < o.scenarios.size(); k++) {
    if (x < o.scenarios[k].weight) return k;
    x -= o.scenarios[k].weight;
  }
  return 0;
}

struct Control {
  volatile int stop;
  volatile uint64_t violation_index;  // lowest index with a violation
  volatile int lock;
};

void Worker(const Options& o, int w, Control* ctl, int fd, double deadline) {
  SharedResult* r = NewShared();
  Stats st;
  std::string violations;
  for (uint64_t k = 0;; k++) {
    uint64_t i = k * o.jobs + w;
    if (i >= o.max_runs || NowSec() > deadline || ctl->stop) break;
    int si = ScenarioOf(o, i);
    RunSpec spec;
    spec.fn = Scenarios().at(o.scenarios[si].name);
    spec.property = o.property;
    spec.seed = SeedOf(o, i);
    spec.known = o.known;
    RunOne(spec, r);
    st.runs++;
    st.per_scenario[o.scenarios[si].name]++;
    st.steps += r->steps;
    st.switches += r->switches;
    st.sim_s += r->sim_ns / 1e9;
    st.max_fibers = std::max<uint64_t>(st.max_fibers, r->fibers);
    if (r->switches >= 4) st.inter.push_back(r->interleaving);
    for (int c = 0; c < r->n_counters; c++) {
      st.counters[r->counters[c].name] += r->counters[c].value;
      st.runs_with[r->counters[c].name]++;
    }
    if (r->foreign) {
      st.foreign++;
      st.foreign_cls[std::string(r->foreign_props) + " " + std::string(r->foreign_cls).substr(0, std::string(r->foreign_cls).find(':'))]++;
    }
    if (o.dump_hashes) {
      char b[128];
      snprintf(b, sizeof(b), "hash %llu %016llx %d\n",
               (unsigned long long)spec.seed, (unsigned long long)r->hash,
               r->status);
      (void)!write(1, b, strlen(b));
    }
    if (o.selfcheck) {
      const uint64_t h = r->hash;
      const int status = r->status;
      RunSpec rep = spec;
      rep.replay = true;
      rep.choices = Choices(r);
      rep.verbose = true;
      RunOne(rep, r);
      st.counters["selfcheck:replayed"]++;
      if (h != r->hash || status != r->status) {
        st.counters["selfcheck:differs"]++;
        char b[128];
        snprintf(b, sizeof(b), "differs %s %llu\n",
                 o.scenarios[si].name.c_str(), (unsigned long long)spec.seed);
        (void)!write(1, b, strlen(b));
      }
      continue;
    }
    if (r->status == kSimError) {
      st.sim_errors++;
      violations += "E " + std::to_string(i) + " " + o.scenarios[si].name +
                    " " + r->cls + " " + r->msg + "\n";
      continue;
    }
    if (r->status == kViolation) {
      std::string cls = r->cls;
      if (!Contains(r->props, o.property)) {
        st.foreign++;
        st.foreign_cls[std::string(r->props) + " " + cls]++;
        continue;
      }
      if (o.known.count(o.property + ":" + cls)) {
        st.known[cls]++;
        continue;
      }
      // Only what can be repeated ends the search.
      RunOne(spec, r);
      if (r->status != kViolation || cls != r->cls) {
        st.counters["unrepeatable-violation"]++;
        continue;
      }
      violations += "V " + std::to_string(i) + " " + o.scenarios[si].name +
                    " " + cls + "\n";
      ctl->stop = 1;
      break;
    }
  }
  std::ostringstream s;
  s << "runs " << st.runs << "\nsteps " << st.steps << "\nswitches "
    << st.switches << "\nsimerr " << st.sim_errors << "\nforeign "
    << st.foreign << "\nsim_s " << st.sim_s << "\nfibers " << st.max_fibers
    << "\n";
  for (auto& [k, v] : st.counters) s << "c " << v << " " << k << "\n";
  for (auto& [k, v] : st.runs_with) s << "w " << v << " " << k << "\n";
  for (auto& [k, v] : st.per_scenario) s << "s " << v << " " << k << "\n";
  for (auto& [k, v] : st.known) s << "k " << v << " " << k << "\n";
  for (auto& [k, v] : st.foreign_cls) s << "f " << v << " " << k << "\n";
  for (uint64_t h : st.inter) s << "i " << h << "\n";
  s << violations;
  std::string d = s.str();
  size_t off = 0;
  while (off < d.size()) {
    ssize_t n = write(fd, d.data() + off, d.size() - off);
    if (n <= 0) break;
    off += n;
  }
  _exit(0);
}

// ddmin over the non-benign choices.
std::vector<ChoiceRec> Minimise(const RunSpec& base,
                                std::vector<ChoiceRec> cur,
                                const std::string& cls, double deadline,
                                int jobs, int* trials) {
  std::vector<SharedResult*> rs;
  for (int i = 0; i < jobs; i++) rs.push_back(NewShared());
  // Tries candidates in parallel; returns index of the first success or -1.
  auto try_all = [&](const std::vector<std::vector<ChoiceRec>>& cands) {
    std::vector<pid_t> pids(cands.size());
    for (size_t i = 0; i < cands.size(); i++) {
      rs[i]->status = kNotRun;
      pids[i] = fork();
      if (pids[i] == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        RunSpec s = base;
        s.replay = true;
        s.choices = cands[i];
        ExecuteRun(s, rs[i]);
      }
    }
    int best = -1;
    for (size_t i = 0; i < cands.size(); i++) {
      int st;
      waitpid(pids[i], &st, 0);
      (*trials)++;
      if (best < 0 && rs[i]->status == kViolation && cls == rs[i]->cls &&
          Contains(rs[i]->props, base.property))
        best = i;
    }
    return best;
  };
  size_t gran = 2;
  while (cur.size() >= 1 && NowSec() < deadline) {
    size_t chunk = (cur.size() + gran - 1) / gran;
    bool reduced = false;
    std::vector<std::pair<size_t, size_t>> parts;
    for (size_t a = 0; a < cur.size(); a += chunk)
      parts.push_back({a, std::min(cur.size(), a + chunk)});
    for (size_t p = 0; p < parts.size() && NowSec() < deadline; p += jobs) {
      std::vector<std::vector<ChoiceRec>> cands;
      for (size_t q = p; q < parts.size() && q < p + jobs; q++) {
        std::vector<ChoiceRec> c(cur.begin(), cur.begin() + parts[q].first);
        c.insert(c.end(), cur.begin() + parts[q].second, cur.end());
        cands.push_back(std::move(c));
      }
      int b = try_all(cands);
      if (b >= 0) {
        // Keep only the choices the run actually consumed.
        std::vector<ChoiceRec> used = Choices(rs[b]);
        cur = used.size() <= cands[b].size() ? used : cands[b];
        gran = std::max<size_t>(gran - 1, 2);
        reduced = true;
        break;
      }
    }
    if (!reduced) {
      if (chunk <= 1) break;
      gran = std::min(cur.size(), gran * 2);
    }
  }
  return cur;
}

void WriteReplay(const std::string& path, const Options& o,
                 const std::string& scenario, uint64_t seed,
                 const SharedResult* r, const std::vector<ChoiceRec>& cs,
                 size_t original, int trials, bool by_seed) {
  std::ofstream f(path);
  f << "{\n \"property\": " << JsonStr(o.property)
    << ",\n \"scenario\": " << JsonStr(scenario) << ",\n \"seed\": " << seed
    << ",\n \"class\": " << JsonStr(r->cls)
    << ",\n \"violates\": " << JsonStr(r->props)
    << ",\n \"message\": " << JsonStr(r->msg) << ",\n \"hash\": \"" << r->hash
    << "\",\n \"decisions_before_minimisation\": " << original
    << ",\n \"decisions\": " << cs.size()
    << ",\n \"minimisation_runs\": " << trials
    << ",\n \"by_seed\": " << (by_seed ? "true" : "false")
    << ",\n \"streams\": \"0 schedule, 1 memory preemption, 2 network, 3 disk, "
       "4 time, 5 configuration, 6.. workload\",\n \"choices\": [";
  for (size_t i = 0; i < cs.size(); i++)
    f << (i ? "," : "") << "[" << cs[i].stream << "," << cs[i].index << ","
      << cs[i].value << "]";
  f << "],\n \"trace\": [\n";
  std::stringstream ss(std::string(r->log, r->log_len));
  std::string line;
  bool first = true;
  while (std::getline(ss, line)) {
    f << (first ? "  " : ",\n  ") << JsonStr(line);
    first = false;
  }
  f << "\n ]\n}\n";
}

bool LoadReplay(const std::string& path, std::string* property,
                std::string* scenario, uint64_t* seed,
                std::vector<ChoiceRec>* cs, std::string* cls,
                std::string* hash, bool* by_seed) {
  std::ifstream f(path);
  if (!f) return false;
  std::string s((std::istreambuf_iterator<char>(f)),
                std::istreambuf_iterator<char>());
  auto str = [&](const std::string& key) {
    size_t p = s.find("\"" + key + "\": \"");
    if (p == std::string::npos) return std::string();
    p += key.size() + 5;
    return s.substr(p, s.find('"', p) - p);
  };
  *property = str("property");
  *by_seed = s.find("\"by_seed\": true") != std::string::npos;
  *scenario = str("scenario");
  *cls = str("class");
  *hash = str("hash");
  size_t p = s.find("\"seed\": ");
  if (p == std::string::npos) return false;
  *seed = strtoull(s.c_str() + p + 8, nullptr, 10);
  p = s.find("\"choices\": [");
  if (p == std::string::npos) return false;
  const char* c = s.c_str() + p + 12;
  while (*c && *c != ']') {
    if (*c == '[') {
      ChoiceRec r;
      char* e;
      r.stream = strtoul(c + 1, &e, 10);
      r.index = strtoul(e + 1, &e, 10);
      r.value = strtoull(e + 1, &e, 10);
      cs->push_back(r);
      c = e + 1;
    } else {
      c++;
    }
  }
  return true;
}

}  // namespace

int main(int argc, char** argv) {
  // The same environment and address layout every time.
  if (!getenv("SIM_EXECED")) {
    int p = personality(0xffffffff);
    if (p != -1) personality(p | ADDR_NO_RANDOMIZE);
    static char* env[] = {(char*)"SIM_EXECED=1", (char*)"TF_CPP_MIN_LOG_LEVEL=3",
                          (char*)"TF_ENABLE_ONEDNN_OPTS=0",
                          (char*)"PATH=/usr/bin:/bin", (char*)"LC_ALL=C", nullptr};
    execve("/proc/self/exe", argv, env);
  }
  // Fibers stand for threads: shared_ptr must use its atomic operations.
  __libc_single_threaded = 0;
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") o.property = val();
    else if (a == "--scenarios") {
      std::stringstream ss(val());
      std::string s;
      while (std::getline(ss, s, ',')) {
        size_t c = s.find(':');
        ScenarioSpec sp{s.substr(0, c), 1};
        if (c != std::string::npos) sp.weight = atoi(s.c_str() + c + 1);
        o.scenarios.push_back(sp);
      }
    } else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--time") o.time_limit = atof(val().c_str());
    else if (a == "--runs") o.max_runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--known") o.known.insert(val());
    else if (a == "--minimise-time") o.minimise_time = atof(val().c_str());
    else if (a == "--hashes") o.dump_hashes = true;
    else if (a == "--selfcheck") o.selfcheck = true;
    else if (a == "--verbose") o.verbose = true;
    else if (a == "--only") o.only_seed = atoll(val().c_str());
    else if (a == "--list") {
      for (auto& [n, f] : Scenarios()) printf("%s\n", n.c_str());
      return 0;
    } else {
      fprintf(stderr, "unknown flag %s\n", a.c_str());
      return 3;
    }
  }
  WarmUp();
  SharedResult* r = NewShared();

  if (!o.replay.empty()) {
    RunSpec spec;
    std::string scenario, cls, hash;
    bool by_seed = false;
    if (!LoadReplay(o.replay, &spec.property, &scenario, &spec.seed,
                    &spec.choices, &cls, &hash, &by_seed)) {
      fprintf(stderr, "cannot read %s\n", o.replay.c_str());
      return 3;
    }
    auto it = Scenarios().find(scenario);
    if (it == Scenarios().end()) return 3;
    spec.fn = it->second;
    spec.replay = !by_seed;
    spec.verbose = true;
    RunOne(spec, r);
    if (o.verbose) fwrite(r->log, 1, r->log_len, stdout);
    printf("replay: status=%d class=%s props=%s hash=%llu steps=%llu\n%s\n",
           r->status, r->cls, r->props, (unsigned long long)r->hash,
           (unsigned long long)r->steps, r->msg);
    bool same = r->status == kViolation && cls == r->cls;
    bool exact = cls == "stuck" || hash == std::to_string(r->hash);
    printf("same violation: %s, identical execution: %s\n", same ? "yes" : "no",
           exact ? "yes" : "no");
    return same && exact ? 1 : 0;
  }

  if (o.scenarios.empty()) {
    fprintf(stderr, "no scenarios\n");
    return 3;
  }
  for (auto& s : o.scenarios)
    if (!Scenarios().count(s.name)) {
      fprintf(stderr, "no scenario %s\n", s.name.c_str());
      return 3;
    }

  if (o.only_seed >= 0) {
    RunSpec spec;
    spec.fn = Scenarios().at(o.scenarios[0].name);
    spec.property = o.property;
    spec.seed = o.only_seed;
    spec.verbose = true;
    RunOne(spec, r);
    fwrite(r->log, 1, r->log_len, stdout);
    printf("status=%d class=%s props=%s hash=%llu steps=%llu choices=%zu\n%s\n",
           r->status, r->cls, r->props, (unsigned long long)r->hash,
           (unsigned long long)r->steps, r->n_choices, r->msg);
    for (int c = 0; c < r->n_counters; c++)
      printf("  %s = %llu\n", r->counters[c].name,
             (unsigned long long)r->counters[c].value);
    if (o.selfcheck) {
      spec.choices = Choices(r);
      spec.replay = true;
      RunOne(spec, r);
      printf("==== replay\n");
      fwrite(r->log, 1, r->log_len, stdout);
      printf("status=%d class=%s props=%s hash=%llu steps=%llu choices=%zu\n"
             "%s\n", r->status, r->cls, r->props, (unsigned long long)r->hash,
             (unsigned long long)r->steps, r->n_choices, r->msg);
    }
    return 0;
  }

  const double t0 = NowSec();
  Control* ctl = static_cast<Control*>(mmap(nullptr, sizeof(Control),
                                            PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<int> fds;
  std::vector<pid_t> pids;
  for (int w = 0; w < o.jobs; w++) {
    char name[] = "/tmp/simrun_XXXXXX";
    int fd = mkstemp(name);
    unlink(name);
    fds.push_back(fd);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Worker(o, w, ctl, fd, t0 + o.time_limit);
    }
    pids.push_back(p);
  }
  for (pid_t p : pids) {
    int st;
    waitpid(p, &st, 0);
  }
  const double search_s = NowSec() - t0;
  Stats st;
  std::set<uint64_t> inter;
  std::vector<std::pair<uint64_t, std::string>> found;
  std::vector<std::string> errors;
  for (int fd : fds) {
    lseek(fd, 0, SEEK_SET);
    std::string d;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof(buf))) > 0) d.append(buf, n);
    close(fd);
    std::stringstream ss(d);
    std::string line;
    while (std::getline(ss, line)) {
      std::stringstream ls(line);
      std::string k;
      ls >> k;
      if (k == "runs") { uint64_t v; ls >> v; st.runs += v; }
      else if (k == "steps") { uint64_t v; ls >> v; st.steps += v; }
      else if (k == "switches") { uint64_t v; ls >> v; st.switches += v; }
      else if (k == "simerr") { uint64_t v; ls >> v; st.sim_errors += v; }
      else if (k == "foreign") { uint64_t v; ls >> v; st.foreign += v; }
      else if (k == "fibers") { uint64_t v; ls >> v; st.max_fibers = std::max(st.max_fibers, v); }
      else if (k == "sim_s") { double v; ls >> v; st.sim_s += v; }
      else if (k == "i") { uint64_t v; ls >> v; inter.insert(v); }
      else if (k == "c" || k == "w" || k == "s" || k == "k" || k == "f") {
        uint64_t v; ls >> v; std::string name; std::getline(ls, name);
        if (!name.empty()) name = name.substr(1);
        (k == "c" ? st.counters : k == "w" ? st.runs_with : k == "s" ? st.per_scenario
         : k == "k" ? st.known : st.foreign_cls)[name] += v;
      } else if (k == "V") {
        uint64_t i; std::string sc; ls >> i >> sc;
        found.push_back({i, sc});
      } else if (k == "E") {
        errors.push_back(line);
      }
    }
  }
  std::sort(found.begin(), found.end());
  std::string replay_path, vcls, vmsg;
  bool nondet = false;
  bool exact = true;
  for (size_t fi = 0; fi < found.size() && fi < 16 && replay_path.empty();
       fi++) {
    const uint64_t i = found[fi].first;
    const std::string sc = found[fi].second;
    RunSpec spec;
    spec.fn = Scenarios().at(sc);
    spec.property = o.property;
    spec.seed = SeedOf(o, i);
    spec.known = o.known;
    RunOne(spec, r);
    const uint64_t h1 = r->hash;
    const std::string cls = r->cls;
    std::vector<ChoiceRec> cs = Choices(r);
    const bool v1 = r->status == kViolation && Contains(r->props, o.property);
    // Same seed and explicit trace must give the same execution.
    RunSpec rep = spec;
    rep.replay = true;
    rep.choices = cs;
    RunOne(rep, r);
    const bool v2 = r->status == kViolation && cls == r->cls;
    exact = v1 && v2 && (cls == "stuck" || h1 == r->hash);
    if (!exact) {
      nondet = true;
      fprintf(stderr,
              "NONDETERMINISTIC: seed %llu scenario %s: %d/%s/%llu vs "
              "%d/%s/%llu truncated=%d\n",
              (unsigned long long)spec.seed, sc.c_str(), v1, cls.c_str(),
              (unsigned long long)h1, r->status, r->cls,
              (unsigned long long)r->hash, (int)r->choices_truncated);
    }
    // An execution that cannot be repeated is no evidence.
    if (!v1) continue;
    // The decisions alone may not repeat what broken code does with memory
    // that is not its own; the seed does.
    const bool by_seed = !v2;
    nondet = false;
    size_t original = cs.size();
    int trials = 0;
    std::vector<ChoiceRec> m = cs;
    if (by_seed) {
      rep = spec;
      rep.verbose = true;
      RunOne(rep, r);
      if (r->status != kViolation || cls != r->cls) {
        nondet = true;
        continue;
      }
    } else {
      double budget = cls == "stuck" || !exact ? 0 : o.minimise_time;
      m = Minimise(spec, cs, cls, NowSec() + budget, o.jobs, &trials);
      rep.choices = m;
      rep.verbose = true;
      RunOne(rep, r);
      if (r->status != kViolation || cls != r->cls) {
        rep.choices = m = cs;
        RunOne(rep, r);
      }
    }
    replay_path = o.replay_dir + "/" + o.property + "-" +
                  std::to_string(spec.seed) + ".json";
    WriteReplay(replay_path, o, sc, spec.seed, r, m, original, trials, by_seed);
    vcls = r->cls;
    vmsg = r->msg;
  }
  const double wall = NowSec() - t0;
  std::ostringstream js;
  js << "{\"runs\": " << st.runs << ", \"steps\": " << st.steps
     << ", \"switches\": " << st.switches << ", \"sim_seconds\": " << st.sim_s
     << ", \"search_wall_s\": " << search_s << ", \"wall_s\": " << wall
     << ", \"distinct_interleavings\": " << inter.size()
     << ", \"sim_errors\": " << st.sim_errors << ", \"foreign\": " << st.foreign
     << ", \"max_fibers\": " << st.max_fibers;
  auto emit = [&](const char* n, std::map<std::string, uint64_t>& m) {
    js << ", \"" << n << "\": {";
    bool first = true;
    for (auto& [k, v] : m) {
      js << (first ? "" : ", ") << JsonStr(k) << ": " << v;
      first = false;
    }
    js << "}";
  };
  emit("counters", st.counters);
  emit("runs_with", st.runs_with);
  emit("scenarios", st.per_scenario);
  emit("known", st.known);
  emit("foreign_classes", st.foreign_cls);
  // Written-out cases: one ordinary run per scenario.
  js << ", \"samples\": [";
  for (size_t k = 0; k < o.scenarios.size(); k++) {
    RunSpec spec;
    spec.fn = Scenarios().at(o.scenarios[k].name);
    spec.property = "";
    for (uint64_t i = 0;; i++)
      if (ScenarioOf(o, i) == (int)k) {
        spec.seed = SeedOf(o, i);
        break;
      }
    spec.verbose = true;
    RunOne(spec, r);
    js << (k ? ", " : "") << "{\"scenario\": " << JsonStr(o.scenarios[k].name)
       << ", \"seed\": " << spec.seed << ", \"hash\": \"" << r->hash
       << "\", \"steps\": " << r->steps << ", \"switches\": " << r->switches
       << ", \"sim_seconds\": " << r->sim_ns / 1e9
       << ", \"decisions\": " << r->n_choices << ", \"trace\": [";
    std::stringstream ss(std::string(r->log, r->log_len));
    std::string line;
    for (int n = 0; n < 12 && std::getline(ss, line); n++)
      js << (n ? ", " : "") << JsonStr(line.substr(0, 220));
    js << "]}";
  }
  js << "], \"errors\": [";
  for (size_t i = 0; i < errors.size() && i < 10; i++)
    js << (i ? ", " : "") << JsonStr(errors[i]);
  js << "], \"violation\": ";
  if (!replay_path.empty()) {
    js << "{\"replay\": " << JsonStr(replay_path)
       << ", \"class\": " << JsonStr(vcls) << ", \"message\": "
       << JsonStr(vmsg) << "}";
  } else {
    js << "null";
  }
  js << ", \"nondeterministic\": " << (nondet ? "true" : "false") << "}";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str() << "\n";
  } else {
    printf("%s\n", js.str().c_str());
  }
  if (nondet && replay_path.empty()) return 2;
  if (!replay_path.empty()) {
    fprintf(stderr, "violation %s: %s\nreplay %s\n", vcls.c_str(),
            vmsg.substr(0, 800).c_str(), replay_path.c_str());
    return 1;
  }
  return 0;
}

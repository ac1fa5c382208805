// Runner: explores seeds with several workers, minimises and records violations, replays them.
//
//   dst explore  <property> --seed S --runs N --seconds T --workers W --out FILE [--known SIG]...
//   dst replay   <property> <choices-file>        prints sig, hash, trace; exit 1 if violated
//   dst hashes   <property> --seed S --runs N --workers W    prints one hash per run
#include "harness.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace
{

using namespace sim;

constexpr uint32_t max_runs = 1U << 22;
constexpr int max_workers = 64;

struct RunRec {
  uint64_t hash;
  uint64_t state;
  uint8_t done;
  uint8_t nontrivial;
  uint8_t violated;
  uint8_t known;
};

struct WorkerRec {
  uint64_t fired[F_COUNT];
  uint64_t ops[OP_COUNT];
  uint64_t probes[32];
  int64_t covered;
  uint64_t procs;
};

struct Board {
  uint32_t next;
  uint32_t stop;
  WorkerRec w[max_workers];
  RunRec r[max_runs];
};

double
wall()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

uint64_t
runSeed(uint64_t seed, char const * prop, uint32_t i)
{
  uint64_t h = mix64(seed);
  for (char const * c = prop; *c != 0; ++c) {
    h = mix64(h ^ static_cast<uint8_t>(*c));
  }
  return mix64(h ^ (static_cast<uint64_t>(i) << 20));
}

Scenario const *
scenario(char const * id)
{
  for (auto const & s : scenarios()) {
    if (strcmp(s.id, id) == 0) {
      return &s;
    }
  }
  fprintf(stderr, "no scenario for %s\n", id);
  exit(2);
}

void
runScenario(Scenario const & sc)
{
  resetRun();
  sc.run();
  if (shm->outgrown != 0) {
    shm->violated = 0;
    shm->nontrivial = 0;
  }
}

void
runRandom(Scenario const & sc, uint64_t seed)
{
  shm->ch.startRandom(seed);
  runScenario(sc);
}

void
runGiven(Scenario const & sc, std::vector<uint32_t> const & v)
{
  shm->ch.startReplay(v.data(), static_cast<uint32_t>(v.size()));
  runScenario(sc);
}

std::string
jsonStr(std::string const & s)
{
  std::string o = "\"";
  for (char const ch : s) {
    auto const c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += ch;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

std::vector<uint32_t>
made()
{
  return {shm->ch.made, shm->ch.made + shm->ch.n};
}

struct Minimiser {
  Scenario const & sc;
  std::string sig;
  std::vector<uint32_t> best;
  double deadline;
  uint32_t tries = 0;

  bool
  attempt(std::vector<uint32_t> const & v)
  {
    if (wall() > deadline || tries > 4000) {
      return false;
    }
    ++tries;
    runGiven(sc, v);
    if (shm->violated != 0 && sig == shm->sig) {
      auto m = made();
      while (!m.empty() && m.back() == 0) {
        m.pop_back();
      }
      // Only ever move to something simpler.
      if (m.size() < best.size() || (m.size() == best.size() && m < best)) {
        best = m;
        return true;
      }
      size_t nz0 = 0;
      size_t nz1 = 0;
      for (auto x : best) {
        nz0 += x != 0;
      }
      for (auto x : m) {
        nz1 += x != 0;
      }
      if (nz1 < nz0 && m.size() <= best.size()) {
        best = m;
        return true;
      }
    }
    return false;
  }

  void
  run()
  {
    bool progress = true;
    while (progress && wall() < deadline && tries <= 4000) {
      progress = false;
      // drop the tail
      for (size_t len = best.size() / 2; len >= 1; len /= 2) {
        while (best.size() >= len) {
          auto v = best;
          v.resize(v.size() - len);
          if (!attempt(v)) {
            break;
          }
          progress = true;
        }
      }
      for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
        // delete blocks
        for (size_t i = 0; i + len <= best.size();) {
          auto v = best;
          v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(i + len));
          if (attempt(v)) {
            progress = true;
          } else {
            i += len;
          }
        }
        // zero blocks
        for (size_t i = 0; i < best.size(); i += len) {
          auto v = best;
          bool any = false;
          for (size_t k = i; k < std::min(i + len, v.size()); ++k) {
            any = any || v[k] != 0;
            v[k] = 0;
          }
          if (any && attempt(v)) {
            progress = true;
          }
        }
      }
      // smaller values
      for (size_t i = 0; i < best.size(); ++i) {
        while (i < best.size() && best[i] > 1) {
          auto v = best;
          v[i] /= 2;
          if (!attempt(v)) {
            v = best;
            v[i] -= 1;
            if (!attempt(v)) {
              break;
            }
          }
          progress = true;
        }
      }
    }
  }
};

std::string
traceJson()
{
  std::string o = "[";
  bool first = true;
  Shm const & s = *shm;
  for (uint32_t i = 0; i < s.nev; ++i) {
    auto const & e = s.ev[i];
    if (e.fault == F_NONE) {
      continue;
    }
    if (!first) {
      o += ",";
    }
    first = false;
    if (e.fault == F_SWITCH) {
      o += fmt("\n  {\"fault\": \"thread_switch\", \"at_access\": %u, \"to_thread\": %d}", e.index,
               static_cast<int>(e.result));
      continue;
    }
    std::string const path = e.op == OP_OUT ? (e.file == 0 ? "stdout" : "stderr")
                             : e.file >= 0  ? s.files[e.file].path
                                            : "";
    o += fmt("\n  {\"fault\": \"%s\", \"op\": \"%s\", \"operation\": %u, \"offset\": %llu, \"length\": %llu, \"file\": ",
             fault_name[e.fault], op_name[e.op], e.index, static_cast<unsigned long long>(e.off),
             static_cast<unsigned long long>(e.len)) +
         jsonStr(path) + "}";
  }
  return o + "]";
}

std::string
stepsJson()
{
  static char const * const st[] = {"not finished", "ok", "error reported", "exception"};
  std::string o = "[";
  for (uint32_t i = 0; i < shm->nsteps; ++i) {
    auto const & s = shm->steps[i];
    o += (i == 0 ? "\n  " : ",\n  ") + jsonStr(std::string(s.name) + ": " + st[s.status] +
                                              (s.what[0] != 0 ? std::string(" (") + s.what + ")" : ""));
  }
  return o + "]";
}

void
worker(Scenario const & sc, Board & b, int id, uint64_t seed, uint32_t runs, double deadline,
       std::set<std::string> const & known, bool stop_on_violation)
{
  shm = mapShm();
  while (b.stop == 0 && wall() < deadline) {
    uint32_t const i = __atomic_fetch_add(&b.next, 1, __ATOMIC_SEQ_CST);
    if (i >= runs) {
      break;
    }
    runRandom(sc, runSeed(seed, sc.id, i));
    auto & r = b.r[i];
    r.hash = shm->hash;
    r.state = shm->state_hash;
    r.nontrivial = static_cast<uint8_t>(shm->nontrivial);
    r.violated = static_cast<uint8_t>(shm->violated);
    if (shm->violated != 0) {
      uint8_t nr = 0;
      for (auto const & k : known) {
        ++nr;
        if (k == shm->sig) {
          r.known = nr;
        }
      }
    }
    r.done = 1;
    auto & w = b.w[id];
    for (int k = 0; k < F_COUNT; ++k) {
      w.fired[k] += shm->fired[k];
    }
    for (int k = 0; k < OP_COUNT; ++k) {
      w.ops[k] += shm->total_ops[k];
    }
    for (int k = 0; k < 32; ++k) {
      w.probes[k] += shm->user[k];
    }
    w.covered += shm->covered;
    if (r.violated != 0 && r.known == 0 && stop_on_violation) {
      b.stop = 1;
    }
  }
  _exit(0);
}

Board *
explore(Scenario const & sc, uint64_t seed, uint32_t runs, double seconds, int workers,
        std::set<std::string> const & known, bool stop)
{
  auto * b = static_cast<Board *>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  double const deadline = wall() + seconds;
  std::vector<pid_t> pids;
  for (int i = 0; i < workers; ++i) {
    pid_t const p = fork();
    if (p == 0) {
      worker(sc, *b, i, seed, runs, deadline, known, stop);
    }
    pids.push_back(p);
  }
  bool bad = false;
  for (auto const p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      bad = true;
    }
  }
  if (bad) {
    fprintf(stderr, "a worker of the simulator failed\n");
    exit(2);
  }
  return b;
}

std::vector<uint32_t>
loadChoices(char const * file)
{
  std::vector<uint32_t> v;
  FILE * f = fopen(file, "r");
  if (f == nullptr) {
    perror(file);
    exit(2);
  }
  unsigned x = 0;
  while (fscanf(f, "%u", &x) == 1) {
    v.push_back(x);
  }
  fclose(f);
  return v;
}

} // namespace

int
main(int argc, char ** argv)
{
  // The same address space layout in every run.
  int const pers = personality(0xffffffff);
  if (pers >= 0 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("DST_REEXEC") == nullptr) {
    personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE);
    setenv("DST_REEXEC", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("HOME", "/sim/home", 1);
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    execv("/proc/self/exe", argv);
  }
  if (argc < 3) {
    fprintf(stderr, "usage: dst explore|replay|hashes property ...\n");
    return 2;
  }
  std::string const mode = argv[1];
  Scenario const & sc = *scenario(argv[2]);
  uint64_t seed = 1;
  uint32_t runs = 100;
  double seconds = 60;
  double min_seconds = 40;
  int workers = 8;
  std::string out;
  std::set<std::string> known;
  for (int i = 3; i + 1 < argc; ++i) {
    std::string const a = argv[i];
    if (a == "--seed") {
      seed = strtoull(argv[++i], nullptr, 10);
    } else if (a == "--runs") {
      runs = std::min<uint32_t>(static_cast<uint32_t>(strtoul(argv[++i], nullptr, 10)), max_runs);
    } else if (a == "--seconds") {
      seconds = atof(argv[++i]);
    } else if (a == "--minimise") {
      min_seconds = atof(argv[++i]);
    } else if (a == "--workers") {
      workers = std::min(atoi(argv[++i]), max_workers);
    } else if (a == "--out") {
      out = argv[++i];
    } else if (a == "--known") {
      known.insert(argv[++i]);
    }
  }

  if (mode == "replay") {
    auto const v = loadChoices(argv[3]);
    shm = mapShm();
    runGiven(sc, v);
    printf("violated %u\nhash %016llx\nsig %s\nmsg %s\nsteps %s\ntrace %s\n", shm->violated,
           static_cast<unsigned long long>(shm->hash), shm->sig, jsonStr(shm->msg).c_str(),
           stepsJson().c_str(), traceJson().c_str());
    return shm->violated != 0 ? 1 : 0;
  }

  double const t0 = wall();
  if (mode == "hashes") {
    Board * b = explore(sc, seed, runs, seconds, workers, known, false);
    for (uint32_t i = 0; i < runs; ++i) {
      printf("%u %016llx %016llx %d\n", i, static_cast<unsigned long long>(b->r[i].hash),
             static_cast<unsigned long long>(b->r[i].state), b->r[i].done);
    }
    return 0;
  }

  Board * b = explore(sc, seed, runs, seconds, workers, known, true);
  double const t1 = wall();
  uint64_t n = 0;
  uint64_t nnt = 0;
  uint64_t nknown = 0;
  std::unordered_set<uint64_t> hashes;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> nt_hashes;
  int64_t first = -1;
  uint32_t const top = std::min(b->next, runs);
  std::vector<uint32_t> known_runs;
  for (uint32_t i = 0; i < top; ++i) {
    auto const & r = b->r[i];
    if (r.done == 0) {
      continue;
    }
    ++n;
    nnt += r.nontrivial;
    hashes.insert(r.hash);
    if (r.nontrivial != 0) {
      nt_hashes.insert(r.hash);
    }
    states.insert(r.state);
    if (r.known != 0) {
      ++nknown;
      known_runs.push_back(i);
    } else if (r.violated != 0 && first < 0) {
      first = i;
    }
  }
  WorkerRec sum = {};
  for (int i = 0; i < workers; ++i) {
    auto const & w = b->w[i];
    for (int k = 0; k < F_COUNT; ++k) {
      sum.fired[k] += w.fired[k];
    }
    for (int k = 0; k < OP_COUNT; ++k) {
      sum.ops[k] += w.ops[k];
    }
    for (int k = 0; k < 32; ++k) {
      sum.probes[k] += w.probes[k];
    }
    sum.covered += w.covered;
  }
  std::string viol = "null";
  std::map<std::string, std::pair<uint64_t, std::string>> known_seen;
  shm = mapShm();
  {
    std::set<uint8_t> shown; // one run of each
    for (auto const i : known_runs) {
      if (!shown.insert(b->r[i].known).second) {
        continue;
      }
      runRandom(sc, runSeed(seed, sc.id, i));
      auto & e = known_seen[shm->sig];
      ++e.first;
      e.second = shm->msg;
    }
  }
  if (first >= 0) {
    uint64_t const rs = runSeed(seed, sc.id, static_cast<uint32_t>(first));
    runRandom(sc, rs);
    bool const again = shm->violated != 0 && shm->hash == b->r[first].hash;
    Minimiser m{sc, shm->sig, made(), wall() + min_seconds};
    auto const raw = m.best;
    if (again) {
      m.run();
    }
    runGiven(sc, m.best);
    viol = fmt("{\"run\": %lld, \"run_seed\": %llu, \"same_seed_twice\": %s, "
               "\"minimiser_runs\": %u, \"violated\": %u, \"hash\": \"%016llx\", \"sig\": ",
               static_cast<long long>(first), static_cast<unsigned long long>(rs),
               again ? "true" : "false", m.tries, shm->violated,
               static_cast<unsigned long long>(shm->hash)) +
           jsonStr(shm->sig) + ", \"msg\": " + jsonStr(shm->msg) + ", \"choices\": [";
    for (size_t i = 0; i < m.best.size(); ++i) {
      viol += (i == 0 ? "" : ",") + std::to_string(m.best[i]);
    }
    viol += "], \"raw\": [";
    for (size_t i = 0; i < raw.size(); ++i) {
      viol += (i == 0 ? "" : ",") + std::to_string(raw[i]);
    }
    viol += "], \"steps\": " + stepsJson() + ", \"trace\": " + traceJson() + "}";
  }
  std::string o = fmt("{\"runs\": %llu, \"nontrivial\": %llu, \"distinct_traces\": %zu, "
                      "\"distinct_nontrivial\": %zu, \"distinct_states\": %zu, \"explore_s\": %.3f, "
                      "\"total_s\": %.3f, \"known\": %llu, \"workers\": %d, \"simulated_s\": %.6f, ",
                      static_cast<unsigned long long>(n), static_cast<unsigned long long>(nnt),
                      hashes.size(), nt_hashes.size(), states.size(), t1 - t0, wall() - t0,
                      static_cast<unsigned long long>(nknown), workers,
                      1e-9 * static_cast<double>(sum.covered));
  o += "\"faults\": {";
  bool f1 = true;
  for (int k = 1; k < F_COUNT; ++k) {
    if (sum.fired[k] > 0) {
      o += fmt("%s\"%s\": %llu", f1 ? "" : ", ", fault_name[k],
               static_cast<unsigned long long>(sum.fired[k]));
      f1 = false;
    }
  }
  o += "}, \"operations\": {";
  f1 = true;
  for (int k = 0; k < OP_COUNT; ++k) {
    if (sum.ops[k] > 0) {
      o += fmt("%s\"%s\": %llu", f1 ? "" : ", ", op_name[k],
               static_cast<unsigned long long>(sum.ops[k]));
      f1 = false;
    }
  }
  o += "}, \"probes\": [";
  for (int k = 0; k < 32; ++k) {
    o += fmt("%s%llu", k == 0 ? "" : ", ", static_cast<unsigned long long>(sum.probes[k]));
  }
  o += "], \"known_seen\": {";
  f1 = true;
  for (auto const & [k, e] : known_seen) {
    o += (f1 ? "" : ", ") + jsonStr(k) + ": " + jsonStr(e.second);
    f1 = false;
  }
  o += "}, \"samples\": [";
  // a few runs in words: seed and what happened
  uint32_t ns = 0;
  for (uint32_t i = 0; i < top && ns < 3; ++i) {
    if (b->r[i].done != 0 && b->r[i].nontrivial != 0 && b->r[i].violated == 0) {
      uint64_t const rs = runSeed(seed, sc.id, i);
      runRandom(sc, rs);
      std::string s = fmt("run %u seed %llu hash %016llx: ", i, static_cast<unsigned long long>(rs),
                          static_cast<unsigned long long>(shm->hash));
      for (uint32_t k = 0; k < shm->nsteps && k < 14; ++k) {
        s += std::string(k == 0 ? "" : ", ") + shm->steps[k].name + "=" +
             (shm->steps[k].status == ST_OK       ? "ok"
              : shm->steps[k].status == ST_STARTED ? "cut off"
                                                   : "error");
      }
      o += (ns == 0 ? "" : ", ") + jsonStr(s);
      ++ns;
      if (shm->hash != b->r[i].hash) {
        fprintf(stderr, "run %u is not deterministic: %016llx %016llx\n", i,
                static_cast<unsigned long long>(shm->hash),
                static_cast<unsigned long long>(b->r[i].hash));
        return 2;
      }
    }
  }
  o += "], \"violation\": " + viol + "}\n";
  if (out.empty()) {
    fputs(o.c_str(), stdout);
  } else {
    FILE * f = fopen(out.c_str(), "w");
    if (f == nullptr) {
      perror(out.c_str());
      return 2;
    }
    fputs(o.c_str(), f);
    fclose(f);
  }
  return first >= 0 ? 1 : 0;
}

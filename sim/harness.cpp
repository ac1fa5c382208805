#include "harness.hpp"

#include <cctype>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{

uint32_t
pick(uint32_t m)
{
  uint32_t const v = shm->ch.pick(m);
  hashMix(v);
  return v;
}
int
range(int lo, int hi)
{
  return lo + static_cast<int>(pick(static_cast<uint32_t>(hi - lo + 1)));
}
bool
chance(uint32_t num, uint32_t den)
{
  // value 0 must mean "no"
  return pick(den) >= den - num;
}
double
realIn(double lo, double hi)
{
  return lo + (hi - lo) * (static_cast<double>(pick(1U << 20)) / static_cast<double>(1U << 20));
}

std::string
fmt(char const * f, ...)
{
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

void
drawFill()
{
  // As a double: zero, a large number, hardly more than nothing, not a number, hardly more than nothing
  static uint8_t const fills[] = {0, 0x41, 0xA5, 0xFF, 0x01};
  shm->fill = fills[pick(5)];
}

Cfg
drawBenign()
{
  Cfg c;
  static uint32_t const rates[] = {0, 32, 200, 600};
  uint32_t const k = pick(4);
  if (k == 0) {
    return c;
  }
  if ((k & 1) != 0) {
    c.p_short = rates[1 + pick(3)];
  }
  if ((k & 2) != 0) {
    c.p_eintr = rates[1 + pick(3)];
  }
  c.benign_seed = pick(1U << 30);
  return c;
}

std::string
describe(Cfg const & c)
{
  std::string s;
  for (auto const & p : c.faults) {
    s += fmt(" %s@%s[%u]", fault_name[p.kind], p.op == OP_COUNT ? "any" : op_name[p.op], p.index);
    if (p.pathsel != 0) {
      s += " on " + c.path[p.pathsel];
    }
  }
  if (c.p_short != 0) {
    s += fmt(" short:%u/1024", c.p_short);
  }
  if (c.p_eintr != 0) {
    s += fmt(" eintr:%u/1024", c.p_eintr);
  }
  return s.empty() ? " no faults" : s;
}

Step const *
Proc::find(char const * name) const
{
  Step const * r = nullptr;
  for (uint32_t i = first_step; i < last_step; ++i) {
    if (strcmp(shm->steps[i].name, name) == 0) {
      r = &shm->steps[i];
    }
  }
  return r;
}

bool
Proc::ok(char const * name) const
{
  auto const * s = find(name);
  return s != nullptr && s->status == ST_OK;
}

// For debugging only: where a simulated process died.
static void
printBacktrace(int sig)
{
  void * frames[64];
  int const n = backtrace(frames, 64);
  backtrace_symbols_fd(frames, n, 2);
  signal(sig, SIG_DFL);
  raise(sig);
}

Proc
process(Cfg const & cfg, std::function<void()> const & body)
{
  Shm & s = *shm;
  resetProcess();
  for (auto const & f : cfg.faults) {
    addFault(f.op, f.kind, f.index, f.arg, f.pathsel);
  }
  for (int i = 1; i < 4; ++i) {
    snprintf(plan_path[i], sizeof(plan_path[i]), "%s", cfg.path[i].c_str());
  }
  s.p_short = cfg.p_short;
  s.p_eintr = cfg.p_eintr;
  s.p_out_short = cfg.p_out_short;
  s.benign_seed = cfg.benign_seed;
  s.tty_out = cfg.tty_out ? 1 : 0;
  s.tty_err = cfg.tty_err ? 1 : 0;
  s.capacity = 0;
  Proc r;
  r.first_step = s.nsteps;
  pid_t const pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(2);
  }
  if (pid == 0) {
    struct rlimit rl = {static_cast<rlim_t>(cfg.cpu_s), static_cast<rlim_t>(cfg.cpu_s + 2)};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (getenv("DST_BACKTRACE") != nullptr) {
      signal(SIGSEGV, printBacktrace);
      signal(SIGABRT, printBacktrace);
    }
    enterProcess();
    alloc_track = cfg.track;
    alloc_reuse = cfg.reuse;
    alloc_new_only = cfg.new_only;
    body();
    alloc_armed = false;
    allocCheckAll();
    exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  r.last_step = s.nsteps;
  r.crashed = s.crashed != 0;
  r.livelock = s.livelock != 0;
  r.exited = WIFEXITED(st) && !r.crashed && !r.livelock;
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  if (r.sig == SIGXCPU || r.sig == SIGKILL) {
    r.cpu = true;
    r.livelock = true;
  }
  r.out.assign(s.out[0], s.nout[0]);
  r.err.assign(s.out[1], s.nout[1]);
  for (int i = 0; i < OP_COUNT; ++i) {
    r.ops[i] = s.ops[i];
  }
  r.nops = s.nops;
  if (s.alloc_bad != 0) {
    r.memory = s.alloc_msg;
  }
  for (uint32_t i = 0; i < s.nplan; ++i) {
    r.injected += s.plan[i].fired;
  }
  hashMix(static_cast<uint64_t>(r.code) * 256 + static_cast<uint64_t>(r.sig));
  return r;
}

std::string
reportText(std::string const & err)
{
  // Drop HDF5's own error stacks and messages of its destructors.
  std::string out;
  size_t i = 0;
  while (i < err.size()) {
    size_t j = err.find('\n', i);
    if (j == std::string::npos) {
      j = err.size();
    }
    std::string const line = err.substr(i, j - i);
    i = j + 1;
    if (line.rfind("HDF5-DIAG", 0) == 0 || line.rfind(", filename = ", 0) == 0) {
      continue;
    }
    size_t k = 0;
    while (k < line.size() && line[k] == ' ') {
      ++k;
    }
    if (k >= 2 && (line.compare(k, 2, "#0") == 0 || line.compare(k, 6, "major:") == 0 ||
                   line.compare(k, 6, "minor:") == 0)) {
      continue;
    }
    if (line.find("::~") != std::string::npos || line.rfind("H5", 0) == 0 ||
        line.rfind("HDF5:", 0) == 0) {
      continue;
    }
    out += line + "\n";
  }
  return out;
}

std::string
lastWords(Proc const & p)
{
  std::string s = reportText(p.err);
  size_t const a = p.out.rfind("Assertion failed");
  if (a != std::string::npos) {
    s += p.out.substr(a);
  }
  return s;
}

bool
errorReported(char const * text, size_t n)
{
  // A warning or a note is not an error report, whatever words it uses.
  std::string const all = reportText(std::string(text, n));
  std::string s;
  size_t i = 0;
  while (i < all.size()) {
    size_t const j = all.find('\n', i);
    std::string const line = all.substr(i, j - i);
    i = j == std::string::npos ? all.size() : j + 1;
    if (line.find(" WARN - ") == std::string::npos && line.find(" INFO - ") == std::string::npos &&
        line.find(" DEBUG - ") == std::string::npos) {
      s += line + "\n";
    }
  }
  for (auto & c : s) {
    c = static_cast<char>(tolower(c));
  }
  return s.find("error") != std::string::npos || s.find("fail") != std::string::npos ||
         s.find("assert") != std::string::npos;
}

int
step(char const * name, std::function<void()> const & f)
{
  Shm & s = *shm;
  if (s.nsteps >= max_steps) {
    violate("harness", "too many steps");
  }
  Step & st = s.steps[s.nsteps++];
  snprintf(st.name, sizeof(st.name), "%s", name);
  st.status = ST_STARTED;
  st.what[0] = 0;
  hashBytes(name, strlen(name));
  uint32_t const e0 = s.nout[1];
  try {
    f();
    st.status = ST_OK;
  } catch (std::exception const & e) {
    alloc_armed = false;
    st.status = ST_EXCEPTION;
    snprintf(st.what, sizeof(st.what), "%s", e.what());
  } catch (...) {
    alloc_armed = false;
    st.status = ST_EXCEPTION;
    snprintf(st.what, sizeof(st.what), "exception");
  }
  alloc_armed = false;
  if (st.status == ST_OK && errorReported(s.out[1] + e0, s.nout[1] - e0)) {
    st.status = ST_LOGGED;
    std::string const t = reportText(std::string(s.out[1] + e0, s.nout[1] - e0));
    snprintf(st.what, sizeof(st.what), "%s", t.c_str());
  }
  hashMix(static_cast<uint64_t>(st.status));
  return st.status;
}

void
violate(char const * sig, char const * f, ...)
{
  Shm & s = *shm;
  if (s.violated == 0) {
    s.violated = 1;
    snprintf(s.sig, sizeof(s.sig), "%s", sig);
    va_list ap;
    va_start(ap, f);
    vsnprintf(s.msg, sizeof(s.msg), f, ap);
    va_end(ap);
    hashBytes(s.sig, strlen(s.sig));
  }
  if (active) {
    _exit(97);
  }
}
bool
violated()
{
  return shm->violated != 0;
}
void
nontrivial()
{
  shm->nontrivial = 1;
}
void
stateMix(uint64_t v)
{
  shm->state_hash = mix64(shm->state_hash ^ v);
}
void
probe(int i)
{
  shm->user[i & 31]++;
}

void
drawWriteFault(Cfg & cfg, Proc const & p)
{
  auto at = [&](uint8_t op) { return pick(static_cast<uint32_t>(p.ops[op])); };
  for (int tries = 0; tries < 8; ++tries) {
    switch (pick(8)) {
    case 0:
      if (p.ops[OP_WRITE] > 0) {
        cfg.add(OP_WRITE, F_EIO_WRITE, at(OP_WRITE), pick(2));
        return;
      }
      break;
    case 1:
      if (p.ops[OP_WRITE] > 0) {
        uint32_t const i = at(OP_WRITE);
        cfg.add(OP_WRITE, F_DISK_FULL, i, pick(2) * pick(6000));
        if (pick(3) == 0) {
          // somebody makes space a few writes later
          cfg.add(OP_WRITE, F_DISK_FREED, i + 1 + pick(6));
        }
        return;
      }
      break;
    case 2:
      if (p.ops[OP_WRITE] > 0) {
        cfg.add(OP_WRITE, F_ENOSPC_ONCE, at(OP_WRITE), pick(1U << 16));
        return;
      }
      break;
    case 3:
      if (p.ops[OP_OPEN] > 0) {
        cfg.add(OP_OPEN, F_OPEN_FAIL, at(OP_OPEN), pick(5));
        return;
      }
      break;
    case 4:
      if (p.ops[OP_CLOSE] > 0) {
        cfg.add(OP_CLOSE, F_CLOSE_LOSE, at(OP_CLOSE), pick(1U << 16));
        return;
      }
      break;
    case 5:
      if (p.ops[OP_TRUNC] > 0) {
        cfg.add(OP_TRUNC, F_TRUNC_FAIL, at(OP_TRUNC), pick(2));
        return;
      }
      break;
    case 6:
      // a file cannot be renamed or removed
      if (p.ops[OP_NAME] > 0) {
        cfg.add(OP_NAME, F_META_FAIL, at(OP_NAME));
        return;
      }
      break;
    default:
      if (p.ops[OP_WRITE] > 0) {
        // bias towards the last writes: data flushed late
        uint32_t const n = static_cast<uint32_t>(p.ops[OP_WRITE]);
        uint32_t const back = pick(n < 6 ? n : 6);
        cfg.add(OP_WRITE, pick(2) != 0 ? F_EIO_WRITE : F_ENOSPC_ONCE, n - 1 - back, pick(1U << 16));
        return;
      }
    }
  }
}

void
drawReadFault(Cfg & cfg, Proc const & p)
{
  uint32_t const no = static_cast<uint32_t>(p.ops[OP_OPEN]);
  uint32_t const nr = static_cast<uint32_t>(p.ops[OP_READ]);
  if (nr > 0 && pick(6) < 5) {
    cfg.add(OP_READ, F_EIO_READ, pick(nr), 0);
  } else if (no > 0) {
    cfg.add(OP_OPEN, F_OPEN_FAIL, pick(no), pick(5));
  }
}

void
drawCrash(Cfg & cfg, Proc const & p)
{
  static uint8_t const kinds[] = {F_CRASH_BEFORE, F_CRASH_MID, F_CRASH_AFTER};
  uint8_t const kind = kinds[pick(3)];
  // where files are opened, written or closed, anywhere, or near the end
  static uint8_t const ops[] = {OP_WRITE, OP_WRITE, OP_OPEN, OP_CLOSE};
  uint32_t const where = pick(7);
  uint32_t const n = static_cast<uint32_t>(p.nops > 0 ? p.nops : 1);
  if (where < 4 && p.ops[ops[where]] > 0) {
    cfg.add(ops[where], kind, pick(static_cast<uint32_t>(p.ops[ops[where]])), pick(1U << 16));
  } else if (where == 4) {
    cfg.add(OP_COUNT, kind, n - 1 - pick(n < 24 ? n : 24), pick(1U << 16));
  } else {
    cfg.add(OP_COUNT, kind, pick(n), pick(1U << 16));
  }
}

std::vector<Scenario> &
scenarios()
{
  static std::vector<Scenario> v;
  return v;
}

} // namespace sim

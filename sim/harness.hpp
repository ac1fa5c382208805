// What scenarios are written against: choices, simulated processes, recorded steps, verdicts.
#pragma once
#include "simos.hpp"
#include <functional>
#include <string>
#include <vector>

namespace sim
{

//--------------------------------------------------------------------------------------------------
// Choices
//--------------------------------------------------------------------------------------------------

uint32_t pick(uint32_t m);                 // in [0, m), 0 simplest
int range(int lo, int hi);                 // inclusive, lo simplest
bool chance(uint32_t num, uint32_t den);   // true with probability num/den; false simplest
double realIn(double lo, double hi);       // lo simplest, 2^20 steps
template <class T>
T const &
oneOf(std::vector<T> const & v)
{
  return v[pick(static_cast<uint32_t>(v.size()))];
}

//--------------------------------------------------------------------------------------------------
// Simulated processes
//--------------------------------------------------------------------------------------------------

struct Cfg {
  std::vector<Planned> faults;
  std::string path[4]; // path selectors 1..3
  uint32_t p_short = 0, p_eintr = 0, p_out_short = 0;
  uint64_t benign_seed = 0;
  bool tty_out = false, tty_err = false;
  bool track = false; // track allocations (double free, overrun, leaks)
  bool reuse = false; // ... and hand out freed blocks again as soon as possible
  bool new_only = false; // ... of operator new only
  int cpu_s = 20;

  void
  add(uint8_t op, uint8_t kind, uint32_t index, uint32_t arg = 0, uint8_t pathsel = 0)
  {
    faults.push_back({op, kind, 0, pathsel, index, arg});
  }
};
Cfg drawBenign();             // short and interrupted transfers, by choice
void drawFill();              // what fresh memory holds
std::string describe(Cfg const & c);

struct Proc {
  bool exited = false; // ended by exit or by returning
  int code = -1;
  int sig = 0;
  bool crashed = false;  // killed by an injected crash
  bool livelock = false; // did not finish within its budget of operations or processor time
  bool cpu = false;
  std::string out, err;
  std::string memory; // memory misuse seen (tracked processes)
  uint64_t ops[OP_COUNT] = {};
  uint64_t nops = 0;
  uint64_t injected = 0; // planned faults that fired
  uint32_t first_step = 0, last_step = 0;

  // The process ended by itself with success.
  [[nodiscard]] bool
  success() const
  {
    return exited && code == 0;
  }
  [[nodiscard]] Step const * find(char const * name) const; // the last step of that name
  // A step that ended without any sign of failure.
  [[nodiscard]] bool ok(char const * name) const;
};

Proc process(Cfg const & cfg, std::function<void()> const & body);

// Inside a process: one operation of the history.
int step(char const * name, std::function<void()> const & f);
// The text of an error report on the error stream since position `from` (HDF5's own error stack
// does not count as a report).
bool errorReported(char const * text, size_t n);
std::string reportText(std::string const & err);
std::string lastWords(Proc const & p); // what an ended process had to say

//--------------------------------------------------------------------------------------------------
// Verdicts
//--------------------------------------------------------------------------------------------------

// Usable in the worker and in a process.  In a process it ends the process.
void violate(char const * sig, char const * fmt, ...) __attribute__((format(printf, 2, 3)));
bool violated();
void nontrivial();
void stateMix(uint64_t v); // abstract outcome measure of the run
void probe(int i);         // reach probe counters 0..31

std::string fmt(char const * f, ...) __attribute__((format(printf, 1, 2)));

//--------------------------------------------------------------------------------------------------
// Fault drawing helpers
//--------------------------------------------------------------------------------------------------

// Add one hard storage fault to cfg, placed inside the operations counted in a fault-free profile.
void drawWriteFault(Cfg & cfg, Proc const & profile);
void drawReadFault(Cfg & cfg, Proc const & profile);
void drawCrash(Cfg & cfg, Proc const & profile);

struct Scenario {
  char const * id;
  void (*run)();
};
extern std::vector<Scenario> & scenarios();
struct Register {
  Register(char const * id, void (*run)())
  {
    scenarios().push_back({id, run});
  }
};

} // namespace sim

// The simulated operating system: files, standard streams, clock and memory of the process under
// simulation.  All state that outlives a simulated process lives in one shared mapping (Shm), so
// that a simulated process (a forked child) can die at any point and leave only "durable" state.
#pragma once
#include "choice.hpp"
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim
{

enum Op : uint8_t {
  OP_OPEN = 0,
  OP_READ,
  OP_WRITE,
  OP_TRUNC,
  OP_CLOSE,
  OP_SYNC,
  OP_META, // stat, access
  OP_NAME, // rename, unlink
  OP_OUT,  // write to standard output / error
  OP_ALLOC,
  OP_CLOCK,
  OP_ACCESS,     // memory access of a simulated thread
  OP_THREADSYNC, // synchronisation of simulated threads
  OP_COUNT
};
extern char const * const op_name[OP_COUNT];

enum Fault : uint8_t {
  F_NONE = 0,
  F_OPEN_FAIL, // open/creat fails (EACCES, EMFILE, ENOSPC, EIO)
  F_EIO_READ,
  F_EIO_WRITE,
  F_ENOSPC_ONCE,  // one write fails with ENOSPC, possibly after a partial write
  F_DISK_FULL,    // the device stays full from here on
  F_TRUNC_FAIL,
  F_CLOSE_FAIL,   // close reports EIO; the data is intact
  F_CLOSE_LOSE,   // close reports EIO and the tail of the data is gone
  F_CRASH_BEFORE, // the process is killed before the operation
  F_CRASH_MID,    // ... in the middle of the operation (torn write)
  F_CRASH_AFTER,  // ... right after the operation
  F_ALLOC_FAIL,
  F_OUT_FAIL,     // write to a standard stream fails
  F_EINTR,        // benign: interrupted call
  F_SHORT,        // benign: short read or write
  F_CLOCK_BACK,
  F_CLOCK_FWD,
  F_DISK_FREED,   // the device has space again
  F_TRUNCATED,    // a stored file lost its tail (between processes)
  F_META_FAIL,
  F_OUT_SHORT,
  F_OUT_EINTR,
  F_SWITCH, // a thread is interrupted and another one goes on
  F_COUNT
};
extern char const * const fault_name[F_COUNT];

// Argument of F_ALLOC_FAIL: 0: this one request fails; n: it fails, and so do all later requests of n
// bytes or more; n | large_only: only requests of n bytes or more fail from here on.
constexpr uint32_t large_only = 1U << 31;

struct Planned {
  uint8_t op;    // operation class the fault applies to (OP_COUNT: any file operation)
  uint8_t kind;  // Fault
  uint8_t fired;
  uint8_t pathsel; // 0: any path, else only files whose path contains plan path suffix n
  uint32_t index;  // fires at the index-th operation of that class in this process
  uint32_t arg;
};

struct Event {
  uint8_t op;
  uint8_t fault;
  int16_t file;
  uint32_t index; // operation number (all classes)
  uint64_t off;
  uint64_t len;
  int64_t result;
};

struct SFile {
  char path[160];
  uint8_t used, isdir, lost, stdio;
  uint32_t ino;
  uint64_t size, cap, off;
};

struct Step {
  char name[48];
  int32_t status; // see StepStatus
  char what[160];
};
enum StepStatus { ST_STARTED = 0, ST_OK = 1, ST_LOGGED = 2, ST_EXCEPTION = 3 };

constexpr uint32_t max_files = 64;
constexpr uint64_t arena_size = 192ULL << 20;
constexpr uint32_t max_events = 4096;
constexpr uint32_t max_plan = 16;
constexpr uint32_t max_steps = 256;
constexpr uint32_t out_cap = 1U << 18;

struct Shm {
  Choices ch;
  // disk
  SFile files[max_files];
  uint64_t arena_used;
  uint32_t next_ino;
  uint64_t bytes_on_disk;
  uint64_t capacity; // 0: unlimited
  uint32_t outgrown; // the simulated disk itself was too small: the run says nothing
  // faults for the current process
  Planned plan[max_plan];
  uint32_t nplan;
  uint64_t benign_seed;
  uint32_t p_short, p_eintr;         // per 1024, file operations
  uint32_t p_out_short, p_out_eintr; // per 1024, standard streams
  uint32_t out_dead;                 // 1: standard output fails from now on
  // clock (nanoseconds)
  int64_t now, mono, epoch;
  int64_t tick;
  int64_t covered; // simulated time that passed in total
  uint8_t fill;    // pattern for fresh memory
  uint8_t tty_out, tty_err;
  // record of the current process
  uint64_t ops[OP_COUNT];
  uint64_t nops;
  uint32_t crashed;
  uint32_t livelock;
  uint32_t alloc_bad; // allocator misuse seen (double free, overrun, ...)
  char alloc_msg[160];
  int64_t live_new; // live operator-new blocks (tracked)
  // record of the whole run
  uint64_t total_ops[OP_COUNT];
  uint64_t fired[F_COUNT];
  uint64_t hash;
  Event ev[max_events];
  uint32_t nev;
  Step steps[max_steps];
  uint32_t nsteps;
  char out[2][out_cap]; // captured standard output and error
  uint32_t nout[2];
  // verdict
  uint32_t violated;
  char sig[128];
  char msg[2048];
  uint32_t nontrivial; // the run exercised what the property is about
  uint64_t state_hash; // abstract state / outcome measure
  uint64_t user[64];   // scenario scratch that must survive the simulated process
  char scratch[1U << 20];
  uint32_t nscratch;
  uint8_t arena[arena_size];
};

extern Shm * shm;      // the mapping of the current worker
extern bool active;    // we are inside a simulated process
extern bool alloc_armed;
extern bool alloc_track;
extern bool alloc_reuse; // tracked blocks that were freed are handed out again, last freed first
extern void (*alloc_hook)(void *, size_t);
extern void (*free_hook)(void *, size_t);
extern bool alloc_new_only; // report misuse of operator-new blocks only

Shm * mapShm();
void resetRun();                 // empty disk, no record
void resetProcess();             // before a simulated process starts
void enterProcess();             // called first in the child
void joinProcess();              // called first in a thread of a simulated process
void allocCheckAll();            // in a process that tracks memory: look for damage
int64_t liveNew();               // in a process that tracks memory: live operator-new blocks
void hashMix(uint64_t v);
void hashBytes(void const * p, size_t n);

// Plan helpers
void addFault(uint8_t op, uint8_t kind, uint32_t index, uint32_t arg = 0, uint8_t pathsel = 0);
extern char plan_path[4][64]; // suffixes for Planned::pathsel (index 1..3)

// Direct access to the disk for generators and oracles (never faulty, never counted)
int findFile(char const * path);
bool diskExists(char const * path);
std::string diskRead(char const * path);
void diskWrite(char const * path, std::string const & data);
void diskTruncate(char const * path, uint64_t n);
void diskRemove(char const * path);
void diskMkdir(char const * path);
std::vector<std::string> diskList();
struct DiskImage {
  std::vector<SFile> files;
  std::vector<std::string> data;
  uint64_t bytes_on_disk;
  uint32_t next_ino;
};
DiskImage diskSnapshot();
void diskRestore(DiskImage const & img);
uint64_t diskHash();

// Simulated clock
void clockAdvance(int64_t ns); // time passes
void clockStep(int64_t ns);    // somebody sets the system clock; counted as a fault
int64_t clockPeek();

[[noreturn]] void crashNow();

} // namespace sim

#include "simos.hpp"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <new>
#include <poll.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void * __libc_malloc(size_t);
void __libc_free(void *);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
}

namespace sim
{

char const * const op_name[OP_COUNT] = {"open", "read", "write", "truncate", "close",
                                        "sync", "meta", "name", "output", "alloc",    "clock",
                                        "memory_access", "thread_sync"};
char const * const fault_name[F_COUNT] = {
    "none",         "open_fail",    "read_eio",    "write_eio",   "write_enospc",
    "disk_full",    "truncate_fail", "close_fail",  "close_lose",  "crash_before",
    "crash_mid",    "crash_after",  "alloc_fail",  "output_fail", "eintr",
    "short",        "clock_back",   "clock_forward", "disk_freed", "file_truncated",
    "meta_fail",    "output_short", "output_eintr", "thread_switch"};

Shm * shm = nullptr;
bool active = false;
bool alloc_armed = false;
bool alloc_track = false;
bool alloc_reuse = false;
bool alloc_new_only = false;
void (*alloc_hook)(void *, size_t) = nullptr;
void (*free_hook)(void *, size_t) = nullptr;
char plan_path[4][64];

namespace
{
thread_local bool other_thread_flag = true; // set to false on the simulated main thread
bool
here()
{
  return active && !other_thread_flag;
}
} // namespace

//==================================================================================================
// Run and process state
//==================================================================================================

Shm *
mapShm()
{
  void * p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return static_cast<Shm *>(p);
}

void
resetRun()
{
  Shm & s = *shm;
  memset(s.files, 0, sizeof(s.files));
  s.arena_used = 0;
  s.next_ino = 100;
  s.bytes_on_disk = 0;
  s.capacity = 0;
  s.outgrown = 0;
  s.epoch = 1700000000LL * 1000000000LL;
  s.now = s.epoch;
  s.mono = 1000000000LL;
  s.tick = 1000;
  s.covered = 0;
  s.fill = 0xA5;
  s.tty_out = s.tty_err = 0;
  memset(s.total_ops, 0, sizeof(s.total_ops));
  memset(s.fired, 0, sizeof(s.fired));
  s.hash = 0xCBF29CE484222325ULL;
  s.nev = 0;
  s.nsteps = 0;
  s.violated = 0;
  s.sig[0] = 0;
  s.msg[0] = 0;
  s.nontrivial = 0;
  s.state_hash = 0;
  memset(s.user, 0, sizeof(s.user));
  s.nscratch = 0;
  memset(plan_path, 0, sizeof(plan_path));
  // the root directory of the simulated disk
  auto & f = s.files[0];
  strcpy(f.path, "/sim");
  f.used = 1;
  f.isdir = 1;
  f.ino = 99;
  for (auto const * d : {"/", "/sim/cwd", "/sim/cwd/sub", "/sim/cwd/d", "/sim/cwd/d/d", "/sim/a", "/sim/a/deep.dir", "/sim/home", "/tmp"}) {
    diskMkdir(d);
  }
  resetProcess();
}

void
resetProcess()
{
  Shm & s = *shm;
  s.nplan = 0;
  s.benign_seed = 0;
  s.p_short = s.p_eintr = s.p_out_short = s.p_out_eintr = 0;
  s.out_dead = 0;
  memset(s.ops, 0, sizeof(s.ops));
  s.nops = 0;
  s.crashed = 0;
  s.livelock = 0;
  s.alloc_bad = 0;
  s.alloc_msg[0] = 0;
  s.live_new = 0;
  s.nout[0] = s.nout[1] = 0;
}

void
hashMix(uint64_t v)
{
  shm->hash = mix64(shm->hash ^ v);
}

void
hashBytes(void const * p, size_t n)
{
  auto const * b = static_cast<uint8_t const *>(p);
  uint64_t h = 0xCBF29CE484222325ULL ^ n;
  while (n >= 8) {
    uint64_t w;
    memcpy(&w, b, 8);
    h = (h ^ w) * 0x9FB21C651E98DF25ULL;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n-- > 0) {
    h = (h ^ *b++) * 0x100000001B3ULL;
  }
  hashMix(h);
}

void
addFault(uint8_t op, uint8_t kind, uint32_t index, uint32_t arg, uint8_t pathsel)
{
  if (shm->nplan < max_plan) {
    shm->plan[shm->nplan++] = {op, kind, 0, pathsel, index, arg};
  }
}

[[noreturn]] void
crashNow()
{
  shm->crashed = 1;
  _exit(99);
}

//==================================================================================================
// Disk
//==================================================================================================

namespace
{

// The simulator's own allocations never fail.
struct Unarmed {
  bool was = alloc_armed;
  Unarmed() { alloc_armed = false; }
  ~Unarmed() { alloc_armed = was; }
  Unarmed(Unarmed const &) = delete;
  auto operator=(Unarmed const &) -> Unarmed & = delete;
};

std::string
normalise(char const * path)
{
  Unarmed const unarmed;
  // In the simulated process the working directory is /sim/cwd.
  std::string p = path[0] == '/' ? std::string(path) : std::string("/sim/cwd/") + path;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) {
      j = p.size();
    }
    std::string const part = p.substr(i, j - i);
    if (part == "..") {
      if (!parts.empty()) {
        parts.pop_back();
      }
    } else if (!part.empty() && part != ".") {
      parts.push_back(part);
    }
    i = j + 1;
  }
  std::string r;
  for (auto const & s : parts) {
    r += "/" + s;
  }
  return r.empty() ? "/" : r;
}

bool
starts(char const * s, char const * pre)
{
  return strncmp(s, pre, strlen(pre)) == 0;
}

// Paths of the machine that the libraries may legitimately read (shared objects, locale, ...)
bool
simPath(char const * path)
{
  if (!here() || path == nullptr) {
    return false;
  }
  if (path[0] != '/') {
    return true;
  }
  static char const * const real[] = {"/usr/", "/lib", "/etc/", "/proc/", "/sys/", "/dev/", "/opt/", "/app/"};
  for (auto const * r : real) {
    if (starts(path, r)) {
      return false;
    }
  }
  return true;
}

// Real paths can be read but never changed: a simulated process leaves no trace on the machine.
bool
denied(char const * path)
{
  if (!active || path == nullptr || simPath(path) || strcmp(path, "/dev/null") == 0) {
    return false;
  }
  errno = EROFS;
  return true;
}

int
lookup(std::string const & p)
{
  for (uint32_t i = 0; i < max_files; ++i) {
    auto const & f = shm->files[i];
    if (f.used != 0 && p == f.path) {
      return static_cast<int>(i);
    }
  }
  return -1;
}

bool
parentExists(std::string const & p)
{
  size_t const k = p.rfind('/');
  if (k == 0 || k == std::string::npos) {
    return true;
  }
  int const i = lookup(p.substr(0, k));
  return i >= 0 && shm->files[i].isdir != 0;
}

int
create(std::string const & p, bool dir)
{
  for (uint32_t i = 0; i < max_files; ++i) {
    auto & f = shm->files[i];
    if (f.used == 0) {
      memset(&f, 0, sizeof(f));
      if (p.size() >= sizeof(f.path)) {
        shm->outgrown = 1;
        return -1;
      }
      memcpy(f.path, p.c_str(), p.size() + 1);
      f.used = 1;
      f.isdir = dir ? 1 : 0;
      f.ino = shm->next_ino++;
      return static_cast<int>(i);
    }
  }
  shm->outgrown = 1;
  return -1;
}

// Move all contents to the front of the arena.
void
compact()
{
  SFile * v[max_files];
  uint32_t n = 0;
  for (auto & f : shm->files) {
    if (f.cap != 0) {
      v[n++] = &f;
    }
  }
  std::sort(v, v + n, [](SFile const * a, SFile const * b) { return a->off < b->off; });
  uint64_t at = 0;
  for (uint32_t i = 0; i < n; ++i) {
    SFile & f = *v[i];
    if (f.used == 0) {
      f.cap = 0;
      f.off = 0;
      continue;
    }
    memmove(shm->arena + at, shm->arena + f.off, f.size);
    f.off = at;
    f.cap = (f.size + 63) & ~63ULL;
    at += f.cap;
  }
  shm->arena_used = at;
}

bool
ensure(SFile & f, uint64_t cap)
{
  if (cap <= f.cap) {
    return true;
  }
  uint64_t ncap = std::max<uint64_t>({cap, f.cap * 2, 4096});
  ncap = (ncap + 63) & ~63ULL;
  if (shm->arena_used + ncap > arena_size) {
    compact();
    if (shm->arena_used + ncap > arena_size) {
      ncap = (cap + 63) & ~63ULL;
    }
    if (shm->arena_used + ncap > arena_size) {
      shm->outgrown = 1;
      return false;
    }
  }
  uint64_t const noff = shm->arena_used;
  shm->arena_used += ncap;
  memcpy(shm->arena + noff, shm->arena + f.off, f.size);
  f.off = noff;
  f.cap = ncap;
  return true;
}

void
setSize(SFile & f, uint64_t n)
{
  if (n > f.size) {
    if (!ensure(f, n)) {
      return;
    }
    memset(shm->arena + f.off + f.size, 0, n - f.size);
    shm->bytes_on_disk += n - f.size;
  } else {
    shm->bytes_on_disk -= f.size - n;
  }
  f.size = n;
}

} // namespace

int
findFile(char const * path)
{
  return lookup(normalise(path));
}

bool
diskExists(char const * path)
{
  return findFile(path) >= 0;
}

std::string
diskRead(char const * path)
{
  int const i = findFile(path);
  if (i < 0) {
    return {};
  }
  auto const & f = shm->files[i];
  return {reinterpret_cast<char const *>(shm->arena + f.off), f.size};
}

void
diskWrite(char const * path, std::string const & data)
{
  std::string const p = normalise(path);
  int i = lookup(p);
  if (i < 0) {
    i = create(p, false);
  }
  if (i < 0) {
    return;
  }
  auto & f = shm->files[i];
  setSize(f, 0);
  setSize(f, data.size());
  memcpy(shm->arena + f.off, data.data(), data.size());
}

void
diskTruncate(char const * path, uint64_t n)
{
  int const i = findFile(path);
  if (i >= 0 && n < shm->files[i].size) {
    setSize(shm->files[i], n);
    shm->fired[F_TRUNCATED]++;
  }
}

void
diskRemove(char const * path)
{
  int const i = findFile(path);
  if (i >= 0) {
    setSize(shm->files[i], 0);
    shm->files[i].used = 0;
  }
}

void
diskMkdir(char const * path)
{
  std::string const p = normalise(path);
  if (lookup(p) < 0) {
    create(p, true);
  }
}

std::vector<std::string>
diskList()
{
  std::vector<std::string> v;
  for (auto const & f : shm->files) {
    if (f.used != 0 && f.isdir == 0) {
      v.emplace_back(f.path);
    }
  }
  std::sort(v.begin(), v.end());
  return v;
}

DiskImage
diskSnapshot()
{
  DiskImage d;
  for (auto const & f : shm->files) {
    d.files.push_back(f);
    d.data.emplace_back(reinterpret_cast<char const *>(shm->arena + f.off), f.used != 0 ? f.size : 0);
  }
  d.bytes_on_disk = shm->bytes_on_disk;
  d.next_ino = shm->next_ino;
  return d;
}

void
diskRestore(DiskImage const & img)
{
  shm->arena_used = 0;
  for (uint32_t i = 0; i < max_files; ++i) {
    auto & f = shm->files[i];
    f = img.files[i];
    f.cap = 0;
    f.off = 0;
    uint64_t const n = f.size;
    f.size = 0;
    if (f.used != 0 && n > 0) {
      ensure(f, n);
      memcpy(shm->arena + f.off, img.data[i].data(), n);
      f.size = n;
    }
  }
  shm->bytes_on_disk = img.bytes_on_disk;
  shm->next_ino = img.next_ino;
}

uint64_t
diskHash()
{
  uint64_t const keep = shm->hash;
  shm->hash = 1;
  for (auto const & f : shm->files) {
    if (f.used != 0 && f.isdir == 0) {
      hashBytes(f.path, strlen(f.path));
      hashBytes(shm->arena + f.off, f.size);
    }
  }
  uint64_t const h = shm->hash;
  shm->hash = keep;
  return h;
}

//==================================================================================================
// Fault decisions
//==================================================================================================

namespace
{

struct Decision {
  uint8_t fault = F_NONE;
  uint32_t arg = 0;
};

void
note(uint8_t op, uint8_t fault, int file, uint64_t off, uint64_t len, int64_t result)
{
  Shm & s = *shm;
  if (fault != F_NONE || s.nev < max_events / 2) {
    if (s.nev < max_events) {
      s.ev[s.nev++] = {op, fault, static_cast<int16_t>(file), static_cast<uint32_t>(s.nops), off, len, result};
    }
  }
  if (fault != F_NONE) {
    s.fired[fault]++;
  }
  hashMix((static_cast<uint64_t>(op) << 56) ^ (static_cast<uint64_t>(fault) << 48) ^
          (static_cast<uint64_t>(file & 0xFFFF) << 32) ^ (off << 8) ^ len);
  hashMix(static_cast<uint64_t>(result));
}

uint64_t
benign(uint64_t salt)
{
  return mix64(shm->benign_seed ^ (shm->nops * 0x2545F4914F6CDD1DULL) ^ (salt << 57));
}

Decision
decide(uint8_t op, int file, bool stdio = false)
{
  Shm & s = *shm;
  uint64_t const idx = s.ops[op]++;
  uint64_t const any = s.nops++;
  s.total_ops[op]++;
  if (s.nops > 3000000) {
    s.livelock = 1;
    _exit(98);
  }
  Decision d;
  for (uint32_t i = 0; i < s.nplan; ++i) {
    auto & p = s.plan[i];
    if (p.fired != 0) {
      continue;
    }
    if (p.op != op && !(p.op == OP_COUNT && op < OP_ALLOC)) {
      continue;
    }
    if (p.pathsel != 0) {
      if (file < 0 || strstr(s.files[file].path, plan_path[p.pathsel]) == nullptr) {
        continue;
      }
      if (p.index > 0) {
        --p.index;
        continue;
      }
    } else if ((p.op == OP_COUNT ? any : idx) != p.index) {
      continue;
    }
    p.fired = 1;
    d.fault = p.kind;
    d.arg = p.arg;
    if (d.fault == F_DISK_FULL) {
      // From now on only arg more bytes fit; not an immediate failure.
      s.capacity = s.bytes_on_disk + p.arg;
      s.fired[F_DISK_FULL]++;
      d.fault = F_NONE;
      continue;
    }
    if (d.fault == F_DISK_FREED) {
      if (s.capacity != 0) {
        s.capacity = 0;
        s.fired[F_DISK_FREED]++;
      }
      d.fault = F_NONE;
      continue;
    }
    if (d.fault == F_CRASH_BEFORE) {
      note(op, F_CRASH_BEFORE, file, 0, 0, 0);
      crashNow();
    }
    return d;
  }
  if (d.fault == F_NONE && (op == OP_READ || op == OP_WRITE)) {
    if (s.p_eintr != 0 && !stdio && benign(1) % 1024 < s.p_eintr) {
      d.fault = F_EINTR;
    } else if (s.p_short != 0 && benign(2) % 1024 < s.p_short) {
      d.fault = F_SHORT;
      d.arg = static_cast<uint32_t>(benign(3));
    }
  }
  if (d.fault == F_NONE && op == OP_OUT) {
    if (s.p_out_short != 0 && benign(4) % 1024 < s.p_out_short) {
      d.fault = F_OUT_SHORT;
      d.arg = static_cast<uint32_t>(benign(5));
    }
  }
  return d;
}

//==================================================================================================
// Simulated file descriptors (local to a simulated process)
//==================================================================================================

struct Fd {
  bool used = false;
  int file = -1;
  int flags = 0;
  uint64_t pos = 0;
  bool wrote = false;
};
constexpr int fd_base = 1000;
constexpr int max_fd = 200;
Fd fdt[max_fd];

Fd *
fdOf(int fd)
{
  if (!active || fd < fd_base || fd >= fd_base + max_fd || !fdt[fd - fd_base].used) {
    return nullptr;
  }
  return &fdt[fd - fd_base];
}

int
sopen(char const * path, int flags)
{
  Unarmed const unarmed;
  std::string const p = normalise(path);
  int i = lookup(p);
  Decision const d = decide(OP_OPEN, i);
  if (d.fault == F_OPEN_FAIL) {
    static int const errs[] = {EACCES, EMFILE, ENOSPC, EIO, EROFS};
    note(OP_OPEN, F_OPEN_FAIL, i, 0, 0, -1);
    errno = errs[d.arg % 5];
    return -1;
  }
  hashBytes(p.data(), p.size());
  if (i < 0) {
    if ((flags & O_CREAT) == 0 || !parentExists(p)) {
      note(OP_OPEN, F_NONE, -1, 0, 0, -2);
      errno = ENOENT;
      return -1;
    }
    i = create(p, false);
    if (i < 0) {
      errno = ENOSPC;
      return -1;
    }
  } else {
    if ((flags & O_CREAT) != 0 && (flags & O_EXCL) != 0) {
      errno = EEXIST;
      return -1;
    }
    if (shm->files[i].isdir != 0 && (flags & O_ACCMODE) != O_RDONLY) {
      errno = EISDIR;
      return -1;
    }
  }
  if ((flags & O_TRUNC) != 0 && (flags & O_ACCMODE) != O_RDONLY) {
    setSize(shm->files[i], 0);
    shm->files[i].stdio = 0;
  }
  for (int k = 0; k < max_fd; ++k) {
    if (!fdt[k].used) {
      fdt[k] = {true, i, flags, 0, false};
      note(OP_OPEN, d.fault, i, 0, static_cast<uint64_t>(flags & (O_ACCMODE | O_TRUNC)), k);
      if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
        crashNow();
      }
      return fd_base + k;
    }
  }
  errno = EMFILE;
  return -1;
}

ssize_t
sread(Fd & fd, void * buf, size_t n, int64_t at, bool stdio)
{
  Decision const d = decide(OP_READ, fd.file, stdio);
  auto & f = shm->files[fd.file];
  uint64_t const pos = at >= 0 ? static_cast<uint64_t>(at) : fd.pos;
  if ((fd.flags & O_ACCMODE) == O_WRONLY) {
    errno = EBADF;
    return -1;
  }
  if (f.isdir != 0) {
    errno = EISDIR;
    return -1;
  }
  if (d.fault == F_EIO_READ) {
    note(OP_READ, F_EIO_READ, fd.file, pos, n, -1);
    errno = EIO;
    return -1;
  }
  if (d.fault == F_EINTR) {
    note(OP_READ, F_EINTR, fd.file, pos, n, -1);
    errno = EINTR;
    return -1;
  }
  uint64_t m = pos >= f.size ? 0 : std::min<uint64_t>(n, f.size - pos);
  uint8_t fault = d.fault;
  if (fault == F_SHORT) {
    if (m > 1) {
      m = 1 + d.arg % (m - 1);
    } else {
      fault = F_NONE;
    }
  }
  memcpy(buf, shm->arena + f.off + pos, m);
  if (at < 0) {
    fd.pos += m;
  }
  note(OP_READ, fault, fd.file, pos, n, static_cast<int64_t>(m));
  if (fault == F_CRASH_AFTER || fault == F_CRASH_MID) {
    crashNow();
  }
  return static_cast<ssize_t>(m);
}

ssize_t
swrite(Fd & fd, void const * buf, size_t n, int64_t at, bool stdio)
{
  Decision const d = decide(OP_WRITE, fd.file, stdio);
  auto & f = shm->files[fd.file];
  if ((fd.flags & O_ACCMODE) == O_RDONLY) {
    errno = EBADF;
    return -1;
  }
  uint64_t const pos = at >= 0                       ? static_cast<uint64_t>(at)
                       : (fd.flags & O_APPEND) != 0 ? f.size
                                                    : fd.pos;
  uint8_t fault = d.fault;
  if (fault == F_EINTR) {
    note(OP_WRITE, F_EINTR, fd.file, pos, n, -1);
    errno = EINTR;
    return -1;
  }
  if (fault == F_EIO_WRITE) {
    note(OP_WRITE, F_EIO_WRITE, fd.file, pos, n, -1);
    errno = (d.arg & 1) != 0 ? EDQUOT : EIO;
    return -1;
  }
  uint64_t m = n;
  if (fault == F_SHORT) {
    if (m > 1) {
      m = 1 + d.arg % (m - 1);
    } else {
      fault = F_NONE;
    }
  } else if (fault == F_CRASH_MID) {
    m = m > 0 ? d.arg % m : 0;
  } else if (fault == F_ENOSPC_ONCE) {
    // Half of the time a partial write happens first, as a real full device would do.
    m = (d.arg & 1) != 0 && n > 1 ? 1 + (d.arg >> 1) % (n - 1) : 0;
    if (m == 0) {
      note(OP_WRITE, F_ENOSPC_ONCE, fd.file, pos, n, -1);
      errno = ENOSPC;
      return -1;
    }
    // The continuation of this write will find the device full.
    addFault(OP_WRITE, F_EIO_WRITE, static_cast<uint32_t>(shm->ops[OP_WRITE]), 1);
  }
  if (shm->capacity != 0) {
    uint64_t const end = pos + m;
    uint64_t const grow = end > f.size ? end - f.size : 0;
    uint64_t const room = shm->capacity > shm->bytes_on_disk ? shm->capacity - shm->bytes_on_disk : 0;
    if (grow > room) {
      uint64_t const fit = m - (grow - room);
      if (fit == 0 || fit > m) {
        note(OP_WRITE, F_DISK_FULL, fd.file, pos, n, -1);
        errno = ENOSPC;
        return -1;
      }
      m = fit;
    }
  }
  if (!ensure(f, pos + m)) {
    errno = ENOSPC;
    return -1;
  }
  if (pos + m > f.size) {
    setSize(f, pos + m);
  }
  memcpy(shm->arena + f.off + pos, buf, m);
  if (at < 0) {
    fd.pos = pos + m;
  }
  fd.wrote = true;
  if (stdio) {
    f.stdio = 1;
  }
  hashBytes(buf, m);
  note(OP_WRITE, fault, fd.file, pos, n, static_cast<int64_t>(m));
  if (fault == F_CRASH_AFTER || fault == F_CRASH_MID) {
    crashNow();
  }
  return static_cast<ssize_t>(m);
}

int
sclose(int fdn)
{
  Fd & fd = *fdOf(fdn);
  Decision const d = decide(OP_CLOSE, fd.file);
  int rc = 0;
  uint8_t fault = d.fault;
  if (fault == F_CLOSE_FAIL || fault == F_CLOSE_LOSE) {
    auto & f = shm->files[fd.file];
    if (fault == F_CLOSE_LOSE && fd.wrote && f.stdio == 0 && f.size > 0) {
      setSize(f, d.arg % f.size);
    } else {
      fault = F_CLOSE_FAIL;
    }
    errno = EIO;
    rc = -1;
  }
  note(OP_CLOSE, fault, fd.file, 0, 0, rc);
  fd.used = false;
  if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
    crashNow();
  }
  return rc;
}

int
strunc(int file, int64_t n)
{
  Decision const d = decide(OP_TRUNC, file);
  auto & f = shm->files[file];
  if (d.fault == F_TRUNC_FAIL) {
    note(OP_TRUNC, F_TRUNC_FAIL, file, 0, static_cast<uint64_t>(n), -1);
    errno = (d.arg & 1) != 0 ? ENOSPC : EIO;
    return -1;
  }
  if (n < 0) {
    errno = EINVAL;
    return -1;
  }
  auto const un = static_cast<uint64_t>(n);
  if (shm->capacity != 0 && un > f.size && shm->bytes_on_disk + (un - f.size) > shm->capacity) {
    note(OP_TRUNC, F_DISK_FULL, file, 0, un, -1);
    errno = ENOSPC;
    return -1;
  }
  setSize(f, un);
  note(OP_TRUNC, d.fault, file, 0, un, 0);
  if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
    crashNow();
  }
  return 0;
}

int
fillStat(int file, struct stat * st)
{
  memset(st, 0, sizeof(*st));
  auto const & f = shm->files[file];
  st->st_dev = 77;
  st->st_ino = f.ino;
  st->st_mode = f.isdir != 0 ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_nlink = 1;
  st->st_size = static_cast<off_t>(f.size);
  st->st_blksize = 4096;
  st->st_blocks = static_cast<blkcnt_t>((f.size + 511) / 512);
  return 0;
}

int
sstat(char const * path, struct stat * st)
{
  int const i = lookup(normalise(path));
  Decision const d = decide(OP_META, i);
  if (i < 0) {
    note(OP_META, d.fault, i, 0, 0, -1);
    errno = ENOENT;
    return -1;
  }
  note(OP_META, d.fault, i, 0, 0, 0);
  return fillStat(i, st);
}

int64_t
sseek(Fd & fd, int64_t off, int whence)
{
  int64_t base = 0;
  if (whence == SEEK_CUR) {
    base = static_cast<int64_t>(fd.pos);
  } else if (whence == SEEK_END) {
    base = static_cast<int64_t>(shm->files[fd.file].size);
  }
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  fd.pos = static_cast<uint64_t>(base + off);
  return base + off;
}

// Standard streams ---------------------------------------------------------------------------------

ssize_t
outWrite(int which, void const * buf, size_t n)
{
  Decision d = decide(OP_OUT, -1);
  Shm & s = *shm;
  if (d.fault == F_OUT_FAIL) {
    if ((d.arg & 2) != 0) {
      s.out_dead |= 1U << which;
    }
    note(OP_OUT, F_OUT_FAIL, which, 0, n, -1);
    errno = (d.arg & 1) != 0 ? ENOSPC : EIO;
    return -1;
  }
  if (((s.out_dead >> which) & 1) != 0) {
    note(OP_OUT, F_OUT_FAIL, which, 0, n, -1);
    errno = EIO;
    return -1;
  }
  size_t m = n;
  if (d.fault == F_OUT_SHORT) {
    if (m > 1) {
      m = 1 + d.arg % (m - 1);
    } else {
      d.fault = F_NONE;
    }
  }
  size_t const room = out_cap - s.nout[which];
  size_t const c = std::min(m, room);
  memcpy(s.out[which] + s.nout[which], buf, c);
  s.nout[which] += static_cast<uint32_t>(c);
  // The text itself is not hashed: HDF5's error stacks print thread numbers and the like.
  note(OP_OUT, d.fault, which, 0, 0, 0);
  if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
    crashNow();
  }
  return static_cast<ssize_t>(m);
}

// stdio on top of simulated descriptors -------------------------------------------------------------

struct Cookie {
  int fd;
  FILE * f;
  bool used;
};
Cookie cookies[max_fd];

ssize_t
ckRead(void * c, char * buf, size_t n)
{
  auto * ck = static_cast<Cookie *>(c);
  Fd * fd = fdOf(ck->fd);
  if (fd == nullptr) {
    errno = EBADF;
    return -1;
  }
  return sread(*fd, buf, n, -1, true);
}

ssize_t
ckWrite(void * c, char const * buf, size_t n)
{
  auto * ck = static_cast<Cookie *>(c);
  size_t done = 0;
  // The C library retries short writes itself when it owns the descriptor.
  while (done < n) {
    ssize_t r = 0;
    if (ck->fd == 1 || ck->fd == 2) {
      r = outWrite(ck->fd - 1, buf + done, n - done);
    } else {
      Fd * fd = fdOf(ck->fd);
      if (fd == nullptr) {
        errno = EBADF;
        return 0;
      }
      r = swrite(*fd, buf + done, n - done, -1, true);
    }
    if (r < 0) {
      return static_cast<ssize_t>(done);
    }
    done += static_cast<size_t>(r);
  }
  return static_cast<ssize_t>(done);
}

int
ckSeek(void * c, off64_t * off, int whence)
{
  auto * ck = static_cast<Cookie *>(c);
  Fd * fd = fdOf(ck->fd);
  if (fd == nullptr) {
    errno = ESPIPE;
    return -1;
  }
  int64_t const r = sseek(*fd, *off, whence);
  if (r < 0) {
    return -1;
  }
  *off = r;
  return 0;
}

int
ckClose(void * c)
{
  auto * ck = static_cast<Cookie *>(c);
  ck->used = false;
  if (ck->fd < fd_base) {
    return 0;
  }
  if (fdOf(ck->fd) == nullptr) {
    errno = EBADF;
    return -1;
  }
  return sclose(ck->fd);
}

FILE *
cookieOpen(int fd, char const * mode)
{
  for (auto & ck : cookies) {
    if (!ck.used) {
      ck.used = true;
      ck.fd = fd;
      cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
      bool const armed = alloc_armed;
      alloc_armed = false;
      ck.f = fopencookie(&ck, mode, io);
      alloc_armed = armed;
      if (ck.f == nullptr) {
        ck.used = false;
      }
      return ck.f;
    }
  }
  return nullptr;
}

int
modeFlags(char const * m)
{
  bool const plus = strchr(m, '+') != nullptr;
  int fl = 0;
  switch (m[0]) {
  case 'r':
    fl = plus ? O_RDWR : O_RDONLY;
    break;
  case 'w':
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    break;
  default:
    fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    break;
  }
  if (strchr(m, 'x') != nullptr) {
    fl |= O_EXCL;
  }
  return fl;
}

template <class F>
F
real(char const * name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) (real<decltype(&::name)>(#name))

} // namespace

//==================================================================================================
// Clock
//==================================================================================================

void
clockAdvance(int64_t ns)
{
  shm->now += ns;
  shm->mono += ns;
  shm->covered += ns;
}

void
clockStep(int64_t ns)
{
  shm->now += ns;
  note(OP_CLOCK, ns < 0 ? F_CLOCK_BACK : F_CLOCK_FWD, -1, 0, static_cast<uint64_t>(ns < 0 ? -ns : ns), 0);
}

int64_t
clockPeek()
{
  return shm->now;
}

namespace
{
int64_t
clockRead(bool monotonic)
{
  Shm & s = *shm;
  Decision const d = decide(OP_CLOCK, -1);
  if (d.fault == F_CLOCK_BACK) {
    s.now -= static_cast<int64_t>(d.arg) * 1000000LL;
    note(OP_CLOCK, F_CLOCK_BACK, -1, 0, d.arg, 0);
  } else if (d.fault == F_CLOCK_FWD) {
    s.now += static_cast<int64_t>(d.arg) * 1000000LL;
    note(OP_CLOCK, F_CLOCK_FWD, -1, 0, d.arg, 0);
  }
  s.now += s.tick;
  s.mono += s.tick;
  s.covered += s.tick;
  return monotonic ? s.mono : s.now;
}
} // namespace

//==================================================================================================
// Memory
//==================================================================================================

namespace
{

struct Blk {
  void * p;
  size_t n;
  uint8_t state; // 1 live, 2 freed
  uint8_t isnew;
  void * base;
  uint32_t next; // freed block of the same size (slot + 1)
};
constexpr uint32_t blk_cap = 1U << 19;
Blk * blks = nullptr;
uint32_t nblks = 0;
constexpr size_t guard = 32;

// Freed blocks by size, last freed first
struct FreeList {
  size_t n;
  uint32_t head;
};
constexpr uint32_t free_cap = 1U << 12;
FreeList free_lists[free_cap];
uint32_t nfree_lists = 0;

FreeList *
freeList(size_t n)
{
  auto h = static_cast<uint32_t>(mix64(n)) & (free_cap - 1);
  while (free_lists[h].n != 0 && free_lists[h].n != n) {
    h = (h + 1) & (free_cap - 1);
  }
  if (free_lists[h].n == 0) {
    if (n == 0 || nfree_lists > free_cap / 2) {
      return nullptr;
    }
    ++nfree_lists;
    free_lists[h].n = n;
  }
  return &free_lists[h];
}

uint32_t
blkSlot(void * p)
{
  auto h = static_cast<uint32_t>(mix64(reinterpret_cast<uintptr_t>(p)));
  h &= blk_cap - 1;
  while (blks[h].p != nullptr && blks[h].p != p) {
    h = (h + 1) & (blk_cap - 1);
  }
  return h;
}

void
allocBad(char const * what, size_t n, bool isnew)
{
  // (HDF5 misuses blocks of its own, from malloc, when one of its allocations fails)
  if (shm->alloc_bad == 0 && (isnew || !alloc_new_only)) {
    shm->alloc_bad = 1;
    snprintf(shm->alloc_msg, sizeof(shm->alloc_msg), "%s (block of %zu bytes)", what, n);
  }
}

// The memory is used up: requests of at least this size fail until the process ends.
size_t alloc_limit = SIZE_MAX;

bool
allocFails(size_t n)
{
  if (!alloc_armed || !here()) {
    return false;
  }
  Decision d = decide(OP_ALLOC, -1);
  if (d.fault == F_ALLOC_FAIL && d.arg != 0) {
    alloc_limit = d.arg & ~large_only;
    if ((d.arg & large_only) != 0) {
      d.fault = F_NONE;
    }
  }
  if (d.fault == F_ALLOC_FAIL || n >= alloc_limit) {
    note(OP_ALLOC, F_ALLOC_FAIL, -1, 0, 0, -1);
    return true;
  }
  if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
    crashNow();
  }
  return false;
}

constexpr size_t alloc_max = size_t{1} << 30; // the simulated machine has no more in one piece

size_t
realUsable(void * p)
{
  static auto const r = reinterpret_cast<size_t (*)(void *)>(dlsym(RTLD_NEXT, "malloc_usable_size"));
  return r(p);
}

void *
rawAlloc(size_t n, size_t align, bool isnew)
{
  if (n > alloc_max && here()) {
    errno = ENOMEM;
    return nullptr;
  }
  if (alloc_track && here() && blks != nullptr && nblks < blk_cap / 2) {
    size_t const a = align < 16 ? 16 : align;
    if (alloc_reuse && a == 16) {
      FreeList * l = freeList(n);
      if (l != nullptr && l->head != 0) {
        auto & b = blks[l->head - 1];
        l->head = b.next;
        auto const * q = static_cast<uint8_t const *>(b.p);
        for (size_t i = 0; i < n; ++i) {
          if (q[i] != 0xDD) {
            allocBad("memory written after its release", n, b.isnew != 0);
            break;
          }
        }
        memset(b.p, shm->fill, n);
        b.state = 1;
        b.isnew = static_cast<uint8_t>(isnew ? 1 : 0);
        if (isnew) {
          shm->live_new++;
        }
        return b.p;
      }
    }
    size_t const front = a > guard ? a : guard;
    auto * base = static_cast<uint8_t *>(__libc_memalign(a, front + n + guard));
    if (base == nullptr) {
      return nullptr;
    }
    memset(base, 0xEE, front);
    memset(base + front, shm->fill, n);
    memset(base + front + n, 0xEE, guard);
    void * p = base + front;
    uint32_t const h = blkSlot(p);
    if (blks[h].p == nullptr) {
      ++nblks;
    }
    blks[h] = {p, n, 1, static_cast<uint8_t>(isnew ? 1 : 0), base, 0};
    if (isnew) {
      shm->live_new++;
    }
    return p;
  }
  void * p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
  if (alloc_hook != nullptr && p != nullptr) {
    alloc_hook(p, realUsable(p));
  }
  if (p != nullptr && here()) {
    memset(p, shm->fill, n);
  }
  return p;
}

bool
rawFree(void * p)
{
  if (p == nullptr) {
    return true;
  }
  if (blks != nullptr && active) {
    uint32_t const h = blkSlot(p);
    if (blks[h].p == p) {
      auto & b = blks[h];
      if (b.state == 2) {
        allocBad("memory released twice", b.n, b.isnew != 0);
        return true;
      }
      auto const * q = static_cast<uint8_t const *>(p);
      for (size_t i = 0; i < guard; ++i) {
        if (q[b.n + i] != 0xEE || q[-1 - static_cast<ptrdiff_t>(i)] != 0xEE) {
          allocBad("memory written outside its block", b.n, b.isnew != 0);
          break;
        }
      }
      b.state = 2;
      memset(p, 0xDD, b.n);
      if (b.isnew != 0) {
        shm->live_new--;
      }
      if (alloc_reuse && static_cast<uint8_t *>(b.p) - static_cast<uint8_t *>(b.base) == static_cast<ptrdiff_t>(guard)) {
        FreeList * l = freeList(b.n);
        if (l != nullptr) {
          b.next = l->head;
          l->head = h + 1;
        }
      }
      return true; // otherwise quarantined until the process ends
    }
  }
  if (free_hook != nullptr) {
    free_hook(p, realUsable(p));
  }
  __libc_free(p);
  return true;
}

} // namespace

void
allocCheckAll()
{
  if (blks == nullptr || !alloc_track) {
    return;
  }
  for (uint32_t h = 0; h < blk_cap; ++h) {
    auto const & b = blks[h];
    if (b.p == nullptr) {
      continue;
    }
    auto const * q = static_cast<uint8_t const *>(b.p);
    for (size_t i = 0; i < guard; ++i) {
      if (q[b.n + i] != 0xEE || q[-1 - static_cast<ptrdiff_t>(i)] != 0xEE) {
        allocBad("memory written outside its block", b.n, b.isnew != 0);
        break;
      }
    }
    if (b.state == 2) {
      for (size_t i = 0; i < b.n; ++i) {
        if (q[i] != 0xDD) {
          allocBad("memory written after its release", b.n, b.isnew != 0);
          break;
        }
      }
    }
  }
}

int64_t
liveNew()
{
  return shm->live_new;
}

void
enterProcess()
{
  active = true;
  alloc_limit = SIZE_MAX;
  other_thread_flag = false;
  for (auto & f : fdt) {
    f = Fd{};
  }
  blks = static_cast<Blk *>(mmap(nullptr, sizeof(Blk) * blk_cap, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  // standard streams
  stdout = cookieOpen(1, "w");
  stderr = cookieOpen(2, "w");
  setvbuf(stdout, nullptr, shm->tty_out != 0 ? _IOLBF : _IOFBF, 4096);
  setvbuf(stderr, nullptr, _IONBF, 0);
  static __gnu_cxx::stdio_sync_filebuf<char> cout_buf(stdout);
  static __gnu_cxx::stdio_sync_filebuf<char> cerr_buf(stderr);
  std::cout.rdbuf(&cout_buf);
  std::cerr.rdbuf(&cerr_buf);
  std::clog.rdbuf(&cerr_buf);
}

void
joinProcess()
{
  other_thread_flag = false;
}

} // namespace sim

//==================================================================================================
// The C library entry points, as seen by every library in the process
//==================================================================================================

using namespace sim;

extern "C" {

int
open(char const * path, int flags, ...)
{
  mode_t mode = 0;
  if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (simPath(path)) {
    return sopen(path, flags);
  }
  if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0 && denied(path)) {
    return -1;
  }
  static auto const r = reinterpret_cast<int (*)(char const *, int, ...)>(dlsym(RTLD_NEXT, "open"));
  return r(path, flags, mode);
}
int
open64(char const * path, int flags, ...)
{
  mode_t mode = 0;
  if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return open(path, flags, mode);
}
int
__open_2(char const * path, int flags)
{
  return open(path, flags, 0644);
}
int
__open64_2(char const * path, int flags)
{
  return open(path, flags, 0644);
}
int
openat(int dirfd, char const * path, int flags, ...)
{
  mode_t mode = 0;
  if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (simPath(path)) {
    return sopen(path, flags);
  }
  if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0 && denied(path)) {
    return -1;
  }
  static auto const r =
      reinterpret_cast<int (*)(int, char const *, int, ...)>(dlsym(RTLD_NEXT, "openat"));
  return r(dirfd, path, flags, mode);
}
int
creat(char const * path, mode_t mode)
{
  return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

ssize_t
read(int fd, void * buf, size_t n)
{
  if (Fd * f = fdOf(fd)) {
    return sread(*f, buf, n, -1, false);
  }
  static auto const r = REAL(read);
  return r(fd, buf, n);
}
ssize_t
__read_chk(int fd, void * buf, size_t n, size_t)
{
  return read(fd, buf, n);
}
ssize_t
pread(int fd, void * buf, size_t n, off_t off)
{
  if (Fd * f = fdOf(fd)) {
    return sread(*f, buf, n, off, false);
  }
  static auto const r = REAL(pread);
  return r(fd, buf, n, off);
}
ssize_t
pread64(int fd, void * buf, size_t n, off64_t off)
{
  return pread(fd, buf, n, off);
}
ssize_t
readv(int fd, struct iovec const * iov, int cnt)
{
  if (Fd * f = fdOf(fd)) {
    for (int i = 0; i < cnt; ++i) {
      if (iov[i].iov_len > 0) {
        return sread(*f, iov[i].iov_base, iov[i].iov_len, -1, false);
      }
    }
    return 0;
  }
  static auto const r = REAL(readv);
  return r(fd, iov, cnt);
}
ssize_t
write(int fd, void const * buf, size_t n)
{
  if (Fd * f = fdOf(fd)) {
    return swrite(*f, buf, n, -1, false);
  }
  if (here() && (fd == 1 || fd == 2)) {
    return outWrite(fd - 1, buf, n);
  }
  static auto const r = REAL(write);
  return r(fd, buf, n);
}
ssize_t
pwrite(int fd, void const * buf, size_t n, off_t off)
{
  if (Fd * f = fdOf(fd)) {
    return swrite(*f, buf, n, off, false);
  }
  static auto const r = REAL(pwrite);
  return r(fd, buf, n, off);
}
ssize_t
pwrite64(int fd, void const * buf, size_t n, off64_t off)
{
  return pwrite(fd, buf, n, off);
}
ssize_t
writev(int fd, struct iovec const * iov, int cnt)
{
  if (Fd * f = fdOf(fd)) {
    // One operation on the concatenation, as the kernel does.
    Unarmed const unarmed;
    std::string all;
    for (int i = 0; i < cnt; ++i) {
      all.append(static_cast<char const *>(iov[i].iov_base), iov[i].iov_len);
    }
    return swrite(*f, all.data(), all.size(), -1, false);
  }
  if (here() && (fd == 1 || fd == 2)) {
    ssize_t t = 0;
    for (int i = 0; i < cnt; ++i) {
      ssize_t const k = outWrite(fd - 1, iov[i].iov_base, iov[i].iov_len);
      if (k < 0) {
        return t > 0 ? t : -1;
      }
      t += k;
      if (static_cast<size_t>(k) < iov[i].iov_len) {
        break;
      }
    }
    return t;
  }
  static auto const r = REAL(writev);
  return r(fd, iov, cnt);
}
off_t
lseek(int fd, off_t off, int whence)
{
  if (Fd * f = fdOf(fd)) {
    return sseek(*f, off, whence);
  }
  static auto const r = REAL(lseek);
  return r(fd, off, whence);
}
off64_t
lseek64(int fd, off64_t off, int whence)
{
  return lseek(fd, off, whence);
}
int
ftruncate(int fd, off_t n)
{
  if (Fd * f = fdOf(fd)) {
    f->wrote = true;
    return strunc(f->file, n);
  }
  static auto const r = REAL(ftruncate);
  return r(fd, n);
}
int
ftruncate64(int fd, off64_t n)
{
  return ftruncate(fd, n);
}
int
truncate(char const * path, off_t n)
{
  if (simPath(path)) {
    int const i = lookup(normalise(path));
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    return strunc(i, n);
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(truncate);
  return r(path, n);
}
int
posix_fallocate(int fd, off_t off, off_t len)
{
  if (Fd * f = fdOf(fd)) {
    auto & sf = shm->files[f->file];
    if (static_cast<uint64_t>(off + len) > sf.size) {
      return strunc(f->file, off + len) == 0 ? 0 : errno;
    }
    return 0;
  }
  static auto const r = REAL(posix_fallocate);
  return r(fd, off, len);
}
int
close(int fd)
{
  if (fdOf(fd) != nullptr) {
    return sclose(fd);
  }
  static auto const r = REAL(close);
  return r(fd);
}
int
fsync(int fd)
{
  if (Fd * f = fdOf(fd)) {
    Decision const d = decide(OP_SYNC, f->file);
    bool const fail = d.fault == F_EIO_WRITE;
    note(OP_SYNC, d.fault, f->file, 0, 0, fail ? -1 : 0);
    if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
      crashNow();
    }
    errno = EIO;
    return fail ? -1 : 0;
  }
  static auto const r = REAL(fsync);
  return r(fd);
}
int
fdatasync(int fd)
{
  if (fdOf(fd) != nullptr) {
    return fsync(fd);
  }
  static auto const r = REAL(fdatasync);
  return r(fd);
}
int
dup(int fd)
{
  if (Fd * f = fdOf(fd)) {
    for (int k = 0; k < max_fd; ++k) {
      if (!fdt[k].used) {
        fdt[k] = *f;
        return fd_base + k;
      }
    }
    errno = EMFILE;
    return -1;
  }
  static auto const r = REAL(dup);
  return r(fd);
}
int
flock(int fd, int op)
{
  if (fdOf(fd) != nullptr) {
    return 0;
  }
  static auto const r = REAL(flock);
  return r(fd, op);
}
int
fcntl(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  void * arg = va_arg(ap, void *);
  va_end(ap);
  if (Fd * f = fdOf(fd)) {
    if (cmd == F_GETFL) {
      return f->flags;
    }
    return 0;
  }
  static auto const r = reinterpret_cast<int (*)(int, int, ...)>(dlsym(RTLD_NEXT, "fcntl"));
  return r(fd, cmd, arg);
}
int
fcntl64(int fd, int cmd, ...)
{
  va_list ap;
  va_start(ap, cmd);
  void * arg = va_arg(ap, void *);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int
ioctl(int fd, unsigned long req, ...)
{
  va_list ap;
  va_start(ap, req);
  void * arg = va_arg(ap, void *);
  va_end(ap);
  if (Fd * f = fdOf(fd)) {
    if (req == FIONREAD) {
      auto const & sf = shm->files[f->file];
      *static_cast<int *>(arg) = static_cast<int>(sf.size > f->pos ? sf.size - f->pos : 0);
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  static auto const r = reinterpret_cast<int (*)(int, unsigned long, ...)>(dlsym(RTLD_NEXT, "ioctl"));
  return r(fd, req, arg);
}
int
poll(struct pollfd * p, nfds_t n, int timeout)
{
  if (n >= 1 && fdOf(p[0].fd) != nullptr) {
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = p[i].events & (POLLIN | POLLOUT);
    }
    return static_cast<int>(n);
  }
  static auto const r = REAL(poll);
  return r(p, n, timeout);
}
int
fstat(int fd, struct stat * st)
{
  if (Fd * f = fdOf(fd)) {
    return fillStat(f->file, st);
  }
  static auto const r = REAL(fstat);
  return r(fd, st);
}
int
fstat64(int fd, struct stat64 * st)
{
  return fstat(fd, reinterpret_cast<struct stat *>(st));
}
int
stat(char const * __restrict path, struct stat * __restrict st)
{
  if (simPath(path)) {
    return sstat(path, st);
  }
  static auto const r = reinterpret_cast<int (*)(char const *, struct stat *)>(dlsym(RTLD_NEXT, "stat"));
  return r(path, st);
}
int
stat64(char const * __restrict path, struct stat64 * __restrict st)
{
  return stat(path, reinterpret_cast<struct stat *>(st));
}
int
lstat(char const * __restrict path, struct stat * __restrict st)
{
  if (simPath(path)) {
    return sstat(path, st);
  }
  static auto const r = reinterpret_cast<int (*)(char const *, struct stat *)>(dlsym(RTLD_NEXT, "lstat"));
  return r(path, st);
}
int
lstat64(char const * __restrict path, struct stat64 * __restrict st)
{
  return lstat(path, reinterpret_cast<struct stat *>(st));
}
int
access(char const * path, int mode)
{
  if (simPath(path)) {
    struct stat st;
    return sstat(path, &st);
  }
  static auto const r = REAL(access);
  return r(path, mode);
}
char *
realpath(char const * __restrict path, char * __restrict out)
{
  if (simPath(path)) {
    Unarmed const unarmed;
    std::string const p = normalise(path);
    if (lookup(p) < 0) {
      errno = ENOENT;
      return nullptr;
    }
    if (out == nullptr) {
      out = static_cast<char *>(malloc(PATH_MAX));
    }
    strcpy(out, p.c_str());
    return out;
  }
  static auto const r = REAL(realpath);
  return r(path, out);
}
ssize_t
readlink(char const * __restrict path, char * __restrict buf, size_t n)
{
  if (simPath(path)) {
    errno = EINVAL;
    return -1;
  }
  static auto const r = REAL(readlink);
  return r(path, buf, n);
}
int
rename(char const * a, char const * b)
{
  if (simPath(a) || simPath(b)) {
    Unarmed const unarmed;
    std::string const pa = normalise(a);
    std::string const pb = normalise(b);
    int const i = lookup(pa);
    Decision const d = decide(OP_NAME, i);
    if (d.fault == F_META_FAIL || d.fault == F_EIO_WRITE) {
      note(OP_NAME, d.fault, i, 0, 0, -1);
      errno = EIO;
      return -1;
    }
    if (i < 0 || pb.size() >= sizeof(SFile::path) || !parentExists(pb)) {
      errno = ENOENT;
      return -1;
    }
    int const j = lookup(pb);
    if (j >= 0 && j != i) {
      setSize(shm->files[j], 0);
      shm->files[j].used = 0;
    }
    memcpy(shm->files[i].path, pb.c_str(), pb.size() + 1);
    hashBytes(pb.data(), pb.size());
    note(OP_NAME, d.fault, i, 0, 1, 0);
    if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
      crashNow();
    }
    return 0;
  }
  if (denied(a) || denied(b)) {
    return -1;
  }
  static auto const r = REAL(rename);
  return r(a, b);
}
int
unlink(char const * path)
{
  if (simPath(path)) {
    int const i = lookup(normalise(path));
    Decision const d = decide(OP_NAME, i);
    if (d.fault == F_META_FAIL) {
      note(OP_NAME, d.fault, i, 0, 0, -1);
      errno = EIO;
      return -1;
    }
    note(OP_NAME, d.fault, i, 0, 2, i < 0 ? -1 : 0);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    setSize(shm->files[i], 0);
    shm->files[i].used = 0;
    if (d.fault == F_CRASH_AFTER || d.fault == F_CRASH_MID) {
      crashNow();
    }
    return 0;
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(unlink);
  return r(path);
}
int
unlinkat(int dirfd, char const * path, int flags)
{
  if (simPath(path)) {
    return unlink(path);
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(unlinkat);
  return r(dirfd, path, flags);
}
int
remove(char const * path)
{
  if (simPath(path)) {
    return unlink(path);
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(remove);
  return r(path);
}
int
mkdir(char const * path, mode_t mode)
{
  if (simPath(path)) {
    Unarmed const unarmed;
    std::string const p = normalise(path);
    if (lookup(p) >= 0) {
      errno = EEXIST;
      return -1;
    }
    return create(p, true) >= 0 ? 0 : -1;
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(mkdir);
  return r(path, mode);
}
int
chmod(char const * path, mode_t mode)
{
  if (simPath(path)) {
    struct stat st;
    return sstat(path, &st);
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(chmod);
  return r(path, mode);
}
int
rmdir(char const * path)
{
  if (simPath(path)) {
    errno = EPERM;
    return -1;
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(rmdir);
  return r(path);
}
int
symlink(char const * a, char const * b)
{
  if (simPath(b)) {
    errno = EPERM;
    return -1;
  }
  if (denied(b)) {
    return -1;
  }
  static auto const r = REAL(symlink);
  return r(a, b);
}
int
link(char const * a, char const * b)
{
  if (simPath(b)) {
    errno = EPERM;
    return -1;
  }
  if (denied(b)) {
    return -1;
  }
  static auto const r = REAL(link);
  return r(a, b);
}
int
mkdirat(int dirfd, char const * path, mode_t mode)
{
  if (simPath(path)) {
    return mkdir(path, mode);
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(mkdirat);
  return r(dirfd, path, mode);
}
int
renameat(int fa, char const * a, int fb, char const * b)
{
  if (simPath(a) || simPath(b)) {
    return rename(a, b);
  }
  if (denied(a) || denied(b)) {
    return -1;
  }
  static auto const r = REAL(renameat);
  return r(fa, a, fb, b);
}
int
openat64(int dirfd, char const * path, int flags, ...)
{
  mode_t mode = 0;
  if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return openat(dirfd, path, flags, mode);
}
int
fstatat(int dirfd, char const * __restrict path, struct stat * __restrict st, int flags)
{
  if (simPath(path)) {
    return sstat(path, st);
  }
  static auto const r = REAL(fstatat);
  return r(dirfd, path, st, flags);
}
int
fstatat64(int dirfd, char const * __restrict path, struct stat64 * __restrict st, int flags)
{
  return fstatat(dirfd, path, reinterpret_cast<struct stat *>(st), flags);
}
int
faccessat(int dirfd, char const * path, int mode, int flags)
{
  if (simPath(path)) {
    struct stat st;
    return sstat(path, &st);
  }
  static auto const r = REAL(faccessat);
  return r(dirfd, path, mode, flags);
}
int
fchmod(int fd, mode_t mode)
{
  if (fdOf(fd) != nullptr) {
    return 0;
  }
  static auto const r = REAL(fchmod);
  return r(fd, mode);
}
// Names of temporary files do not depend on anything outside the simulation.
int
mkostemps(char * path, int suffix, int flags)
{
  size_t const len = strlen(path);
  if (!simPath(path)) {
    if (denied(path)) {
      return -1;
    }
    static auto const r = REAL(mkostemps);
    return r(path, suffix, flags);
  }
  if (suffix < 0 || len < 6 + static_cast<size_t>(suffix) || memcmp(path + len - 6 - static_cast<size_t>(suffix), "XXXXXX", 6) != 0) {
    errno = EINVAL;
    return -1;
  }
  for (int k = 0; k < 100; ++k) {
    char num[16];
    snprintf(num, sizeof(num), "tmp%03d", k);
    memcpy(path + len - 6 - static_cast<size_t>(suffix), num, 6);
    int const fd = sopen(path, O_RDWR | O_CREAT | O_EXCL | flags);
    if (fd >= 0 || errno != EEXIST) {
      return fd;
    }
  }
  return -1;
}
int
mkostemp(char * path, int flags)
{
  return mkostemps(path, 0, flags);
}
int
mkstemps(char * path, int suffix)
{
  return mkostemps(path, suffix, 0);
}
int
mkstemp(char * path)
{
  return mkostemps(path, 0, 0);
}
int
mkstemp64(char * path)
{
  return mkostemps(path, 0, 0);
}
// Callers that copy inside the kernel fall back to reading and writing.
ssize_t
copy_file_range(int in, off64_t * pin, int out, off64_t * pout, size_t n, unsigned int flags)
{
  if (fdOf(in) != nullptr || fdOf(out) != nullptr) {
    errno = ENOSYS;
    return -1;
  }
  static auto const r = REAL(copy_file_range);
  return r(in, pin, out, pout, n, flags);
}
ssize_t
sendfile(int out, int in, off_t * off, size_t n)
{
  if (fdOf(in) != nullptr || fdOf(out) != nullptr) {
    errno = EINVAL;
    return -1;
  }
  static auto const r = REAL(sendfile);
  return r(out, in, off, n);
}
// Mappings of simulated files are copies, so a shared mapping cannot be written.
void *
mmap(void * addr, size_t len, int prot, int flags, int fd, off_t off) noexcept
{
  Fd * const f = fd >= fd_base ? fdOf(fd) : nullptr;
  if (f == nullptr) {
    return reinterpret_cast<void *>(syscall(SYS_mmap, addr, len, prot, flags, fd, off));
  }
  if ((flags & MAP_SHARED) != 0 && (prot & PROT_WRITE) != 0) {
    errno = ENODEV;
    return MAP_FAILED;
  }
  auto * const p = reinterpret_cast<char *>(
      syscall(SYS_mmap, nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED) {
    return p;
  }
  Decision const d = decide(OP_READ, f->file);
  auto const & file = shm->files[f->file];
  if (d.fault == F_EIO_READ) {
    note(OP_READ, F_EIO_READ, f->file, static_cast<uint64_t>(off), len, -1);
    syscall(SYS_munmap, p, len);
    errno = EIO;
    return MAP_FAILED;
  }
  auto const o = static_cast<uint64_t>(off);
  size_t const m = o >= file.size ? 0 : std::min<uint64_t>(len, file.size - o);
  memcpy(p, shm->arena + file.off + o, m);
  note(OP_READ, F_NONE, f->file, o, len, static_cast<int64_t>(m));
  return p;
}
void *
mmap64(void * addr, size_t len, int prot, int flags, int fd, off64_t off) noexcept
{
  return mmap(addr, len, prot, flags, fd, off);
}
int
chown(char const * path, uid_t u, gid_t g)
{
  if (simPath(path)) {
    errno = EPERM;
    return -1;
  }
  if (denied(path)) {
    return -1;
  }
  static auto const r = REAL(chown);
  return r(path, u, g);
}
int
statvfs(char const * __restrict path, struct statvfs * __restrict v)
{
  if (simPath(path)) {
    memset(v, 0, sizeof(*v));
    v->f_bsize = v->f_frsize = 4096;
    v->f_blocks = 1U << 20;
    uint64_t const room =
        shm->capacity == 0 ? (1ULL << 32)
                           : (shm->capacity > shm->bytes_on_disk ? shm->capacity - shm->bytes_on_disk : 0);
    v->f_bfree = v->f_bavail = room / 4096;
    v->f_namemax = 150;
    return 0;
  }
  static auto const r = reinterpret_cast<int (*)(char const *, struct statvfs *)>(dlsym(RTLD_NEXT, "statvfs"));
  return r(path, v);
}
DIR *
opendir(char const * path)
{
  if (simPath(path)) {
    errno = ENOENT;
    return nullptr;
  }
  static auto const r = REAL(opendir);
  return r(path);
}

FILE *
fopen(char const * __restrict path, char const * __restrict mode)
{
  if (simPath(path)) {
    // the stream is allocated before the file is opened
    if (allocFails(sizeof(FILE))) {
      errno = ENOMEM;
      return nullptr;
    }
    Unarmed const unarmed;
    int const fd = sopen(path, modeFlags(mode));
    if (fd < 0) {
      return nullptr;
    }
    FILE * f = cookieOpen(fd, mode);
    if (f == nullptr) {
      sclose(fd);
      errno = ENOMEM;
    }
    return f;
  }
  if (strpbrk(mode, "wa+") != nullptr && denied(path)) {
    return nullptr;
  }
  static auto const r = REAL(fopen);
  return r(path, mode);
}
FILE *
fopen64(char const * __restrict path, char const * __restrict mode)
{
  return fopen(path, mode);
}
FILE *
freopen(char const * __restrict path, char const * __restrict mode, FILE * __restrict f)
{
  if (active && path != nullptr && simPath(path)) {
    fclose(f);
    return fopen(path, mode);
  }
  if (strpbrk(mode, "wa+") != nullptr && denied(path)) {
    return nullptr;
  }
  static auto const r = REAL(freopen);
  return r(path, mode, f);
}
FILE *
fdopen(int fd, char const * mode)
{
  if (fdOf(fd) != nullptr) {
    return cookieOpen(fd, mode);
  }
  static auto const r = REAL(fdopen);
  return r(fd, mode);
}
int
fileno(FILE * f)
{
  if (active) {
    for (auto const & ck : cookies) {
      if (ck.used && ck.f == f) {
        return ck.fd;
      }
    }
  }
  static auto const r = REAL(fileno);
  return r(f);
}
int
isatty(int fd)
{
  if (here() && (fd == 1 || fd == 2)) {
    return fd == 1 ? shm->tty_out : shm->tty_err;
  }
  if (fdOf(fd) != nullptr) {
    errno = ENOTTY;
    return 0;
  }
  static auto const r = REAL(isatty);
  return r(fd);
}

// Clock --------------------------------------------------------------------------------------------

int
clock_gettime(clockid_t id, struct timespec * ts)
{
  if (here()) {
    bool const mono = !(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
    int64_t const t = clockRead(mono);
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
  }
  static auto const r = REAL(clock_gettime);
  return r(id, ts);
}
int
gettimeofday(struct timeval * __restrict tv, void * __restrict tz)
{
  if (here()) {
    int64_t const t = clockRead(false);
    tv->tv_sec = t / 1000000000LL;
    tv->tv_usec = (t % 1000000000LL) / 1000;
    return 0;
  }
  static auto const r = REAL(gettimeofday);
  return r(tv, tz);
}
time_t
time(time_t * out)
{
  if (here()) {
    time_t const t = clockRead(false) / 1000000000LL;
    if (out != nullptr) {
      *out = t;
    }
    return t;
  }
  static auto const r = REAL(time);
  return r(out);
}
clock_t
clock()
{
  if (here()) {
    return clockRead(true) / 1000;
  }
  static auto const r = REAL(clock);
  return r();
}

// Memory -------------------------------------------------------------------------------------------

void *
malloc(size_t n)
{
  if (allocFails(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return rawAlloc(n, 16, false);
}
void
free(void * p)
{
  rawFree(p);
}
void *
calloc(size_t a, size_t b)
{
  if (allocFails(a * b)) {
    errno = ENOMEM;
    return nullptr;
  }
  size_t n = 0;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (n > alloc_max && here()) {
    errno = ENOMEM;
    return nullptr;
  }
  if (alloc_track && here()) {
    void * p = rawAlloc(n, 16, false);
    if (p != nullptr) {
      memset(p, 0, n);
    }
    return p;
  }
  void * p = __libc_calloc(a, b);
  if (alloc_hook != nullptr && p != nullptr) {
    alloc_hook(p, realUsable(p));
  }
  return p;
}
void *
realloc(void * p, size_t n)
{
  if (p == nullptr) {
    return malloc(n);
  }
  if (allocFails(n) || (n > alloc_max && here())) {
    errno = ENOMEM;
    return nullptr;
  }
  if (blks != nullptr && active) {
    uint32_t const h = blkSlot(p);
    if (blks[h].p == p) {
      size_t const old = blks[h].n;
      if (blks[h].state == 2) {
        allocBad("memory used after release", old, blks[h].isnew != 0);
        return nullptr;
      }
      void * q = rawAlloc(n, 16, false);
      if (q != nullptr) {
        memcpy(q, p, old < n ? old : n);
        rawFree(p);
      }
      return q;
    }
  }
  if (alloc_hook != nullptr) {
    void * q = rawAlloc(n, 16, false);
    if (q != nullptr) {
      size_t const old = realUsable(p);
      memcpy(q, p, old < n ? old : n);
      rawFree(p);
    }
    return q;
  }
  return __libc_realloc(p, n);
}
void *
memalign(size_t a, size_t n)
{
  if (allocFails(n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return rawAlloc(n, a, false);
}
void *
aligned_alloc(size_t a, size_t n)
{
  return memalign(a, n);
}
int
posix_memalign(void ** out, size_t a, size_t n)
{
  if (allocFails(n)) {
    return ENOMEM;
  }
  void * p = rawAlloc(n, a, false);
  if (p == nullptr) {
    return ENOMEM;
  }
  *out = p;
  return 0;
}
size_t
malloc_usable_size(void * p)
{
  if (p == nullptr) {
    return 0;
  }
  if (blks != nullptr && active) {
    uint32_t const h = blkSlot(p);
    if (blks[h].p == p) {
      return blks[h].n;
    }
  }
  static auto const r = REAL(malloc_usable_size);
  return r(p);
}

} // extern "C"

void *
operator new(size_t n)
{
  if (allocFails(n)) {
    throw std::bad_alloc();
  }
  void * p = rawAlloc(n == 0 ? 1 : n, 16, true);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void *
operator new[](size_t n)
{
  return operator new(n);
}
void *
operator new(size_t n, std::nothrow_t const &) noexcept
{
  if (allocFails(n)) {
    return nullptr;
  }
  return rawAlloc(n == 0 ? 1 : n, 16, true);
}
void *
operator new[](size_t n, std::nothrow_t const & t) noexcept
{
  return operator new(n, t);
}
void *
operator new(size_t n, std::align_val_t a)
{
  if (allocFails(n)) {
    throw std::bad_alloc();
  }
  void * p = rawAlloc(n == 0 ? 1 : n, static_cast<size_t>(a), true);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  return p;
}
void *
operator new[](size_t n, std::align_val_t a)
{
  return operator new(n, a);
}
void *
operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept
{
  if (allocFails(n)) {
    return nullptr;
  }
  return rawAlloc(n == 0 ? 1 : n, static_cast<size_t>(a), true);
}
void *
operator new[](size_t n, std::align_val_t a, std::nothrow_t const & t) noexcept
{
  return operator new(n, a, t);
}
void
operator delete(void * p) noexcept
{
  rawFree(p);
}
void
operator delete[](void * p) noexcept
{
  rawFree(p);
}
void
operator delete(void * p, size_t) noexcept
{
  rawFree(p);
}
void
operator delete[](void * p, size_t) noexcept
{
  rawFree(p);
}
void
operator delete(void * p, std::align_val_t) noexcept
{
  rawFree(p);
}
void
operator delete[](void * p, std::align_val_t) noexcept
{
  rawFree(p);
}
void
operator delete(void * p, size_t, std::align_val_t) noexcept
{
  rawFree(p);
}
void
operator delete[](void * p, size_t, std::align_val_t) noexcept
{
  rawFree(p);
}
void
operator delete(void * p, std::nothrow_t const &) noexcept
{
  rawFree(p);
}
void
operator delete[](void * p, std::nothrow_t const &) noexcept
{
  rawFree(p);
}

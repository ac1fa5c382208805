// L01, L02, I01: the logger, start-up and shut-down.
#include "mesh_spec.hpp"
#include <cmath>
#include <cstring>
#include <gmsh.h>
#include <um2.hpp>
#include <um2/common/logger.hpp>

using namespace sim;

namespace
{

char const * const level_name[] = {"", "ERROR", "WARN", "INFO", "DEBUG"};

// Remove terminal colour sequences; false if one is malformed.
bool
stripColor(std::string const & in, std::string & out, int & count)
{
  out.clear();
  count = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    if (in[i] != '\033') {
      out += in[i];
      continue;
    }
    size_t j = i + 1;
    if (j >= in.size() || in[j] != '[') {
      return false;
    }
    ++j;
    while (j < in.size() && (isdigit(static_cast<unsigned char>(in[j])) != 0 || in[j] == ';')) {
      ++j;
    }
    if (j >= in.size() || in[j] != 'm') {
      return false;
    }
    i = j;
    ++count;
  }
  return true;
}

// Take "[HH:MM:SS.mmm] " off the front; milliseconds or -1.
int64_t
takeTimestamp(std::string & s)
{
  size_t i = 0;
  auto digits = [&](size_t lo, size_t hi) -> int64_t {
    size_t n = 0;
    int64_t v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9' && n < hi) {
      v = v * 10 + (s[i] - '0');
      ++i;
      ++n;
    }
    return n < lo ? -1 : v;
  };
  auto lit = [&](char c) {
    if (i < s.size() && s[i] == c) {
      ++i;
      return true;
    }
    return false;
  };
  if (!lit('[')) {
    return -1;
  }
  int64_t const h = digits(2, 9);
  if (h < 0 || !lit(':')) {
    return -1;
  }
  int64_t const m = digits(2, 2);
  if (m < 0 || m > 59 || !lit(':')) {
    return -1;
  }
  int64_t const sec = digits(2, 2);
  if (sec < 0 || sec > 59 || !lit('.')) {
    return -1;
  }
  int64_t const ms = digits(3, 3);
  if (ms < 0 || !lit(']') || !lit(' ')) {
    return -1;
  }
  s.erase(0, i);
  return ((h * 60 + m) * 60 + sec) * 1000 + ms;
}

std::string
printable(std::string const & s)
{
  std::string o;
  for (char const c : s.substr(0, 300)) {
    if (c >= 32 && c < 127) {
      o += c;
    } else {
      o += fmt("\\x%02x", static_cast<unsigned char>(c));
    }
  }
  return o + (s.size() > 300 ? "..." : "");
}

struct Line {
  int level = 0;
  std::string text;
  bool stamped = true, colored = false;
  int64_t lo = -1, hi = -1; // bounds of the elapsed milliseconds (if known)
};

// Check one printed line (without newline) against the message it must show.
std::string
checkLine(std::string const & raw, Line const & w)
{
  std::string s;
  int colors = 0;
  if (!stripColor(raw, s, colors)) {
    return "a broken colour sequence";
  }
  if (!w.colored && colors != 0) {
    return "colours although they are off";
  }
  if (w.colored && w.level != 3 && colors < 2) {
    return "colour not set and reset";
  }
  if (w.stamped) {
    int64_t const ms = takeTimestamp(s);
    if (ms < 0) {
      return "a malformed timestamp";
    }
    if (w.lo >= 0 && (ms < w.lo - 1 || ms > w.hi + 1)) {
      return fmt("an elapsed time of %ld ms where %ld ms passed", ms, w.lo);
    }
  }
  std::string const head = std::string(level_name[w.level]) + " - ";
  if (s.compare(0, head.size(), head) != 0) {
    return "a wrong level or beginning";
  }
  s.erase(0, head.size());
  if (s == w.text) {
    return "";
  }
  if (w.text.size() <= 200) {
    return "a different text";
  }
  // cut, possibly with a mark
  std::string t = s;
  if (t.size() > 3 && t.compare(t.size() - 3, 3, "...") == 0 && w.text.compare(0, t.size(), t) != 0) {
    t.erase(t.size() - 3);
  }
  if (t.size() < 190 || t.size() > w.text.size() || w.text.compare(0, t.size(), t) != 0) {
    return "not the beginning of the message";
  }
  return "";
}

std::vector<std::string>
splitLines(std::string const & s, std::string & rest)
{
  std::vector<std::string> v;
  size_t i = 0;
  for (;;) {
    size_t const e = s.find('\n', i);
    if (e == std::string::npos) {
      break;
    }
    v.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  rest = s.substr(i);
  return v;
}

std::string
checkStream(char const * name, std::string const & out, std::vector<Line> const & want)
{
  std::string rest;
  auto const lines = splitLines(out, rest);
  for (size_t i = 0; i < lines.size() && i < want.size(); ++i) {
    std::string const d = checkLine(lines[i], want[i]);
    if (!d.empty()) {
      return fmt("line %zu of %s shows %s: \"%s\" for the %s message \"%s\"", i, name, d.c_str(),
                 printable(lines[i]).c_str(), level_name[want[i].level], printable(want[i].text).c_str());
    }
  }
  if (!rest.empty()) {
    return fmt("%s ends in the middle of a line: \"%s\"", name, printable(rest).c_str());
  }
  if (lines.size() != want.size()) {
    return fmt("%zu lines on %s instead of %zu", lines.size(), name, want.size());
  }
  return "";
}

int64_t
span()
{
  // a length of time in nanoseconds, from nothing to years
  static int64_t const unit[] = {1000LL,         1000000LL,          1000000000LL,           60000000000LL,
                                 3600000000000LL, 86400000000000LL, 30LL * 86400000000000LL, 365LL * 86400000000000LL};
  int64_t const u = unit[pick(8)];
  return u * static_cast<int64_t>(1 + pick(100)) + static_cast<int64_t>(pick(1000000000)) % u;
}

//--------------------------------------------------------------------------------------------------
// L01
//--------------------------------------------------------------------------------------------------

struct LogOp {
  int kind = 0; // 0 message, 1 time passes, 2 clock set, 3 reset, 4 stamps on/off, 5 colours on/off
  int64_t ns = 0;
  int level = 3;
  bool flag = false;
  std::string text;
};

std::string
shortText()
{
  static char const * const words[] = {"step", "12:34:56.789", "[00:00:00.000]", "%d%s%n 100%", "a\tb", "", "x - y",
                                       "Reading file: /sim/a/mesh.xdmf"};
  std::string s = words[pick(8)];
  if (pick(4) == 3) {
    s += std::string(pick(150), 'q');
  }
  return s;
}

void
l01()
{
  int const nproc = range(1, 2);
  for (int ip = 0; ip < nproc; ++ip) {
    Cfg cfg;
    cfg.tty_out = pick(4) == 3;
    cfg.tty_err = pick(4) == 3;
    cfg.p_out_short = pick(4) == 3 ? 200 : 0;
    cfg.benign_seed = pick(1U << 30);
    if (pick(3) == 2) {
      // the clock is set in the middle of a call
      cfg.add(OP_CLOCK, pick(2) != 0 ? F_CLOCK_FWD : F_CLOCK_BACK, pick(40), pick(0x7FFFFFFF));
    }
    int64_t const ticks[] = {1000, 1, 1000000, 37777777};
    shm->tick = ticks[pick(4)];
    std::vector<LogOp> ops;
    int const n = range(2, 24);
    for (int i = 0; i < n; ++i) {
      LogOp o;
      static int const kinds[] = {0, 0, 0, 1, 1, 2, 2, 3, 4, 5};
      o.kind = kinds[pick(10)];
      if (o.kind == 1) {
        o.ns = span();
      } else if (o.kind == 2) {
        o.ns = pick(2) == 0 ? -span() : span();
      } else if (o.kind == 0) {
        o.level = 1 + static_cast<int>(pick(4));
        o.text = shortText();
      } else {
        o.flag = pick(2) != 0;
      }
      ops.push_back(o);
    }
    Proc const p = process(cfg, [&] {
      std::vector<Line> want[2];
      int64_t r0 = shm->mono;
      um2::logger::reset();
      int64_t r1 = shm->mono;
      auto settle = [] {
        um2::logger::level = um2::logger::levels::debug;
        um2::logger::exit_on_error = false;
      };
      settle();
      for (auto const & o : ops) {
        switch (o.kind) {
        case 0: {
          Line l;
          l.level = o.level;
          l.text = o.text;
          l.stamped = um2::logger::timestamped;
          l.colored = um2::logger::colorized;
          int64_t const m0 = shm->mono;
          char const * const t = o.text.c_str();
          switch (o.level) {
          case 1:
            um2::logger::error(t);
            break;
          case 2:
            um2::logger::warn(t);
            break;
          case 3:
            um2::logger::info(t);
            break;
          default:
            um2::logger::debug(t);
            break;
          }
          int64_t const m1 = shm->mono;
          l.lo = (m0 - r1) / 1000000;
          l.hi = (m1 - r0) / 1000000;
          want[o.level == 1 ? 1 : 0].push_back(l);
          break;
        }
        case 1:
          clockAdvance(o.ns);
          break;
        case 2:
          clockStep(o.ns);
          break;
        case 3:
          r0 = shm->mono;
          um2::logger::reset();
          r1 = shm->mono;
          settle();
          break;
        case 4:
          um2::logger::timestamped = o.flag;
          break;
        default:
          um2::logger::colorized = o.flag;
          break;
        }
      }
      fflush(stdout);
      for (int k = 0; k < 2; ++k) {
        std::string const d = checkStream(k == 0 ? "standard output" : "standard error",
                                          std::string(shm->out[k], shm->nout[k]), want[k]);
        if (!d.empty()) {
          violate("L01:line", "%s", d.c_str());
        }
      }
      shm->user[0] = want[0].size() + want[1].size();
    });
    if (violated()) {
      return;
    }
    if (!p.success()) {
      violate("L01:died", "a process that only logs ended with status %d signal %d: %s", p.code, p.sig,
              lastWords(p).c_str());
      return;
    }
    bool msg = false;
    bool clock = false;
    for (auto const & o : ops) {
      msg = msg || (o.kind == 0 && clock);
      clock = clock || o.kind == 1 || o.kind == 2;
      stateMix(static_cast<uint64_t>(o.kind * 8 + o.level));
      stateMix(static_cast<uint64_t>(o.ns));
      probe(o.kind);
    }
    if (msg) {
      nontrivial();
    }
  }
}
Register const r1("L01", l01);

//--------------------------------------------------------------------------------------------------
// L02
//--------------------------------------------------------------------------------------------------

std::string
piece(uint32_t how)
{
  static char const alphabet[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 %/.-_[]:,";
  size_t n = 0;
  switch (how) {
  case 0:
    n = pick(20);
    break;
  case 1:
    n = 60 + pick(100);
    break;
  case 2:
    n = 190 + pick(80); // around the size of any reasonable line
    break;
  default:
    n = 300 + pick(5000);
    break;
  }
  Rng r(pick(1U << 30));
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    s += alphabet[r.below(sizeof(alphabet) - 1)];
  }
  return s;
}

struct MsgOp {
  int kind = 0; // 0 message, 1 level, 2 stamps, 3 colours, 4 stop on errors, 5 reset, 6 time, 7 flush
  int shape = 0;
  int level = 3;
  int value = 0;
  std::string s1, s2;
  int i32 = 0;
  int64_t i64 = 0;
  uint64_t u64 = 0;
  double d = 0;
  float f = 0;
  bool b = false;
  char c = 'x';
  [[nodiscard]] std::string text() const;
};

template <class... A>
void
say(int level, A const &... a)
{
  switch (level) {
  case 1:
    um2::logger::error(a...);
    break;
  case 2:
    um2::logger::warn(a...);
    break;
  case 3:
    um2::logger::info(a...);
    break;
  default:
    um2::logger::debug(a...);
    break;
  }
}

int const num_shapes = 12;

void
send(MsgOp const & o)
{
  char const * const p1 = o.s1.c_str();
  char const * const p2 = o.s2.c_str();
  um2::String const u1(p1);
  switch (o.shape) {
  case 0:
    say(o.level, p1);
    break;
  case 1:
    say(o.level, p1, o.i32);
    break;
  case 2:
    say(o.level, p1, o.d, p2);
    break;
  case 3:
    say(o.level, p1, o.b, o.c, p2);
    break;
  case 4:
    say(o.level, u1, p2);
    break;
  case 5:
    say(o.level, o.s1.empty() ? um2::StringView() : um2::StringView(p1), o.u64, " ", o.i64, " ", o.f);
    break;
  case 6:
    say(o.level, static_cast<int8_t>(o.i32), " ", static_cast<uint32_t>(o.i32));
    break;
  case 7:
    say(o.level, o.b, p1, o.b);
    break;
  case 8:
    say(o.level, p1, p2, u1, o.c);
    break;
  case 9:
    say(o.level, o.d);
    break;
  case 10:
    say(o.level, p1, o.c, o.c, o.c, o.i32);
    break;
  default:
    say(o.level, "literal ", u1);
    break;
  }
}

std::string
MsgOp::text() const
{
  std::string const sb = b ? "true" : "false";
  switch (shape) {
  case 0:
    return s1;
  case 1:
    return s1 + std::to_string(i32);
  case 2:
    return s1 + fmt("%f", d) + s2;
  case 3:
    return s1 + sb + c + s2;
  case 4:
    return s1 + s2;
  case 5:
    return s1 + fmt("%lu %ld %f", u64, i64, static_cast<double>(f));
  case 6:
    return fmt("%d %u", static_cast<int>(static_cast<int8_t>(i32)), static_cast<unsigned>(i32));
  case 7:
    return sb + s1 + sb;
  case 8:
    return s1 + s2 + s1 + c;
  case 9:
    return fmt("%f", d);
  case 10:
    return s1 + c + c + c + std::to_string(i32);
  default:
    return "literal " + s1;
  }
}

// Is `part` what is left of `whole` when stretches are missing?
bool
isSubsequence(std::string const & part, std::string const & whole)
{
  size_t j = 0;
  for (char const c : whole) {
    if (j < part.size() && part[j] == c) {
      ++j;
    }
  }
  return j == part.size();
}

void
l02()
{
  Cfg cfg;
  cfg.tty_out = pick(3) == 2;
  cfg.tty_err = pick(3) == 2;
  cfg.p_out_short = pick(2) != 0 ? 30 + pick(900) : 0;
  cfg.benign_seed = pick(1U << 30);
  bool const failing = pick(4) == 3;
  if (failing) {
    cfg.add(OP_OUT, F_OUT_FAIL, pick(pick(2) != 0 ? 20 : 4), pick(4));
  }
  std::vector<MsgOp> ops;
  int const n = range(1, 30);
  uint32_t const how_max = 1 + pick(4);
  if (pick(3) != 0) {
    MsgOp o;
    o.kind = 4; // go on after errors
    ops.push_back(o);
  }
  for (int i = 0; i < n; ++i) {
    MsgOp o;
    static int const kinds[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7};
    o.kind = kinds[pick(17)];
    if (o.kind == 0) {
      o.level = 1 + static_cast<int>(pick(4));
      o.shape = static_cast<int>(pick(num_shapes));
      o.s1 = piece(pick(how_max));
      o.s2 = piece(pick(how_max));
      o.b = pick(2) != 0;
      o.c = static_cast<char>('!' + pick(90));
      Rng r(pick(1U << 30));
      static int const ints[] = {0, 1, -1, 127, -128, 2147483647, -2147483647 - 1, 1000000};
      o.i32 = r.below(2) != 0 ? ints[r.below(8)] : static_cast<int>(r.next());
      o.i64 = r.below(3) == 0 ? INT64_MIN : static_cast<int64_t>(r.next());
      o.u64 = r.below(3) == 0 ? UINT64_MAX : r.next();
      static double const ds[] = {0.0, -0.5, 1e300, -1e308, 1e-7, 123456.789, INFINITY, -INFINITY, NAN};
      o.d = r.below(2) != 0 ? ds[r.below(9)] : static_cast<double>(static_cast<int64_t>(r.next())) * 1e-6;
      o.f = static_cast<float>(r.below(100000)) / 64.0F;
    } else {
      o.value = static_cast<int>(pick(o.kind == 1 ? 5 : 2));
    }
    ops.push_back(o);
  }
  // what must come out
  std::vector<Line> want[2];
  int level = 3;
  bool stamped = true;
  bool colored = true;
  bool stop = true;
  bool stopped = false;
  for (auto const & o : ops) {
    if (stopped) {
      break;
    }
    switch (o.kind) {
    case 0:
      if (o.level <= level) {
        Line l;
        l.level = o.level;
        l.text = o.text();
        l.stamped = stamped;
        l.colored = colored;
        want[o.level == 1 ? 1 : 0].push_back(l);
        stopped = o.level == 1 && stop;
        probe(l.text.size() > 200 ? 1 : 0);
      }
      break;
    case 1:
      level = o.value;
      break;
    case 2:
      stamped = o.value != 0;
      break;
    case 3:
      colored = o.value != 0;
      break;
    case 4:
      stop = o.value != 0;
      break;
    case 5:
      level = 3;
      stamped = colored = stop = true;
      break;
    default:
      break;
    }
    stateMix(static_cast<uint64_t>(o.kind * 1000 + o.level * 20 + o.shape));
  }
  auto body = [&] {
    um2::logger::reset();
    for (auto const & o : ops) {
      switch (o.kind) {
      case 0:
        send(o);
        break;
      case 1:
        um2::logger::level = o.value;
        break;
      case 2:
        um2::logger::timestamped = o.value != 0;
        break;
      case 3:
        um2::logger::colorized = o.value != 0;
        break;
      case 4:
        um2::logger::exit_on_error = o.value != 0;
        break;
      case 5:
        um2::logger::reset();
        break;
      case 6:
        clockAdvance(o.value != 0 ? 1000000000LL : 17);
        break;
      default:
        fflush(o.value != 0 ? stdout : stderr);
        break;
      }
    }
    exit(0); // buffered output is written
  };
  Proc const p = process(cfg, body);
  if (violated()) {
    return;
  }
  if (p.livelock || p.sig != 0) {
    violate("L02:died", "a process that only logs %s (signal %d)", p.livelock ? "did not finish" : "died", p.sig);
    return;
  }
  if (p.injected > 0) {
    // Some output is lost, but the rest is not disturbed.
    probe(2);
    nontrivial();
    Cfg quiet = cfg;
    quiet.faults.clear();
    Proc const q = process(quiet, body);
    if (violated()) {
      return;
    }
    for (int k = 0; k < 2; ++k) {
      std::string part = k == 0 ? p.out : p.err;
      std::string const & whole = k == 0 ? q.out : q.err;
      if (k == 0 && p.code != 0) {
        // a failed write may end the program with a message of its own
        size_t const a = part.find("Assertion failed");
        if (a != std::string::npos) {
          part.erase(a);
        }
      }
      // timestamps differ at most in the time taken: compare without digits
      auto plain = [](std::string s) {
        std::string o;
        for (char const c : s) {
          if (!(c >= '0' && c <= '9')) {
            o += c;
          }
        }
        return o;
      };
      if (!isSubsequence(plain(part), plain(whole))) {
        violate("L02:corrupted", "after a failed write %s shows text that was not logged: \"%s\"",
                k == 0 ? "standard output" : "standard error", printable(part).c_str());
        return;
      }
    }
    if (stopped && p.code == 0) {
      violate("L02:not-stopped", "the program went on to success after an error with stopping enabled");
      return;
    }
    return;
  }
  if (stopped ? p.code == 0 : p.code != 0) {
    violate("L02:status", "the program ended with status %d although stopping on errors was %s: %s", p.code,
            stopped ? "enabled and an error was logged" : "disabled or no error was logged", lastWords(p).c_str());
    return;
  }
  for (int k = 0; k < 2; ++k) {
    std::string const d = checkStream(k == 0 ? "standard output" : "standard error", k == 0 ? p.out : p.err, want[k]);
    if (!d.empty()) {
      violate("L02:output", "%s", d.c_str());
      return;
    }
  }
  if (!want[0].empty() || !want[1].empty()) {
    nontrivial();
  }
  if (stopped) {
    probe(3);
  }
}
Register const r2("L02", l02);

//--------------------------------------------------------------------------------------------------
// I01
//--------------------------------------------------------------------------------------------------

struct LifeOp {
  int kind = 0; // 0 initialise, 1 finalise, 2 message, 3 settings, 4 time, 5 output fails, 6 clock set
  int level = 3;
  int value = 0;
  int64_t ns = 0;
};

void
i01()
{
  Cfg cfg;
  cfg.tty_out = pick(2) != 0;
  cfg.tty_err = pick(2) != 0;
  cfg.p_out_short = pick(3) == 2 ? 300 : 0;
  cfg.benign_seed = pick(1U << 30);
  std::vector<LifeOp> ops;
  int const n = range(2, 14);
  bool dead = false;
  for (int i = 0; i < n; ++i) {
    LifeOp o;
    static int const kinds[] = {0, 1, 0, 1, 2, 2, 2, 3, 3, 4, 5, 6};
    o.kind = kinds[pick(12)];
    if (o.kind == 5 && (dead || pick(2) == 0)) {
      o.kind = 1;
    }
    dead = dead || o.kind == 5;
    o.level = 1 + static_cast<int>(pick(4));
    o.value = static_cast<int>(pick(16));
    o.ns = o.kind == 4 || o.kind == 6 ? span() : 0;
    if (o.kind == 6 && pick(2) == 0) {
      o.ns = -o.ns;
    }
    ops.push_back(o);
  }
  Proc const p = process(cfg, [&] {
    um2::logger::reset();
    bool failing = false;
    size_t flushed = 0;      // messages that must be on standard output after a finalise
    std::vector<std::string> said;
    for (auto const & o : ops) {
      uint64_t const f0 = shm->fired[F_OUT_FAIL];
      switch (o.kind) {
      case 0: {
        int64_t const r0 = shm->mono;
        uint32_t const o0 = shm->nout[0];
        fflush(stdout);
        step("initialize", [&] { um2::initialize(); });
        int64_t const r1 = shm->mono;
        if (failing) {
          break;
        }
        if (um2::logger::level != um2::logger::levels::info || !um2::logger::timestamped || !um2::logger::exit_on_error) {
          violate("I01:settings", "initialise left level %d, timestamps %d, stopping on errors %d",
                  static_cast<int>(um2::logger::level), static_cast<int>(um2::logger::timestamped),
                  static_cast<int>(um2::logger::exit_on_error));
        }
        bool const both = cfg.tty_out && cfg.tty_err;
        if (um2::logger::colorized != both) {
          violate("I01:colour", "colours are %s with %s output and %s error stream", um2::logger::colorized ? "on" : "off",
                  cfg.tty_out ? "a terminal as" : "no terminal as", cfg.tty_err ? "a terminal as" : "no terminal as");
        }
        if (gmsh::isInitialized() == 0) {
          violate("I01:cad", "the CAD library is not initialised after initialise");
        }
        // the elapsed time starts again
        int64_t const m0 = shm->mono;
        um2::logger::info("after start");
        int64_t const m1 = shm->mono;
        fflush(stdout);
        std::string rest;
        auto lines = splitLines(std::string(shm->out[0] + o0, shm->nout[0] - o0), rest);
        if (lines.empty()) {
          violate("I01:output", "no output after initialise");
        }
        Line w;
        w.level = 3;
        w.text = "after start";
        w.colored = both;
        w.lo = (m0 - r1) / 1000000;
        w.hi = (m1 - r0) / 1000000;
        std::string const d = checkLine(lines.back(), w);
        if (!d.empty()) {
          violate("I01:restart", "after initialise a message shows %s: \"%s\"", d.c_str(), printable(lines.back()).c_str());
        }
        break;
      }
      case 1: {
        int const st = step("finalize", [&] { um2::finalize(); });
        if (shm->fired[F_OUT_FAIL] != f0 && st == ST_OK) {
          violate("I01:lost-output", "finalise could not write standard output and reported nothing");
        }
        if (shm->fired[F_OUT_FAIL] == f0 && st != ST_OK) {
          violate("I01:finalise", "finalise reported an error: %s", reportText(std::string(shm->out[1], shm->nout[1])).c_str());
        }
        if (gmsh::isInitialized() != 0) {
          violate("I01:cad", "the CAD library is still initialised after finalise");
        }
        if (!failing) {
          std::string const out(shm->out[0], shm->nout[0]);
          size_t at = 0;
          for (auto const & m : said) {
            at = out.find(m, at);
            if (at == std::string::npos) {
              violate("I01:not-flushed", "after finalise the message %s is not on standard output", m.c_str());
            }
          }
          flushed = said.size();
        }
        break;
      }
      case 2: {
        bool const shown = o.level <= um2::logger::level && o.level > 1;
        std::string const m = fmt("message <%zu>", said.size());
        if (o.level > 1) {
          say(o.level, m.c_str());
        }
        if (shown) {
          said.push_back(m);
        }
        break;
      }
      case 3:
        um2::logger::level = 1 + o.level % 4;
        um2::logger::timestamped = (o.value & 1) != 0;
        um2::logger::colorized = (o.value & 2) != 0;
        um2::logger::exit_on_error = (o.value & 4) != 0;
        break;
      case 4:
        clockAdvance(o.ns);
        break;
      case 5:
        fflush(stdout);
        shm->out_dead |= 1; // the output device fails from here on
        failing = true;
        break;
      default:
        clockStep(o.ns);
        break;
      }
    }
    (void)flushed;
    shm->user[1] = 1;
  });
  if (violated()) {
    return;
  }
  bool const hit = dead && shm->fired[F_OUT_FAIL] > 0;
  if (p.livelock) {
    violate("I01:hang", "a history of starts and stops did not finish");
    return;
  }
  if (p.sig != 0 || (!hit && !p.success())) {
    violate("I01:died", "a history of starts and stops ended with status %d signal %d: %s", p.code, p.sig,
            lastWords(p).c_str());
    return;
  }
  int starts = 0;
  for (auto const & o : ops) {
    starts += o.kind <= 1 ? 1 : 0;
    probe(o.kind);
    stateMix(static_cast<uint64_t>(o.kind * 100 + o.level * 16 + o.value));
  }
  if (hit) {
    probe(10);
  }
  stateMix(static_cast<uint64_t>(p.code + 1) + (cfg.tty_out ? 16 : 0) + (cfg.tty_err ? 32 : 0));
  if (starts > 0) {
    nontrivial();
  }
}
Register const r3("I01", i01);

} // namespace

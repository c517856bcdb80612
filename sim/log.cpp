// Logger simulator: programs of log messages, level changes, terminating
// errors and spline operations over a simulated disk, console, clock and heap
// (C08, C09, C10, C12 and parts of C05, C07).
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <streambuf>

#include "bezman/src/utils/logger.hpp"
#include "oplan.hpp"
#include "simos.hpp"

using namespace sim;
namespace sim {
const Api* ops_p1();
const Api* ops_p2();
const Api* ops_p3();
const Api* plain_p1();
const Api* plain_p2();
const Api* plain_p3();
}  // namespace sim
namespace {
using bezman::utils::Logger;
enum { L_MSG, L_LEVEL, L_LEVELLIST, L_CLOCK, L_CONSOLE, L_DISK, L_DISKOK, NLOP };
const char* const lop_names[] = {"message", "set-level", "set-level-list", "clock", "console", "disk-fault", "disk-works"};
enum {
  K_MSG, K_TE, K_LEVEL, K_LINES, K_STAMPS, K_SPL, K_REJ, K_OOM, K_WIN, K_RECOV, K_SAVED, K_FLOOR, K_CRASH, K_EXIT,
  K_BIG, K_TWIN, K_OPEN, K_SPACE, K_EIO, K_SHORT, K_EINTR, K_CLOSE, K_JUMP, K_CON1, K_CON2, K_CON3, K_CON4, K_ALLOC,
  K_OTHER, K_WRITES, K_FOREIGN, NK
};
const char* const counters[] = {
    "messages issued", "terminating errors raised and caught", "level changes", "log lines judged", "time stamps judged",
    "spline operations executed", "requests rejected", "calls that ran out of memory", "disk fault windows",
    "recoveries judged", "terminating errors whose lines were checked on disk", "disk changes checked against saved contents",
    "runs ended by a crash", "runs ended by a normal exit", "messages larger than the stream buffer",
    "results compared with the library without logging",
    "fault: log file could not be opened", "fault: disk full", "fault: write I/O error", "fault: short write",
    "fault: interrupted write", "fault: close failed", "fault: clock jump",
    "fault: console write failed", "fault: console threw", "fault: no console", "fault: console failed in the middle",
    "fault: allocation failed", "runs ended by a violation of another property", "disk writes", "library's own lines seen", nullptr};

Shared* S;
[[noreturn]] void bad(const char* cls, const std::string& m) {
  os::active = false;
  violation(S, cls, m);
  child_stop(3);
}
// ---------------------------------------------------------------- console
struct Console : std::streambuf {
  char* d = nullptr;
  std::size_t n = 0, cap = 0;
  int mode = 0;  // 0 works, 1 fails, 2 throws, 3 fails after `left` bytes
  std::size_t left = 0;
  u64 fired[4] = {};
  void put(const char* p, std::size_t k) {
    if (!k) return;
    if (n + k > cap) {
      cap = (n + k) * 2 + 4096;
      d = static_cast<char*>(realloc(d, cap));
      if (!d) abort();
    }
    std::memcpy(d + n, p, k);
    n += k;
  }
  std::streamsize xsputn(const char* p, std::streamsize k) override {
    if (mode == 1) return fired[0]++, 0;
    if (mode == 2) {
      fired[1]++;
      throw 1;
    }
    if (mode == 3 && left < std::size_t(k)) {
      std::size_t m = left;
      put(p, m);
      left = 0;
      fired[3]++;
      return std::streamsize(m);
    }
    if (mode == 3) left -= std::size_t(k);
    put(p, std::size_t(k));
    return k;
  }
  int overflow(int c) override {
    char x = char(c);
    return xsputn(&x, 1) == 1 ? c : EOF;
  }
  int sync() override { return mode ? -1 : 0; }
};
Console con;
struct Sink : std::streambuf {
  std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
  int overflow(int c) override { return c; }
} sink;
bool con_ok = true;

// ------------------------------------------------------------- the history
enum { D_CON, D_LOG, D_WARN, D_ERR, ND };
const char* const fnames[ND] = {"", "log_file.log", "warning_file.log", "error_file.log"};
struct Msg {
  std::string text;
  bool token = true;   // carries its own number
  bool on[ND] = {};
  bool skip = false;  // the console was failing: anything may be there
  bool stamp = false;
  bool thrown = false;  // ran out of memory: anything may have appeared
  std::vector<i64> times;
  u32 step = 0;
};
std::vector<Msg>* msgs;
unsigned level = 39;
bool strict = true;        // no memory or disk fault is planned
std::size_t recov = 0;     // first message after the last fault
bool window = false;
bool spline_lines = false;  // the library itself logs in this run
bool con_fault_seen = false;
bool ended = false;
std::string prop;
bool judge_log = false, judge_te = false;
std::size_t floor_n[ND];
std::string* floor_c[ND];

const unsigned con_bit[6] = {4, 1, 8, 16, 2, 2};
const unsigned file_bit[6] = {64, 256, 256, 256, 128, 128};
const int file_of[6] = {D_WARN, D_LOG, D_LOG, D_LOG, D_ERR, D_ERR};
const char* const kind_name[6] = {"warning", "user information", "log message", "extended information", "error", "terminating error"};

std::string stamp_of(i64 t) {
  static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
  static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  struct tm tm;
  time_t tt = time_t(t);
  localtime_r(&tt, &tm);
  char b[96];
  snprintf(b, sizeof b, "%s %s%3d %.2d:%.2d:%.2d %d", wd[tm.tm_wday], mo[tm.tm_mon], tm.tm_mday, tm.tm_hour, tm.tm_min,
           tm.tm_sec, tm.tm_year + 1900);
  return b;
}
std::string content(int d) {
  if (d == D_CON) return std::string(con.d ? con.d : "", con.n);
  os::File* f = os::file(fnames[d]);
  return f && f->exists ? std::string(f->data ? f->data : "", f->n) : std::string();
}
const char* dest_name(int d) { return d == D_CON ? "the console" : fnames[d]; }

void set_floor() {
  for (int d = D_LOG; d < ND; d++) {
    *floor_c[d] = content(d);
    floor_n[d] = floor_c[d]->size();
  }
}
void on_change(os::File& f, std::size_t keep) {
  for (int d = D_LOG; d < ND; d++)
    if (!std::strcmp(f.name, fnames[d])) {
      S->count[K_FLOOR]++;
      if (keep < floor_n[d])
        bad("destroyed", std::string(fnames[d]) + ": of the " + std::to_string(floor_n[d]) +
                             " bytes that were safely on disk only " + std::to_string(keep) + " remain");
    }
}
std::string brief(const std::string& t) { return t.size() > 40 ? t.substr(0, 40) + "..." : t; }

bool line_ok_stamp(const std::string& before, const Msg& m, std::string& why) {
  S->count[K_STAMPS]++;
  bool any = false;
  std::string s;
  for (i64 t : m.times) {
    s = stamp_of(t);
    if (before.find(s) != std::string::npos) any = true;
  }
  if (m.stamp && !any) {
    why = "has not the time of issue (" + s + ") but '" + brief(before) + "'";
    return false;
  }
  if (!m.stamp && any) {
    why = "has a time stamp although they are disabled";
    return false;
  }
  return true;
}
// every message from `from` on that was enabled for destination d is there
// exactly once, whole and in order; in strict runs nothing else is there
void judge_dest(int d, std::size_t from, const char* when) {
  const std::string c = content(d);
  const std::string where = std::string(dest_name(d)) + when;
  const bool str = strict && !(d == D_CON && con_fault_seen);
  std::size_t last = 0;
  std::size_t upto = msgs->size();
  std::map<std::string, std::pair<u64, u64>> plain;  // must, may
  for (std::size_t i = 0; i < upto; i++) {
    const Msg& m = (*msgs)[i];
    if (!m.token) {
      if (m.on[d] || (d == D_CON && m.skip)) {
        auto& p = plain[m.text];
        if (i >= from && !m.thrown && !(d == D_CON && m.skip)) p.first++;
        p.second++;
      }
      continue;
    }
    if (i < from || m.thrown || (d == D_CON && m.skip)) continue;
    S->step = m.step;
    std::size_t p = c.find(m.text);
    if (!m.on[d]) {
      if (p != std::string::npos) bad("disabled", where + " shows message " + std::to_string(i) + " whose kind is not enabled there");
      continue;
    }
    S->count[K_LINES]++;
    if (p == std::string::npos) {
      std::size_t t = c.find(m.text.substr(0, m.text.find('{')));
      bad("lost", where + (t == std::string::npos ? " lacks message " : " shows a torn message ") + std::to_string(i) + " '" +
                      brief(m.text) + "'");
    }
    if (c.find(m.text, p + m.text.size()) != std::string::npos)
      bad("repeated", where + " shows message " + std::to_string(i) + " more than once");
    if (p < last) bad("order", where + " shows message " + std::to_string(i) + " before an earlier one");
    last = p;
    std::size_t e = p + m.text.size();
    // the rest of the line: only the end of the colour on the console
    std::size_t nl = c.find('\n', e);
    if (nl == std::string::npos) bad("torn", where + ": the line of message " + std::to_string(i) + " does not end");
    if (nl - e > 12 || (d != D_CON && nl != e))
      bad("torn", where + ": something follows message " + std::to_string(i) + " on its line: '" + brief(c.substr(e, nl - e)) + "'");
    std::size_t b = c.rfind('\n', p);
    b = b == std::string::npos ? 0 : b + 1;
    std::string pre = c.substr(b, p - b);
    if (str && pre.find("}@") != std::string::npos) bad("torn", where + ": message " + std::to_string(i) + " shares its line");
    std::string why;
    if (!(m.stamp ? line_ok_stamp(pre, m, why) : !str || line_ok_stamp(pre, m, why)))
      bad("stamp", where + ": the line of message " + std::to_string(i) + " " + why);
  }
  for (auto& p : plain) {
    u64 n = 0;
    for (std::size_t x = c.find(p.first); x != std::string::npos; x = c.find(p.first, x + 1)) {
      // (a longer text may begin with this one)
      const char after = x + p.first.size() < c.size() ? c[x + p.first.size()] : 0;
      n += after == '\n' || after == '\x1b';
    }
    if (n < p.second.first || (str && n > p.second.second))
      bad("lost", where + " shows '" + brief(p.first) + "' " + std::to_string(n) + " times, it was issued " +
                      std::to_string(p.second.first) + " times");
  }
  if (!str) return;
  // nothing else
  std::size_t b = 0;
  while (b < c.size()) {
    std::size_t nl = c.find('\n', b);
    // (a message may have several lines)
    for (std::size_t o = c.find("@", b); o < nl && nl != std::string::npos; o = c.find("@", o + 1)) {
      std::size_t i = 0, x = o + 1;
      while (x < c.size() && c[x] >= '0' && c[x] <= '9') i = i * 10 + std::size_t(c[x++] - '0');
      if (x == o + 1 || i >= msgs->size() || !(*msgs)[i].token) continue;
      const std::string& t = (*msgs)[i].text;
      if (c.compare(o, t.size(), t)) continue;
      nl = c.find('\n', o + t.size());
      break;
    }
    if (nl == std::string::npos) bad("torn", where + " ends within a line");
    std::string l = c.substr(b, nl - b);
    b = nl + 1;
    bool known = l.find("}@") != std::string::npos;
    for (auto& p : plain) known = known || l.find(p.first) != std::string::npos;
    if (!known) {
      if (!spline_lines) bad("foreign", where + " has a line that belongs to no message: '" + brief(l) + "'");
      S->count[K_FOREIGN]++;
    }
  }
}
void judge_end(const char* when) {
  if (judge_log)
    for (int d = D_CON; d < ND; d++) judge_dest(d, recov, when);
  if (recov) S->count[K_RECOV]++;
}
void stats() {
  const int k[os::FI_NK] = {K_OPEN, K_SPACE, K_EIO, K_SHORT, K_EINTR, K_CLOSE, K_JUMP};
  for (int i = 0; i < os::FI_NK; i++) {
    S->count[k[i]] = os::disk.fired[i];
    if (os::disk.fired[i]) S->nontrivial = 1;
  }
  for (int i = 0; i < 4; i++) {
    S->count[K_CON1 + i] += con.fired[i];
    if (con.fired[i]) S->nontrivial = 1;
  }
  S->count[K_WRITES] = os::disk.writes;
  Hash h;
  for (int d = D_CON; d < ND; d++) h.str(content(d));
  S->hash[0] = mix(S->hash[0] ^ h.h);
}
void at_end() {
  os::active = false;
  if (!ended) {
    // the program was ended by the library
    violation(S, "exit", "the library ended the program");
    _exit(3);
  }
  S->count[K_EXIT]++;
  stats();
  judge_end(" after a normal end");
  S->done = 1;
  _exit(0);
}
struct OwnError : std::exception {
  std::string t;
  explicit OwnError(const std::string& s) : t(s) {}
  const char* what() const noexcept override { return t.c_str(); }
};

// -------------------------------------------------------------------- runs
struct Runner {
  const Plan& plan;
  int P;
  const Api* api;
  const Api* plain;
  Snap cur[NKIND][NSL];
  void* w;
  u64 g;
  std::size_t last_fault = 0;
  explicit Runner(const Plan& p) : plan(p) {
    P = int(p.get("P", 1));
    api = P == 1 ? ops_p1() : P == 2 ? ops_p2() : ops_p3();
    plain = P == 1 ? plain_p1() : P == 2 ? plain_p2() : plain_p3();
    g = u64(p.get("garbage"));
    w = api->make();
    Rng r{u64(p.get("wseed"))};
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) fill(k, i, r.next());
  }
  void fill(int k, int i, u64 seed) {
    cur[k][i] = random_spline(P, k, seed, 3);
    api->set(w, k, i, cur[k][i]);
  }
  // ---- one call of the logger; false: memory ran out
  // kind 0..5 message, 6 set level, 7 set level list
  bool call(int what, const std::string& text, const Step& s, bool fault) {
    Armed arm(fault ? s.fk : 0, s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % 12, s.fcnt);
    int res = 0;
    std::string x;
    const char* type = "";
    try {
      switch (what) {
        case 0: Logger::Warning(text); break;
        case 1: Logger::UserInfo(text); break;
        case 2: Logger::Logging(text); break;
        case 3: Logger::ExtendedInformation(text); break;
        case 4: Logger::Error(text); break;
        case 5:
          switch (s.a[2] % 4) {
            case 0: Logger::TerminatingError<std::invalid_argument>(text); break;
            case 1: Logger::TerminatingError<OwnError>(text); break;
            default: Logger::TerminatingError(text);
          }
          break;
        case 6: Logger::SetOutputLevel(s.a[0]); break;
        default: {
          using O = Logger::OutputLevel;
          switch (s.a[0] % 6) {
            case 0: Logger::SetOutputLevel({}); break;
            case 1: Logger::SetOutputLevel({O::log_file, O::warning_file, O::error_file, O::time_stamp}); break;
            case 2: Logger::SetOutputLevel({O::all}); break;
            case 3: Logger::SetOutputLevel({O::errors, O::error_file}); break;
            case 4: Logger::SetOutputLevel({O::log_file, O::logging_verbose, O::logging, O::userinfo}); break;
            default: Logger::SetOutputLevel({O::warnings, O::warnings, O::warning_file}); break;
          }
        }
      }
    } catch (const std::bad_alloc&) {
      res = 1;
    } catch (const std::invalid_argument& e) {
      arm.end();
      res = 2, type = "invalid_argument", x = e.what();
    } catch (const std::runtime_error& e) {
      arm.end();
      res = 2, type = "runtime_error", x = e.what();
    } catch (const OwnError& e) {
      arm.end();
      res = 2, type = "own", x = e.what();
    } catch (const std::exception& e) {
      arm.end();
      res = 3, x = e.what();
    } catch (...) {
      arm.end();
      res = 3, x = "something that is no std::exception";
    }
    ArmStats st = arm.end();
    S->ticks += 1 + st.allocs;
    S->count[K_ALLOC] += st.failed;
    if (st.failed) S->nontrivial = 1;
    const char* nm = what < 6 ? kind_name[what] : "level change";
    if (res == 1 && !st.failed) bad("exception", std::string("a ") + nm + " reports exhausted memory although no allocation failed");
    if (res == 1) {
      S->count[K_OOM]++;
      return false;
    }
    if (what == 5) {
      const char* want = s.a[2] % 4 == 0 ? "invalid_argument" : s.a[2] % 4 == 1 ? "own" : "runtime_error";
      if (res != 2 || std::strcmp(type, want))
        bad("exception", std::string("a terminating error ") + (res ? "raised another exception: " + brief(x) : "returned"));
      // (what() is a C string)
      if (x != text.c_str()) bad("text", "a terminating error carries '" + brief(x) + "' instead of '" + brief(text) + "'");
    } else if (res) {
      bad("exception", std::string("a ") + nm + " threw '" + brief(x) + "'");
    }
    return true;
  }
  void fault_end() { recov = msgs->size(); }
  void enabled(Msg& m, int kind) {
    m.on[D_CON] = (level & con_bit[kind]) && con_ok;
    m.skip = (level & con_bit[kind]) && !con_ok;
    m.on[file_of[kind]] = level & file_bit[kind];
    m.stamp = level & 32;
  }
  void begin(Msg& m) {
    os::clock_mark();
    m.times.push_back(os::clk.now);
    m.step = S->step;
  }
  void finish(Msg& m) {
    for (u32 i = 0; i < os::clk.nseen; i++) m.times.push_back(os::clk.seen[i]);
    m.times.push_back(os::clk.now);
  }
  static std::string body(Rng& r, u32 cls) {
    std::size_t n;
    switch (cls % 12) {
      case 0: n = 0; break;
      case 1: case 2: case 3: n = 1 + r.below(14); break;
      case 4: case 5: case 6: n = 15 + r.below(80); break;
      case 7: n = 100 + r.below(900); break;
      case 8: n = 1000 + r.below(1000); break;
      case 9: n = 8150 + r.below(80); break;
      case 10: n = 3000 + r.below(6000); break;
      default: n = 9000 + r.below(12000);
    }
    using namespace std::string_literals;
    static const std::string al[] = {"abcdefghijklmnopqrstuvwxyz0123456789 ", "%s%n%d %% %p \\t", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80 ",
                                     "[]:()<>|;\"'`$!# \t", "ab\0c\0\0de"s, "two lines\n", "\x01\x02\x7f\x80\xff\xfe\x1b\r\b\v "};
    const std::string& a = al[r.below(8) < 5 ? 0 : 1 + r.below(6)];
    const std::size_t k = a.size();
    std::string t;
    while (t.size() < n) t += a[(t.size() * 7 + r.below(3)) % k];
    return t;
  }
  // the lines of all messages since the last terminating error are on disk
  void saved(const char* after) {
    if (!judge_te) return;
    S->count[K_SAVED]++;
    u32 st = S->step;
    bool sv = strict;
    for (int d = D_LOG; d < ND; d++) judge_dest(d, 0, after);
    strict = sv;
    S->step = st;
    set_floor();
  }
  void step(std::size_t idx, const Step& s) {
    S->step = u32(idx);
    S->op = s.op;
    g = mix(g + idx);
    heap_garbage(g);
    u64 sig = s.op * 32 + (s.op == L_MSG ? s.a[0] % 6 : 0);
    sig = sig * 512 + (level & 511);
    sig = sig * 8 + (window ? 1 : 0) + (con_ok ? 2 : 0) + (s.fk ? 4 : 0);
    const bool fault = s.fk && !plan.get("noalloc");
    switch (s.op) {
      case L_MSG: {
        int kind = int(s.a[0] % 6);
        Rng r(s.ds);
        Msg m;
        m.text = "@" + std::to_string(msgs->size()) + "{" + body(r, s.a[1]) + "}@";
        if (m.text.size() > 8191) S->count[K_BIG]++;
        enabled(m, kind);
        begin(m);
        bool ok = call(kind, m.text, s, fault);
        finish(m);
        m.thrown = !ok;
        msgs->push_back(m);
        S->count[K_MSG]++;
        if (!ok || window || fault) fault_end();
        sig = sig * 2 + ok;
        if (ok && kind == 5) {
          S->count[K_TE]++;
          saved(" after the terminating error");
        }
        break;
      }
      case L_LEVEL:
      case L_LEVELLIST: {
        int what = s.op == L_LEVEL ? 6 : 7;
        if (!call(what, "", s, fault)) call(what, "", s, false);
        if (fault || window) fault_end();
        static const unsigned lists[6] = {0, 256 + 64 + 128 + 32, 511, 2 + 128, 256 + 16 + 8 + 1, 4 + 64};
        level = s.op == L_LEVEL ? s.a[0] : lists[s.a[0] % 6];
        S->count[K_LEVEL]++;
        break;
      }
      case L_CLOCK: {
        Rng r(s.ds);
        const i64 lo = -2208988800 + 200000, hi = 9223000000 - 200000;  // also within std::chrono::system_clock
        os::clk.nstep = 0;
        i64 t = os::clk.now;
        switch (s.a[0] % 7) {
          case 0: t += i64(r.below(3)); break;
          case 1: t = lo + i64(r.below(u64(hi - lo))); break;
          case 2: t += i64(r.below(7200)) - 3600; break;
          case 3: t = i64(r.below(4)) - 2; break;
          case 4: t = 951782400 - 3 + i64(r.below(6)); break;  // leap day
          case 5: t = 1711846800 - 2 + i64(r.below(4));        // end of winter time
          default: t = (i64(1) << (31 + r.below(2))) - 2 + i64(r.below(4));  // ends of 32-bit times
        }
        if (t < lo || t > hi) t = 0;
        if (t != os::clk.now) os::disk.fired[os::FI_JUMP]++;
        os::clk.now = t;
        if (s.a[1] % 3) {
          os::clk.nstep = 1 + u32(r.below(7));
          for (u32 i = 0; i < os::clk.nstep; i++) {
            os::clk.step[i] = s.a[1] % 3 == 1 ? i64(r.below(2)) : i64(r.below(7)) * i64(r.below(5000)) - 9000;
          }
          // never leaves the range of representable years
          if (t < lo + 100000000 || t > hi - 100000000) os::clk.nstep = 0;
        }
        break;
      }
      case L_CONSOLE: {
        int k = int(s.a[0] % 6);
        if (k == 0 || k == 5) {
          con.mode = 0;
          std::cout.rdbuf(&con);
          std::cout.clear();
          con_ok = true;
        } else {
          con_ok = false;
          con_fault_seen = true;
          if (k == 4) {
            std::cout.rdbuf(nullptr);
            con.fired[2]++;
          } else {
            con.mode = k;
            con.left = s.a[1] % 300;
          }
        }
        break;
      }
      case L_DISK: {
        if (plan.get("nodisk")) break;
        if (!window) set_floor();
        window = true;
        S->count[K_WIN]++;
        os::disk.rnd = s.ds;
        static const int en[] = {2 /*ENOENT*/, 13 /*EACCES*/, 24 /*EMFILE*/, 28 /*ENOSPC*/, 30 /*EROFS*/, 5 /*EIO*/};
        u32 k = s.a[0];
        if (k & 1) os::disk.open_errno = en[s.a[1] % 6], os::disk.open_left = s.a[2] % 3 ? -1 : int(1 + s.a[2] % 5);
        if (k & 2) os::disk.space = s.a[3] % 4 ? i64(s.a[3] % 20000) : 0;
        if (k & 4) os::disk.eio = s.a[4] % 3 ? -1 : int(1 + s.a[4] % 5);
        if (k & 8) os::disk.shrt = s.a[5] % 3 ? -1 : int(1 + s.a[5] % 9);
        if (k & 16) os::disk.eintr = int(1 + s.a[6] % 4);
        if (k & 32) os::disk.close_errno = 5;
        fault_end();
        break;
      }
      case L_DISKOK:
        disk_ok();
        break;
      default:
        spline(s, fault);
    }
    signature(S, mix(sig));
  }
  void disk_ok() {
    if (!window) return;
    window = false;
    os::disk.open_errno = 0;
    os::disk.space = -1;
    os::disk.eio = os::disk.shrt = os::disk.eintr = os::disk.close_errno = 0;
    fault_end();
  }
  void spline(const Step& s0, bool fault) {
    Step s = s0;
    s.op = (s0.op - NLOP) % NOPS;
    View v;
    v.P = P;
    v.pool = u64(plan.get("wseed")) + 1;
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) v.own[k][i] = &cur[k][i];
    Job j;
    if (!plan_op(s, v, j)) return;
    spline_lines = true;
    S->count[K_SPL]++;
    const int fam = family(j.c.op);
    const bool rej = fam == FAM_REJECT;
    const bool self = j.uses_b && j.c.ka == j.c.kb && j.c.a == j.c.b;
    const Snap A = *j.A, B = *j.B;
    const std::string opn = op_names[j.c.op];
    // without logging, no failures
    Job tj = j;
    void* tw = plain->make();
    plain->set(tw, j.c.ka, j.c.a, A);
    tj.c.w = tw;
    tj.c.store = -1;
    tj.c.fk = 0;
    tj.c.garbage = ~g;
    if (j.uses_b && !self) plain->set(tw, j.c.kb, j.c.b, B);
    std::ios::iostate cs = std::cout.rdstate();
    std::streambuf* cb = std::cout.rdbuf(&sink);
    Out t = plain->exec(tj.c, tj.p);
    std::cout.rdbuf(cb);
    std::cout.clear();
    if (cb) std::cout.clear(cs);
    Snap tpost = plain->snap(tw, j.c.ka, j.c.a);
    plain->destroy(tw);
    if (rej ? t.status != ST_REJECT : t.status != ST_OK) other();
    // with logging
    j.c.w = w;
    j.c.store = -1;
    j.c.garbage = g;
    if (fault) {
      j.c.fk = s.fk;
      j.c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % (t.st.allocs + 9);
      j.c.fcnt = s.fcnt;
    }
    Out o;
    for (int at = 0;; at++) {
      Msg m;
      begin(m);
      o = api->exec(j.c, j.p);
      finish(m);
      S->ticks += 1 + o.st.allocs;
      S->count[K_ALLOC] += o.st.failed;
      if (o.st.failed) S->nontrivial = 1;
      if (rej) {
        // the rejection is a terminating error with that text
        m.token = false;
        m.text = t.what;
        enabled(m, 5);
        m.thrown = o.status != ST_REJECT;
        msgs->push_back(m);
      }
      if (fault && !at) fault_end();
      if (o.status != ST_OOM) break;
      S->count[K_OOM]++;
      if (!o.st.failed || at > 2) bad("exception", opn + " with logging reports exhausted memory although no allocation failed");
      if (fam == FAM_INPLACE) {
        Snap now = api->snap(w, j.c.ka, j.c.a);
        std::string why;
        if (!consistent(now, why)) other();
        if (!same_bits(now, A)) {
          // restart from the state before (what a failure leaves is C01's matter)
          api->set(w, j.c.ka, j.c.a, A);
          if (j.uses_b) api->set(w, j.c.kb, j.c.b, B);
        }
      }
      j.c.fk = 0;
    }
    if (window) fault_end();
    if (o.status != t.status)
      bad("outcome", opn + " with logging " +
                         (o.status == ST_OK ? "returned normally" : "threw '" + brief(o.what) + "'") + ", without logging " +
                         (t.status == ST_OK ? "it returns normally" : "it threw '" + brief(t.what) + "'"));
    S->count[K_TWIN]++;
    if (rej) {
      S->count[K_REJ]++;
      if (o.what != t.what) bad("text", opn + ": the explanation is '" + brief(o.what) + "' instead of '" + brief(t.what) + "'");
      saved(" after the rejected request");
      return;
    }
    bool same = true;
    if (fam == FAM_INPLACE) {
      Snap post = api->snap(w, j.c.ka, j.c.a);
      same = same_bits(post, tpost);
      cur[j.c.ka][j.c.a] = post;
      if (j.c.op == O_UPDATEDEG || !admissible(post, P)) fill(j.c.ka, j.c.a, s.ds ^ 5);
      if (j.c.op == O_MOVEASSIGN) fill(j.c.kb, j.c.b, s.ds ^ 6);
    } else {
      same = o.res.size() == t.res.size() && o.vals.size() == t.vals.size() &&
             (o.vals.empty() || !std::memcmp(o.vals.data(), t.vals.data(), o.vals.size() * 8));
      for (std::size_t i = 0; same && i < o.res.size(); i++) same = same_bits(o.res[i], t.res[i]);
    }
    if (!same) bad("differs", opn + " gives another result with logging than without");
    Hash h;
    h.add(S->hash[0]);
    for (auto& q : o.res) h.add(q.hash());
    h.add(cur[j.c.ka][j.c.a].hash());
    h.bytes(o.vals.data(), o.vals.size() * 8);
    S->hash[0] = h.h;
  }
  [[noreturn]] void other() {
    S->count[K_OTHER]++;
    S->note[0] = 'o';
    S->done = 1;
    child_stop(0);
  }
};

struct LogH : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override {
    return op < NLOP ? lop_names[op] : op - NLOP < NOPS ? op_names[op - NLOP] : "?";
  }
  Plan gen(const std::string& pr, u64 seed) override {
    Plan p;
    p.prop = pr;
    p.seed = seed;
    Rng r(seed);
    double x = r.uni();
    p.h["P"] = x < 0.6 ? 1 : x < 0.9 ? 2 : 3;
    p.h["wseed"] = i64(r.below(1u << 30));
    p.h["garbage"] = i64(r.below(1u << 30));
    p.h["tz"] = i64(r.below(4));
    p.h["now"] = i64(1000000000 + r.below(1000000000));
    p.h["tick"] = i64(r.below(3));
    p.h["crash"] = pr == "C10" ? r.chance(0.7) : 0;
    // weights: message, level, clock, console, disk, spline, rejection
    double wt[7] = {10, 2, 0.7, 0.3, 0, 0.3, 0.5};
    double te = 0.2, fault = 0;
    if (pr == "C08") { wt[0] = 2; wt[1] = 2; wt[3] = 0.8; wt[4] = 1; wt[5] = 8; wt[6] = 1; fault = r.chance(0.4) ? 0.2 : 0; }
    if (pr == "C09") { wt[3] = r.chance(0.2) ? 0.5 : 0; wt[5] = r.chance(0.3) ? 1 : 0; te = r.chance(0.5) ? 0.05 : 0.25; }
    if (pr == "C10") { te = r.chance(0.5) ? 0.35 : 0.15; wt[6] = 1; fault = 0; }
    if (pr == "C12") { wt[4] = 1.5; te = 0.2; }
    if (pr == "C05") { wt[4] = 1; wt[3] = 0.5; fault = r.chance(0.8) ? 0.4 : 0; wt[5] = 1; wt[6] = 1; }
    if (pr == "C07") { wt[4] = 1; wt[3] = 0.6; wt[6] = 6; wt[0] = 4; wt[2] = 1; wt[5] = 1; fault = r.chance(0.5) ? 0.3 : 0; }
    double sum = 0;
    for (double y : wt) sum += y;
    int n = 5 + int(r.below(35));
    if (r.chance(0.02)) n += 100 + int(r.below(400));
    const bool small = r.chance(0.5);
    // often start with everything enabled
    auto lvl = [&]() {
      Step s;
      s.op = r.chance(0.75) ? L_LEVEL : L_LEVELLIST;
      s.a[0] = s.op == L_LEVEL ? (r.chance(0.3) ? 511 : r.chance(0.5) ? u32(r.below(512)) : u32(448 | r.below(64))) : u32(r.below(6));
      if (s.op == L_LEVEL && r.chance(0.03)) s.a[0] |= 512u << r.below(10);
      return s;
    };
    auto msg = [&](bool f) {
      Step s;
      s.op = L_MSG;
      s.a[0] = r.chance(te) ? 5 : u32(r.below(5));
      s.a[1] = small ? u32(r.below(8)) : u32(r.below(12));
      s.a[2] = u32(r.below(4));
      s.ds = r.next() >> 20;
      if (f && r.chance(fault)) {
        s.fk = 1 + u32(r.below(3));
        s.fpos = u32(r.below(24));
        s.fcnt = 1 + u32(r.below(4));
      }
      return s;
    };
    if (r.chance(0.8)) p.steps.push_back(lvl());
    bool win = false;
    for (int i = 0; i < n; i++) {
      double y = r.uni() * sum;
      int c = 0;
      while (c < 6 && y >= wt[c]) y -= wt[c], c++;
      Step s;
      switch (c) {
        case 0: s = msg(true); break;
        case 1:
          s = lvl();
          if (r.chance(fault)) s.fk = 1 + u32(r.below(3)), s.fpos = u32(r.below(12)), s.fcnt = 1 + u32(r.below(3));
          break;
        case 2:
          s.op = L_CLOCK;
          s.a[0] = u32(r.below(6));
          s.a[1] = u32(r.below(3));
          s.ds = r.next() >> 20;
          break;
        case 3:
          s.op = L_CONSOLE;
          s.a[0] = u32(r.below(6));
          s.a[1] = u32(r.below(300));
          break;
        case 4:
          s.op = win ? L_DISKOK : L_DISK;
          win = !win;
          if (s.op == L_DISK) {
            s.a[0] = r.chance(0.3) ? 1 : r.chance(0.5) ? 1u << r.below(6) : 1 + u32(r.below(63));
            for (int k = 1; k < 7; k++) s.a[k] = u32(r.below(20000));
            s.ds = r.next() >> 20;
          }
          break;
        default: {
          double w4[4] = {1, 1.2, 0.3, 0};
          if (c == 6) w4[0] = w4[1] = w4[2] = 0, w4[3] = 1;
          s = random_step(r, w4, 0.1, fault);
          if (c == 5 && r.chance(0.4)) {
            static const u32 loud[] = {O_ELEVATE, O_DERIV, O_SPLIT, O_SPLITV, O_POWER, O_FITCUBE, O_TRANSSCALE};
            s.op = loud[r.below(7)];
          }
          s.op += NLOP;
        }
      }
      p.steps.push_back(s);
    }
    if (win) {
      Step s;
      s.op = L_DISKOK;
      p.steps.push_back(s);
    }
    // work after the faults
    if (pr == "C12" || pr == "C05" || pr == "C07") {
      if (r.chance(0.5)) p.steps.push_back(lvl());
      int k = 1 + int(r.below(8));
      for (int i = 0; i < k; i++) p.steps.push_back(msg(false));
    }
    return p;
  }
  void simplify_header(const Plan& p, std::vector<Plan>& out) override {
    for (const char* k : {"tz", "tick", "crash", "garbage"})
      if (p.get(k)) {
        Plan q = p;
        q.h[k] = 0;
        out.push_back(q);
      }
  }
  std::string describe(const Step& s) override {
    std::string t = op_name(s.op);
    if (s.op == L_MSG) {
      t = std::string(kind_name[s.a[0] % 6]) + " length class " + std::to_string(s.a[1] % 12);
    } else if (s.op == L_DISK) {
      static const char* n[6] = {" open-fails", " full", " io-error", " short", " interrupted", " close-fails"};
      for (int i = 0; i < 6; i++)
        if (s.a[0] >> i & 1) t += n[i];
    } else {
      t += " " + std::to_string(s.a[0]) + "," + std::to_string(s.a[1]) + "," + std::to_string(s.a[2]);
    }
    if (s.fk) t += " FAULT allocation kind " + std::to_string(s.fk) + " at " + std::to_string(s.fpos);
    return t;
  }
  RunResult run(const Plan& p) override {
    Shared* a = shared_block(0);
    S = a;
    heap_runaway = [](const char* w) { bad("hang", std::string("a call exceeded its bound of ") + w); };
    step_budget(250000000);
    ChildStatus st = in_child(a, [&](Shared*) {
      prop = p.prop;
      judge_log = prop != "C08" && prop != "C10";
      judge_te = prop == "C10";
      msgs = new std::vector<Msg>;
      for (int d = 0; d < ND; d++) floor_c[d] = new std::string;
      strict = true;
      for (auto& s : p.steps)
        if (s.fk || s.op == L_DISK) strict = false;
      static const char* const tz[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+0545>-5:45"};
      setenv("TZ", tz[p.get("tz") & 3], 1);
      tzset();
      os::reset();
      os::clk.now = p.get("now");
      if (p.get("tick")) {
        os::clk.nstep = 3;
        os::clk.step[0] = p.get("tick") == 2;
        os::clk.step[1] = 0;
        os::clk.step[2] = 1;
      }
      os::on_change = on_change;
      os::active = true;
      std::cout.rdbuf(&con);
      std::cout.clear();
      atexit(at_end);
      Runner r(p);
      for (std::size_t i = 0; i < p.steps.size(); i++) r.step(i, p.steps[i]);
      r.disk_ok();
      S->step = u32(p.steps.size());
      ended = true;
      if (p.get("crash")) {
        S->count[K_CRASH]++;
        os::active = false;
        stats();
        S->done = 1;
        child_stop(0);
      }
      exit(0);
    });
    RunResult res = collect(a, st);
    return res;
  }
};
}  // namespace
int main(int argc, char** argv) {
  LogH h;
  return harness_main(h, argc, argv);
}

// Thread simulator: programs of several threads on own and shared splines and
// on the logger, under seeded schedules, with failing allocations, disks and
// consoles (C06, C11 and parts of C05, C07, C10).
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <cmath>
#include <streambuf>

#include "oplan.hpp"
#include "simos.hpp"
#include "thr.hpp"
#include "thr_lib.hpp"

using namespace sim;
namespace sim {
const Api* ops_p1();
const Api* ops_p2();
const Api* ops_p3();
}  // namespace sim
namespace {
#ifdef ENABLE_LOGGING
constexpr bool LOGGING = true;
#else
constexpr bool LOGGING = false;
#endif
enum { T_MSG, T_LEVEL, T_LEVELLIST, T_B64, T_AD, T_MISC, T_COMPOSE, NTOP };
const char* const top_names[] = {"message", "set-level", "set-level-list", "base64", "algo-diff", "helper", "compose"};
const char* const kind_name[6] = {"warning", "user information", "log message", "extended information", "error", "terminating error"};
enum {
  K_STEPS, K_SPL, K_SHARED, K_REJ, K_MSG, K_TE, K_LEVEL, K_OOM, K_CMP, K_LINES, K_STAMPS, K_PAIRS, K_SAVED, K_SKIP,
  K_ACC, K_SYNC, K_SWITCH, K_BLOCK, K_FORCED, K_FIRST, K_PA, K_PS, K_PO, K_ALLOC, K_OPEN, K_SPACE, K_EIO, K_CON, K_JUMP,
  K_OTHER, NK
};
const char* const counters[] = {
    "operations executed", "spline operations executed", "of them on shared splines", "requests rejected", "messages issued",
    "terminating errors raised and caught", "level changes", "calls that ran out of memory",
    "results compared with running alone", "log lines judged", "time stamps judged", "ordered pairs of messages judged",
    "terminating errors whose lines were checked on disk", "operations outside the covered domain",
    "memory accesses observed", "synchronisation events", "context switches", "waits for a lock", "switches forced by fairness",
    "runs in which threads meet at their first use",
    "fault: thread preempted between two memory accesses", "fault: thread preempted at a synchronisation or shared access",
    "fault: thread preempted between operations", "fault: allocation failed", "fault: log file could not be opened",
    "fault: disk full", "fault: write I/O error", "fault: console write failed", "fault: clock jump",
    "runs ended by a violation of another property", nullptr};

Shared* S;
std::string prop;
u32 at_step[thr::MAXT];
u32 at_op[thr::MAXT];
std::string opname(u32 op) {
  return op < NTOP ? top_names[op] : op - NTOP < NOPS ? op_names[op - NTOP] : "?";
}
[[noreturn]] void other() {
  os::active = false;
  S->count[K_OTHER]++;
  S->note[0] = 'o';
  S->done = 1;
  child_stop(0);
}
bool relevant(const std::string& c, u32 op) {
  if (prop == "C06") return true;
  const bool sync = c == "race" || c == "deadlock" || c == "lock" || c == "hang";
  const bool log = c == "lost" || c == "torn" || c == "repeated" || c == "order" || c == "disabled" || c == "stamp" ||
                   c == "foreign" || c == "exit";
  if (prop == "C11") return sync || log || c == "text" || c == "exception";
  if (prop == "C05") return c == "deadlock" || c == "hang" || c == "retry";
  if (prop == "C07") return c == "reject" || (c == "deadlock" && (op == T_MSG || (op >= NTOP && op_reject(op - NTOP))));
  if (prop == "C10") return c == "lost" || c == "torn" || c == "destroyed";
  return false;
}
[[noreturn]] void bad(const char* cls, const std::string& m) {
  thr::racing = false;
  os::active = false;
  int t = thr::self();
  if (t) {
    S->step = at_step[t];
    S->op = at_op[t];
  }
  if (!relevant(cls, S->op)) other();
  violation(S, cls, m);
  child_stop(3);
}
std::string brief(const std::string& t) { return t.size() > 40 ? t.substr(0, 40) + "..." : t; }

// ---------------------------------------------------------------- console
struct Console : std::streambuf {
  char* d = nullptr;
  std::size_t n = 0, cap = 0;
  int mode = 0;  // 0 works, 1 fails, 2 throws
  u64 fired = 0;
  std::streamsize xsputn(const char* p, std::streamsize k) override {
    thr::sync_event();
    if (mode) {
      fired++;
      if (mode == 2) throw 1;
      return 0;
    }
    if (n + std::size_t(k) > cap) {
      cap = (n + std::size_t(k)) * 2 + 4096;
      d = static_cast<char*>(realloc(d, cap));
      if (!d) abort();
    }
    if (k) std::memcpy(d + n, p, std::size_t(k));
    n += std::size_t(k);
    return k;
  }
  int overflow(int c) override {
    char x = char(c);
    return xsputn(&x, 1) == 1 ? c : EOF;
  }
  int sync() override { return mode ? -1 : 0; }
};
Console con;

// ------------------------------------------------------------- the history
enum { D_CON, D_LOG, D_WARN, D_ERR, ND };
const char* const fnames[ND] = {"", "log_file.log", "warning_file.log", "error_file.log"};
const char* dest_name(int d) { return d == D_CON ? "the console" : fnames[d]; }
const unsigned con_bit[6] = {4, 1, 8, 16, 2, 2};
const unsigned file_bit[6] = {64, 256, 256, 256, 128, 128};
const int file_of[6] = {D_WARN, D_LOG, D_LOG, D_LOG, D_ERR, D_ERR};
constexpr u64 NEVER = ~0ull;
struct Msg {
  std::string text;
  int kind, th;
  u32 step;
  bool token;
  u64 b = 0, e = NEVER;
  i64 times[16];  // (no allocation while the library runs)
  u32 nt = 0;
};
struct Level {
  u64 b, e;
  unsigned v;
};
std::vector<Msg>* msgs;
std::vector<Level>* levels;
int writing[thr::MAXT];  // message a thread is issuing, -1: none
bool spline_lines = false, faulty = false, ended = false;
std::size_t floor_n[ND];

std::string content(int d) {
  if (d == D_CON) return std::string(con.d ? con.d : "", con.n);
  os::File* f = os::file(fnames[d]);
  return f && f->exists ? std::string(f->data ? f->data : "", f->n) : std::string();
}
std::string stamp_of(i64 t) {
  static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
  static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  struct tm tm;
  time_t tt = time_t(t);
  localtime_r(&tt, &tm);
  char b[96];
  snprintf(b, sizeof b, "%s %s%3d %.2d:%.2d:%.2d %d", wd[tm.tm_wday], mo[tm.tm_mon], tm.tm_mday, tm.tm_hour, tm.tm_min,
           tm.tm_sec, tm.tm_year + 1900);
  return b;
}
// what the levels that may have been in force say: 2 always, 1 possibly, 0 never
int enabled(const Msg& m, unsigned bit) {
  bool all = true, any = false;
  for (auto& l : *levels) {
    if (l.b > m.e) continue;
    bool over = false;
    for (auto& k : *levels) over = over || (l.e < k.b && k.e < m.b);
    if (over) continue;
    if (l.v & bit) any = true; else all = false;
  }
  return all ? 2 : any ? 1 : 0;
}
unsigned bit_for(const Msg& m, int d) { return d == D_CON ? con_bit[m.kind] : file_of[m.kind] == d ? file_bit[m.kind] : 0; }
std::string who(std::size_t i) {
  return "the " + std::string(kind_name[(*msgs)[i].kind]) + " " + std::to_string(i) + " of thread " + std::to_string((*msgs)[i].th);
}
// a message that must be in d is there as a whole line
void present(std::size_t i, int d, const std::string& c, const std::string& where) {
  const Msg& m = (*msgs)[i];
  std::size_t p = c.find(m.text);
  if (p == std::string::npos) {
    std::size_t t = m.token ? c.find(m.text.substr(0, m.text.find('{') + 1)) : std::string::npos;
    bad(t == std::string::npos ? "lost" : "torn", where + (t == std::string::npos ? " lacks " : " shows a torn line for ") + who(i));
  }
  if (c.find('\n', p + m.text.size()) == std::string::npos) bad("torn", where + ": the line of " + who(i) + " does not end");
  (void)d;
}
// at the return of a terminating error of thread t
void judge_saved(std::size_t own) {
  S->count[K_SAVED]++;
  for (int d = D_LOG; d < ND; d++) {
    const std::string c = content(d);
    const std::string where = std::string(fnames[d]) + " at the return of " + who(own);
    for (std::size_t i = 0; i < msgs->size(); i++) {
      const Msg& m = (*msgs)[i];
      if (i != own && m.e > (*msgs)[own].b) continue;
      if (enabled(m, bit_for(m, d)) == 2) present(i, d, c, where);
    }
    floor_n[d] = c.size();
  }
}
void on_change(os::File& f, std::size_t keep) {
  for (int d = D_LOG; d < ND; d++)
    if (!std::strcmp(f.name, fnames[d]) && keep < floor_n[d])
      bad("destroyed", std::string(fnames[d]) + ": of the " + std::to_string(floor_n[d]) +
                           " bytes that were safely on disk only " + std::to_string(keep) + " remain");
}
void judge_dest(int d, const char* when) {
  const std::string c = content(d);
  const std::string where = std::string(dest_name(d)) + when;
  struct Pos {
    std::size_t p, i;
  };
  std::vector<Pos> at;
  std::map<int, std::pair<std::string, std::string>> shape;  // kind and stamped: before, after
  std::map<std::string, std::pair<u64, u64>> plain;
  for (std::size_t i = 0; i < msgs->size(); i++) {
    const Msg& m = (*msgs)[i];
    S->step = m.step;
    const int en = enabled(m, bit_for(m, d));
    if (!m.token) {
      auto& x = plain[m.text];
      x.first += en == 2;
      x.second += en > 0;
      continue;
    }
    std::size_t p = c.find(m.text);
    if (en == 2) present(i, d, c, where);
    if (p == std::string::npos) continue;
    if (!en) bad("disabled", where + " shows " + who(i) + ", whose kind is not enabled there");
    S->count[K_LINES]++;
    if (c.find(m.text, p + m.text.size()) != std::string::npos) bad("repeated", where + " shows " + who(i) + " more than once");
    at.push_back(Pos{p, i});
    std::size_t e = p + m.text.size();
    std::size_t nl = c.find('\n', e);
    if (nl == std::string::npos) bad("torn", where + ": the line of " + who(i) + " does not end");
    std::size_t b = p ? c.rfind('\n', p - 1) : std::string::npos;
    b = b == std::string::npos ? 0 : b + 1;
    std::string pre = c.substr(b, p - b), post = c.substr(e, nl - e);
    if (pre.find("}@") != std::string::npos || post.find("}@") != std::string::npos || pre.find("@#") != std::string::npos ||
        post.find("@#") != std::string::npos)
      bad("torn", where + ": " + who(i) + " shares its line with another message");
    if (d != D_CON && !post.empty()) bad("torn", where + ": something follows " + who(i) + " on its line: '" + brief(post) + "'");
    bool stamped = false;
    const int st = enabled(m, 32);
    for (u32 q = 0; q < m.nt; q++) {
      std::string s = stamp_of(m.times[q]);
      std::size_t f = pre.find(s);
      if (f != std::string::npos) {
        stamped = true;
        pre.erase(f, s.size());
        break;
      }
    }
    if (LOGGING) {
      S->count[K_STAMPS]++;
      if (st == 2 && !stamped)
        bad("stamp", where + ": the line of " + who(i) + " has not its time of issue but '" + brief(pre) + "'");
      if (st == 0 && stamped) bad("stamp", where + ": the line of " + who(i) + " has a time stamp although they are disabled");
    }
    auto it = shape.find(m.kind * 2 + stamped);
    if (it == shape.end()) {
      shape[m.kind * 2 + stamped] = {pre, post};
    } else if (it->second.first != pre || it->second.second != post) {
      bad("torn", where + ": the line of " + who(i) + " is '" + brief(pre) + "..." + brief(post) + "', that of another one is '" +
                      brief(it->second.first) + "..." + brief(it->second.second) + "'");
    }
  }
  for (auto& p : plain) {
    u64 n = 0;
    for (std::size_t x = c.find(p.first); x != std::string::npos; x = c.find(p.first, x + 1)) {
      // (a longer text may begin with this one)
      const char after = x + p.first.size() < c.size() ? c[x + p.first.size()] : 0;
      n += after == '\n' || after == '\x1b';
    }
    if (n < p.second.first || n > p.second.second)
      bad("lost", where + " shows '" + brief(p.first) + "' " + std::to_string(n) + " times, it was issued " +
                      std::to_string(p.second.first) + " to " + std::to_string(p.second.second) + " times");
  }
  for (auto& x : at)
    for (auto& y : at)
      if (x.p < y.p) {
        S->count[K_PAIRS]++;
        if ((*msgs)[y.i].e < (*msgs)[x.i].b)
          bad("order", where + " shows " + who(x.i) + " before " + who(y.i) + ", which had been issued before it began");
      }
  if (spline_lines) return;
  std::size_t b = 0;
  while (b < c.size()) {
    std::size_t nl = c.find('\n', b);
    if (nl == std::string::npos) bad("torn", where + " ends within a line");
    std::string l = c.substr(b, nl - b);
    b = nl + 1;
    bool known = l.find("}@") != std::string::npos;
    for (auto& p : plain) known = known || l.find(p.first) != std::string::npos;
    if (!known) bad("foreign", where + " has a line that belongs to no message: '" + brief(l) + "'");
  }
}
void stats() {
  const int k[] = {os::FI_OPEN, K_OPEN, os::FI_SPACE, K_SPACE, os::FI_EIO, K_EIO, os::FI_JUMP, K_JUMP};
  for (int i = 0; i < 8; i += 2) S->count[k[i + 1]] = os::disk.fired[k[i]];
  S->count[K_CON] = con.fired;
  S->count[K_ACC] = thr::stats.accesses;
  S->count[K_SYNC] = thr::stats.syncs;
  S->count[K_SWITCH] = thr::stats.switches;
  S->count[K_BLOCK] = thr::stats.blocks;
  S->count[K_FORCED] = thr::stats.forced;
  S->count[K_PA] = thr::stats.fired[thr::PK_ACCESS];
  S->count[K_PS] = thr::stats.fired[thr::PK_SYNC];
  S->count[K_PO] = thr::stats.fired[thr::PK_STEP];
  S->ticks = thr::stats.accesses + thr::stats.syncs;
  if (thr::stats.preempts) S->nontrivial = 1;
  for (int i : {K_OPEN, K_SPACE, K_EIO, K_CON, K_ALLOC})
    if (S->count[i]) S->nontrivial = 1;
  signature(S, mix(thr::stats.order));
  Hash h;
  h.add(S->hash[0]);
  h.add(thr::stats.order);
  for (int d = D_CON; d < ND; d++) h.str(content(d));
  S->hash[0] = h.h;
}
void at_end() {
  os::active = false;
  if (!ended) bad("exit", "the library ended the program");
  stats();
  if (prop == "C11" && !faulty)
    for (int d = D_CON; d < ND; d++) judge_dest(d, " after a normal end");
  S->done = 1;
  _exit(0);
}

// ------------------------------------------------------------------ threads
struct Extra {
  u32 n, complete;
  u64 v[4000];
};
struct Program {
  const Plan& plan;
  int P;
  const Api* api;
  const void* shared = nullptr;
  Snap sh[NKIND][NSL];
  bool solo;
  explicit Program(const Plan& p, bool alone) : plan(p), solo(alone) {
    P = int(p.get("P", 1));
    api = P == 1 ? ops_p1() : P == 2 ? ops_p2() : ops_p3();
    if (p.get("shared")) {
      void* w = api->make();
      Rng r{u64(p.get("wseed")) ^ 0x5A};
      for (int k = 0; k < NKIND; k++)
        for (int i = 0; i < NSL; i++) {
          sh[k][i] = random_spline(P, k, r.next(), 3);
          api->set(w, k, i, sh[k][i]);
        }
      shared = w;
    }
    if (p.get("compose")) lib_shared(u64(p.get("wseed")));
  }
  void result(std::size_t idx, u64 h, const std::string& what) {
    Extra* e = reinterpret_cast<Extra*>(shared_block(1)->extra);
    if (solo) {
      e->v[idx] = h;
      return;
    }
    if (!plan.get("alone")) return;
    S->count[K_CMP]++;
    if (e->v[idx] != h) bad("differs", what + " gives another result than when the thread runs alone");
  }
  void check_shared() {
    if (!shared) return;
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++)
        if (!same_bits(api->snap(const_cast<void*>(shared), k, i), sh[k][i]))
          bad("bystander", "a shared spline that nobody modifies has changed");
  }
};
struct Thread {
  Program& g;
  const int th;
  void* w = nullptr;
  Snap cur[NKIND][NSL];
  u64 rnd;
  Thread(Program& p, int t) : g(p), th(t) {
    rnd = mix(u64(p.plan.get("garbage")) + u64(t));
    if (p.plan.get("worlds")) {
      thr::Lib in;
      w = g.api->make();
    }
    if (w) {
      Rng r{u64(p.plan.get("wseed")) + u64(t) * 1000};
      for (int k = 0; k < NKIND; k++)
        for (int i = 0; i < NSL; i++) fill(k, i, r.next());
    }
  }
  ~Thread() {
    if (w) {
      thr::Lib in;
      g.api->destroy(w);
    }
  }
  void fill(int k, int i, u64 seed) {
    cur[k][i] = random_spline(g.P, k, seed, int(g.plan.get("maxdeg", 3)));
    thr::Lib in;
    g.api->set(w, k, i, cur[k][i]);
  }
  void account(const ArmStats& st) {
    S->count[K_ALLOC] += st.failed;
  }
  void go() {
    std::size_t n = 0;
    for (std::size_t i = 0; i < g.plan.steps.size(); i++) {
      const Step& s = g.plan.steps[i];
      if (int(s.th) != th) continue;
      thr::step_is(u32(i));
      at_step[th] = u32(i);
      at_op[th] = s.op;
      S->step = u32(i);
      S->op = s.op;
      thr::boundary();
      S->step = u32(i);
      S->op = s.op;
      heap_garbage(rnd = mix(rnd + i));
      step(i, s);
      n++;
    }
    thr::boundary();
  }
  void step(std::size_t idx, const Step& s) {
    S->count[K_STEPS]++;
    const u32 fk = g.solo ? 0 : s.fk;
    switch (s.op) {
      case T_MSG:
        message(idx, s, fk);
        return;
      case T_LEVEL:
      case T_LEVELLIST: {
        static const unsigned lists[6] = {0, 256 + 64 + 128 + 32, 511, 2 + 128, 256 + 16 + 8 + 1, 4 + 64};
        const std::size_t at = levels->size();
        levels->push_back(Level{thr::now(), NEVER, s.op == T_LEVEL ? s.a[0] : lists[s.a[0] % 6]});
        LibOut o;
        for (int k = 0; k < 2; k++) {
          thr::Lib in;
          o = lib_log(s.op == T_LEVEL ? 6 : 7, s.a[0], s.a[0], "", k ? 0 : fk, s.fpos % 12, s.fcnt);
          account(o.st);
          if (o.status == 0) break;
          if (o.status != 1 || !o.st.failed)
            bad(k ? "retry" : "exception", "a level change threw '" + brief(o.what) + "'" + (o.status == 1 ? " although no allocation failed" : ""));
          S->count[K_OOM]++;
        }
        (*levels)[at].e = thr::now();
        S->count[K_LEVEL]++;
        return;
      }
      case T_B64:
      case T_AD:
      case T_MISC:
      case T_COMPOSE: {
        if (s.op == T_COMPOSE && !g.plan.get("compose")) return;
        LibOut o;
        auto f = s.op == T_B64 ? lib_b64 : s.op == T_AD ? lib_ad : s.op == T_MISC ? lib_misc : lib_compose;
        for (int k = 0; k < 2; k++) {
          thr::Lib in;
          o = f(s.ds, k ? 0 : fk, s.fpos, s.fcnt);
          account(o.st);
          // (a text made while memory is exhausted may be cut short by the C++ streams)
          if (o.status != 1 && (k || !o.st.failed)) break;
          if (o.status == 1 && !o.st.failed) bad(k ? "retry" : "exception", opname(s.op) + " reports exhausted memory although no allocation failed");
          S->count[K_OOM] += o.status == 1;
        }
        if (o.status == 2 && s.op == T_COMPOSE) {
          S->count[K_REJ]++;
          spline_lines = true;
        }
        Hash h;
        h.add(u64(o.status));
        h.str(o.what);
        h.str(o.type);
        h.str(o.text);
        h.bytes(o.vals.data(), o.vals.size() * 8);
        g.result(idx, h.h, opname(s.op) + (o.status ? " ('" + brief(o.what) + "')" : ""));
        return;
      }
      default:
        if (w) spline(idx, s, fk);
    }
  }
  static std::string body(Rng& r, u32 cls) {
    std::size_t n = cls % 8 == 0 ? 0 : cls % 8 < 5 ? 1 + r.below(60) : cls % 8 == 5 ? 500 + r.below(600) : cls % 8 == 6 ? 7000 + r.below(2500) : 15 + r.below(10);
    static const char a[] = "abcdefghijklmnopqrstuvwxyz0123456789 []:";
    std::string t;
    while (t.size() < n) t += a[(t.size() * 7 + r.below(3)) % (sizeof a - 1)];
    return t;
  }
  std::size_t begin(int kind, const std::string& text, bool token, u32 step) {
    Msg m;
    m.kind = kind;
    m.th = th;
    m.step = step;
    m.token = token;
    m.text = text;
    m.b = thr::now();
    msgs->push_back(m);
    writing[th] = int(msgs->size()) - 1;
    return msgs->size() - 1;
  }
  void message(std::size_t idx, const Step& s, u32 fk) {
    Rng r(s.ds);
    const int kind = int(s.a[0] % 6);
    S->count[K_MSG]++;
    const std::string bod = body(r, s.a[1]);
    for (int k = 0; k < 2; k++) {
      // two messages of a program never have the same text
      const std::string text = "@#" + std::to_string(idx) + (k ? "r" : "") + "{" + bod + "}@";
      std::size_t m = begin(kind, text, true, u32(idx));
      LibOut o;
      {
        thr::Lib in;
        o = lib_log(kind, s.a[2], 0, text, k ? 0 : fk, s.fpos % 12, s.fcnt);
      }
      (*msgs)[m].e = thr::now();
      writing[th] = -1;
      account(o.st);
      if (o.status == 1) {
        if (!o.st.failed) bad(k ? "retry" : "exception", std::string("a ") + kind_name[kind] + " reports exhausted memory although no allocation failed");
        S->count[K_OOM]++;
        continue;
      }
      if (kind == 5) {
        const char* want = s.a[2] % 4 == 0 ? "invalid_argument" : s.a[2] % 4 == 1 ? "own" : "runtime_error";
        const char* cls = prop == "C07" ? "reject" : "exception";
        if (o.status != 2 || std::strcmp(o.type, want))
          bad(cls, std::string("a terminating error ") + (o.status ? "raised another exception: " + brief(o.what) : "returned"));
        if (o.what != text) bad(prop == "C07" ? "reject" : "text", "a terminating error carries '" + brief(o.what) + "' instead of '" + brief(text) + "'");
        S->count[K_TE]++;
        if (prop == "C10" && LOGGING && !faulty) judge_saved(m);
      } else if (o.status) {
        bad("exception", std::string("a ") + kind_name[kind] + " threw '" + brief(o.what) + "'");
      }
      break;
    }
  }
  void spline(std::size_t idx, const Step& s0, u32 fk) {
    Step s = s0;
    s.op = (s0.op - NTOP) % NOPS;
    View v;
    v.P = g.P;
    v.pool = u64(g.plan.get("wseed")) + 1;
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) {
        v.own[k][i] = &cur[k][i];
        if (g.shared) v.shared[k][i] = &g.sh[k][i];
      }
    Job j;
    if (!plan_op(s, v, j)) {
      S->count[K_SKIP]++;
      return;
    }
    spline_lines = true;
    S->count[K_SPL]++;
    const int fam = family(j.c.op);
    const bool rej = fam == FAM_REJECT;
    const Snap A = *j.A, B = *j.B;
    const bool bown = j.uses_b && j.c.b < NSL;
    if (j.c.a >= NSL || (j.uses_b && !bown)) S->count[K_SHARED]++;
    const std::string opn = op_names[j.c.op];
    j.c.w = w;
    j.c.shared = g.shared;
    j.c.store = -1;
    j.c.garbage = rnd;
    j.c.fk = fk;
    j.c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % 40;
    j.c.fcnt = s.fcnt;
    Out o;
    for (int at = 0;; at++) {
      std::size_t m = 0;
      const u64 b = thr::now();
      if (rej) m = begin(5, "", false, u32(idx));
      {
        thr::Lib in;
        o = g.api->exec(j.c, j.p);
      }
      if (rej) {
        (*msgs)[m].e = thr::now();
        (*msgs)[m].b = b;
        (*msgs)[m].text = o.status == ST_REJECT ? o.what : "(out of memory)";
        writing[th] = -1;
      }
      account(o.st);
      if (o.status != ST_OOM) break;
      S->count[K_OOM]++;
      if (!o.st.failed || at > 2) bad(at ? "retry" : "exception", opn + " reports exhausted memory although no allocation failed");
      if (fam == FAM_INPLACE) {
        Snap now = g.api->snap(w, j.c.ka, j.c.a);
        if (!same_bits(now, A)) {
          thr::Lib in;
          g.api->set(w, j.c.ka, j.c.a, A);
          if (bown && !(j.c.ka == j.c.kb && j.c.a == j.c.b)) g.api->set(w, j.c.kb, j.c.b, B);
        }
      }
      j.c.fk = 0;
    }
    Hash h;
    h.add(u64(o.status));
    h.str(o.what);
    for (auto& q : o.res) h.add(q.hash());
    h.bytes(o.vals.data(), o.vals.size() * 8);
    if (rej) {
      S->count[K_REJ]++;
      if (prop == "C07") {
        Extra* e = reinterpret_cast<Extra*>(shared_block(1)->extra);
        if (o.status != ST_REJECT || (!g.solo && g.plan.get("alone") && e->v[idx] != h.h))
          bad("reject", opn + " of an inadmissible request " + (o.status == ST_OK ? "returned" : "threw '" + brief(o.what) + "'") +
                            (g.solo ? "" : ", unlike in a thread of its own"));
      }
      if (prop == "C10" && LOGGING && !faulty && o.status == ST_REJECT) judge_saved(last_of_thread());
    }
    if (o.status == ST_OK && fam == FAM_INPLACE) {
      Snap post = g.api->snap(w, j.c.ka, j.c.a);
      h.add(post.hash());
      cur[j.c.ka][j.c.a] = post;
      if (j.c.op == O_UPDATEDEG || !admissible(post, g.P)) fill(j.c.ka, j.c.a, s.ds ^ 5);
      if (j.c.op == O_MOVEASSIGN) fill(j.c.kb, j.c.b, s.ds ^ 6);
    }
    g.result(idx, h.h, opn + (o.status ? " ('" + brief(o.what) + "')" : ""));
    // the operands nobody may touch
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++)
        if (!same_bits(g.api->snap(w, k, i), cur[k][i])) bad("bystander", opn + " or another thread changed another spline");
  }
  std::size_t last_of_thread() {
    for (std::size_t i = msgs->size(); i--;)
      if ((*msgs)[i].th == th) return i;
    return 0;
  }
};
void thread_body(int t, void* a) {
  heap_thread(true);
  Program& g = *static_cast<Program*>(a);
  Thread x(g, t);
  x.go();
}

struct ThrH : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override { return opname(op); }
  Plan gen(const std::string& pr, u64 seed) override {
    Plan p;
    p.prop = pr;
    p.seed = seed;
    Rng r(seed);
    double x = r.uni();
    p.h["P"] = x < 0.6 ? 1 : x < 0.9 ? 2 : 3;
    const bool crowd = r.chance(0.06);
    const int nth = crowd ? 5 + int(r.below(4)) : x < 0.3 ? 2 : 2 + int(r.below(3));
    const bool lengthy = r.chance(0.03), restless = r.chance(0.1);
    p.h["nth"] = nth;
    p.h["wseed"] = i64(r.below(1u << 30));
    p.h["garbage"] = i64(r.below(1u << 30));
    p.h["maxdeg"] = 2 + i64(r.below(2));
    p.h["tz"] = i64(r.below(4));
    p.h["now"] = i64(1000000000 + r.below(1000000000));
    p.h["tick"] = i64(r.below(3));
    p.h["jump"] = r.chance(0.3) ? i64(1 + r.below(100000)) : 0;
    const bool log = pr == "C11" || pr == "C10";
    const bool worlds = log ? r.chance(0.35) : r.chance(0.9);
    p.h["worlds"] = worlds;
    p.h["shared"] = worlds && !log && r.chance(0.7);
    p.h["compose"] = !log && r.chance(0.25);
    p.h["alone"] = pr == "C06" || pr == "C07";
    double fault = log ? 0 : r.chance(0.6) ? 0.3 : 0;
    if (LOGGING && !log) {
      p.h["disk"] = r.chance(0.25) ? 1 + i64(r.below(3)) : 0;
      p.h["space"] = i64(r.below(3000));
      p.h["console"] = r.chance(0.15) ? 1 + i64(r.below(2)) : 0;
    }
    // weights: message, level, b64, ad, misc, compose, spline, rejection
    double wt[8] = {1, 0.4, 1, 1, 1, 1, 7, 1};
    if (LOGGING) wt[0] = 3, wt[1] = 1;
    if (log) { wt[0] = 8; wt[1] = 1.5; wt[2] = wt[3] = wt[4] = wt[5] = 0; wt[6] = 0.7; wt[7] = 0.7; }
    if (pr == "C07") { wt[7] = 6; wt[0] = 2; wt[6] = 2; }
    if (pr == "C05") { wt[0] = 3; wt[7] = 2; wt[6] = 4; }
    const double te = log ? (r.chance(0.5) ? 0.1 : 0.3) : 0.4;
    const bool stamps = r.chance(0.6);
    const bool small = r.chance(0.6);
    const bool chorus = r.chance(0.5);
    p.h["chorus"] = chorus;
    if (!worlds) wt[6] = wt[7] = 0;
    if (!p.h["compose"]) wt[5] = 0;
    double sum = 0;
    for (double y : wt) sum += y;
    auto one = [&]() {
      double y = r.uni() * sum;
      int c = 0;
      while (c < 7 && y >= wt[c]) y -= wt[c], c++;
      Step s;
      if (c == 0) {
        s.op = T_MSG;
        s.a[0] = r.chance(te) ? 5 : u32(r.below(5));
        s.a[1] = small ? u32(r.below(5)) : u32(r.below(8));
        s.a[2] = u32(r.below(4));
      } else if (c == 1) {
        s.op = r.chance(0.75) ? T_LEVEL : T_LEVELLIST;
        s.a[0] = s.op == T_LEVEL ? (r.chance(0.3) ? 511 : r.chance(0.5) ? u32(r.below(512)) : u32(448 | r.below(64))) : u32(r.below(6));
        if (s.op == T_LEVEL && stamps) s.a[0] |= 32;
      } else if (c <= 5) {
        s.op = T_B64 + u32(c - 2);
      } else {
        double w4[4] = {1, 1.2, 1, 0};
        if (c == 7) w4[0] = w4[1] = w4[2] = 0, w4[3] = 1;
        s = random_step(r, w4, 0.1, 0);
        s.a[0] = u32(r.below(NKIND * 2 * NSL));
        s.a[1] = u32(r.below(2 * NSL));
        s.op += NTOP;
      }
      s.ds = r.next() >> 20;
      s.fk = 0;
      if (r.chance(fault)) {
        s.fk = 1 + u32(r.below(4));
        s.fpos = s.fk == F_ALLOC_SIZE ? u32(8 << r.below(8)) : u32(r.below(r.chance(0.5) ? 6 : 40));
        s.fcnt = 1 + u32(r.below(4));
      }
      return s;
    };
    Step first = one();
    if (LOGGING && log && !chorus && r.chance(0.6)) {
      // everything enabled from the beginning
      Step s;
      s.op = T_LEVEL;
      s.a[0] = r.chance(0.5) ? 511 : 479;
      s.th = 1;
      p.steps.push_back(s);
    }
    for (int t = 1; t <= nth; t++) {
      int n = 1 + int(r.below(log ? 9 : 6));
      if (lengthy) n += 20 + int(r.below(30));
      for (int i = 0; i < n; i++) {
        Step s = one();
        if (!i && chorus) {
          u64 ds = s.ds;
          s = first;
          if (r.chance(0.5)) s.ds = ds;
        }
        s.th = u32(t);
        p.steps.push_back(s);
      }
    }
    auto logu = [&](double hi) { return u64(std::exp(r.uni() * std::log(hi))); };
    const int np = r.chance(0.1) ? 0 : 1 + int(r.below(restless ? 100 : 12));
    const double far = r.chance(0.5) ? 60 : 4000;
    for (int i = 0; i < np; i++) {
      Preempt q;
      q.th = 1 + u32(r.below(u64(nth)));
      double y = r.uni();
      u32 kind = y < (restless ? 0.8 : 0.5) ? thr::PK_SYNC : y < 0.75 ? thr::PK_ACCESS : thr::PK_STEP;
      q.n = kind == thr::PK_SYNC ? logu(far) : kind == thr::PK_ACCESS ? logu(log ? 4000 : r.chance(0.7) ? 8000 : 200000) : 1 + r.below(8);
      q.to = (kind << 8) | (r.chance(0.5) ? 1 + u32(r.below(u64(nth))) : 0);
      p.pre.push_back(q);
    }
    return p;
  }
  void simplify_header(const Plan& p, std::vector<Plan>& out) override {
    for (const char* k : {"tz", "tick", "jump", "shared", "compose", "worlds", "disk", "console", "garbage"})
      if (p.get(k)) {
        Plan q = p;
        q.h[k] = 0;
        out.push_back(q);
      }
    if (p.get("nth") > 2) {
      // the last thread goes, if it has nothing to do
      bool used = false;
      for (auto& s : p.steps) used = used || i64(s.th) == p.get("nth");
      if (!used) {
        Plan q = p;
        q.h["nth"]--;
        out.push_back(q);
      }
    }
    for (i64 d = 1; d < p.get("maxdeg", 3); d++) {
      Plan q = p;
      q.h["maxdeg"] = d;
      out.push_back(q);
    }
  }
  std::string describe(const Step& s) override {
    std::string t = "thread " + std::to_string(s.th) + ": " + op_name(s.op);
    if (s.op == T_MSG) {
      t += std::string(" (") + kind_name[s.a[0] % 6] + ") length class " + std::to_string(s.a[1] % 8);
    } else if (s.op >= NTOP) {
      t += " kind=" + std::to_string(s.a[0] % NKIND) + " slot=" + std::to_string(s.a[0] / NKIND % (2 * NSL)) +
           " other=" + std::to_string(s.a[1]) + " (slots from 3 on are shared)";
    } else {
      t += " " + std::to_string(s.a[0]) + " data=" + std::to_string(s.ds);
    }
    if (s.fk) t += " FAULT allocation kind " + std::to_string(s.fk) + " at " + std::to_string(s.fpos);
    return t;
  }
  void execute(const Plan& p, bool solo) {
    prop = p.prop;
    msgs = new std::vector<Msg>;
    msgs->reserve(4096);
    levels = new std::vector<Level>;
    levels->push_back(Level{0, 0, 39});
    for (int& w : writing) w = -1;
    faulty = !solo && (p.get("disk") || p.get("console"));
    for (auto& s : p.steps) faulty = faulty || (s.fk && !solo);
    static const char* const tz[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+0545>-5:45"};
    setenv("TZ", tz[p.get("tz") & 3], 1);
    tzset();
    stamp_of(p.get("now"));
    os::reset();
    os::clk.now = p.get("now");
    if (p.get("tick")) {
      os::clk.nstep = 3;
      os::clk.step[0] = p.get("tick") == 2;
      os::clk.step[1] = p.get("jump");
      os::clk.step[2] = 1;
    }
    if (!solo) {
      if (p.get("disk") == 1) os::disk.open_errno = 13, os::disk.open_left = -1;
      if (p.get("disk") == 2) os::disk.space = p.get("space");
      if (p.get("disk") == 3) os::disk.eio = -1;
      con.mode = int(p.get("console"));
    }
    os::on_change = on_change;
    os::on_clock = [](i64 t) {
      int w = writing[thr::self()];
      if (w < 0) return;
      Msg& m = (*msgs)[std::size_t(w)];
      if (m.nt < 16) m.times[m.nt++] = t;
    };
    os::on_io = [] { thr::sync_event(); };
    os::active = true;
    std::cout.rdbuf(&con);
    std::cout.clear();
    if (!solo) atexit(at_end);
    thr::on_problem = [](const char* cls, const std::string& m) { bad(cls, m); };
    thr::step_name = [](u32 i) { return "step " + std::to_string(i); };
    thr::budget = 30000000;
    thr::report_races = p.prop == "C06" || p.prop == "C11";
    thr::exempt(&std::cout, sizeof std::cout);
    thr::exempt(&std::cerr, sizeof std::cerr);
    thr::exempt(&std::clog, sizeof std::clog);
    heap_born = thr::born;
    heap_dying = thr::dying;
    Program g(p, solo);
    const int nth = int(p.get("nth", 2));
    if (solo) {
      for (int t = 1; t <= nth; t++) {
        Thread x(g, t);
        x.go();
      }
      g.check_shared();
      reinterpret_cast<Extra*>(S->extra)->complete = 1;
      S->done = 1;
      child_stop(0);
    }
    S->count[K_FIRST] += p.get("chorus");
    thr::init(nth, p.pre);
    thr::racing = true;
    thr::run(nth, thread_body, &g);
    thr::racing = false;
    g.check_shared();
    Extra* e = reinterpret_cast<Extra*>(shared_block(1)->extra);
    Hash h;
    if (p.get("alone"))
      for (std::size_t i = 0; i < p.steps.size() && i < 4000; i++) h.add(e->v[i]);
    S->hash[0] = h.h;
    S->step = u32(p.steps.size());
    ended = true;
    exit(0);
  }
  RunResult run(const Plan& p) override {
    heap_runaway = [](const char* w) { bad("hang", std::string("a call exceeded its bound of ") + w); };
    bool solo_ok = true;
    if (p.get("alone") && p.steps.size() < 4000) {
      Shared* b = shared_block(1);
      S = b;
      ChildStatus st = in_child(b, [&](Shared*) {
        std::memset(S->extra, 0, sizeof S->extra);
        execute(p, true);
      });
      RunResult r = collect(b, st);
      solo_ok = !r.viol && reinterpret_cast<Extra*>(b->extra)->complete == 1;
      if (!solo_ok) {
        r.viol = false;
        r.skipped = true;
        r.count[K_OTHER]++;
        return r;
      }
    }
    Shared* a = shared_block(0);
    S = a;
    ChildStatus st = in_child(a, [&](Shared*) { execute(p, false); });
    RunResult res = collect(a, st);
    if (res.viol && !a->viol) {
      // crashed
      const bool rej = res.vop == T_MSG || (res.vop >= NTOP && op_reject((res.vop - NTOP) % NOPS));
      bool rel = p.prop == "C06" || p.prop == "C11" || (p.prop == "C05" && res.cls == "hang") || (p.prop == "C07" && rej);
      if (!rel) {
        res.viol = false;
        res.skipped = true;
        res.count[K_OTHER]++;
      }
    }
    return res;
  }
};
}  // namespace
int main(int argc, char** argv) {
  ThrH h;
  return harness_main(h, argc, argv);
}

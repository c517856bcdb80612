#include "core.hpp"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <sstream>
#include <unordered_set>

namespace sim {
static double wall() {
  struct timespec ts;
  // raw system call: the C library clock may be simulated in this process
  extern long raw_clock(struct timespec*);
  raw_clock(&ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
}  // namespace sim
#include <sys/syscall.h>
namespace sim {
long raw_clock(struct timespec* ts) {
  return syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts);
}

std::string Plan::text() const {
  std::ostringstream o;
  o << "plan 1\nprop " << prop << "\nseed " << seed << "\n";
  for (auto& kv : h) o << "h " << kv.first << " " << kv.second << "\n";
  for (auto& s : steps) {
    o << "s " << s.op;
    for (int i = 0; i < NA; i++) o << " " << s.a[i];
    o << " " << s.ds << " " << s.fk << " " << s.fpos << " " << s.fcnt << " "
      << s.th << "\n";
  }
  for (auto& p : pre) o << "p " << p.th << " " << p.n << " " << p.to << "\n";
  o << "end\n";
  return o.str();
}
bool Plan::parse(const std::string& text, Plan& out) {
  std::istringstream in(text);
  std::string w;
  out = Plan();
  while (in >> w) {
    if (w == "plan") {
      in >> w;
    } else if (w == "prop") {
      in >> out.prop;
    } else if (w == "seed") {
      in >> out.seed;
    } else if (w == "h") {
      std::string k;
      i64 v;
      in >> k >> v;
      out.h[k] = v;
    } else if (w == "s") {
      Step s;
      in >> s.op;
      for (int i = 0; i < NA; i++) in >> s.a[i];
      in >> s.ds >> s.fk >> s.fpos >> s.fcnt >> s.th;
      out.steps.push_back(s);
    } else if (w == "p") {
      Preempt p;
      in >> p.th >> p.n >> p.to;
      out.pre.push_back(p);
    } else if (w == "end") {
      return true;
    } else {
      return false;
    }
  }
  return false;
}

static Shared* blocks[4];
Shared* shared_block(int i) {
  if (!blocks[i])
    blocks[i] = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                          PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return blocks[i];
}
static int err_fd = -1;
// True if every thread of the process sleeps; adds up their processor time.
static bool asleep(pid_t pid, u64& ticks) {
  char dir[64];
  snprintf(dir, sizeof dir, "/proc/%d/task", int(pid));
  DIR* d = opendir(dir);
  if (!d) return false;
  bool all = true;
  int n = 0;
  ticks = 0;
  while (struct dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    char f[400], b[1024];
    snprintf(f, sizeof f, "%s/%s/stat", dir, e->d_name);
    int fd = open(f, O_RDONLY | O_CLOEXEC);
    if (fd < 0) continue;
    ssize_t k = read(fd, b, sizeof b - 1);
    close(fd);
    if (k <= 0) continue;
    b[k] = 0;
    const char* q = strrchr(b, ')');
    char state = 0;
    unsigned long ut = 0, stm = 0;
    if (!q || sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &ut, &stm) != 3) continue;
    n++;
    ticks += ut + stm;
    if (state != 'S') all = false;
  }
  closedir(d);
  return all && n;
}
ChildStatus in_child(Shared* sh, const std::function<void(Shared*)>& fn,
                     int wall_s) {
  std::memset((void*)sh, 0, offsetof(Shared, sig));
  sh->nsig = 0;
  sh->note[0] = 0;
  sh->extra[0] = 0;
  if (err_fd < 0) err_fd = memfd_create("child-stderr", 0);
  if (ftruncate(err_fd, 0)) {
  }
  lseek(err_fd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(err_fd, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    fn(sh);
    sh->done = 1;
    _exit(0);
  }
  ChildStatus st;
  if (pid < 0) {
    st.cls = "harness-fork";
    return st;
  }
  double t0 = wall();
  int status = 0;
  int spins = 0;
  bool killed = false, blocked = false;
  double looked = t0 + 1;
  int idle = 0;
  u64 ticks = ~u64(0);
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (r < 0 && errno != EINTR) break;
    // poll quickly first, the children usually live for a millisecond
    struct timespec ts = {0, spins < 200 ? 50000 : 2000000};
    spins++;
    syscall(SYS_nanosleep, &ts, nullptr);
    const double now = wall();
    if (!killed && now - t0 > wall_s) {
      kill(pid, SIGKILL);
      killed = true;
    }
    if (!killed && now > looked) {
      // a simulated world never sleeps by itself
      looked = now + 0.25;
      u64 t;
      idle = asleep(pid, t) && t == ticks ? idle + 1 : 0;
      ticks = t;
      if (idle >= 10) {
        kill(pid, SIGKILL);
        killed = blocked = true;
      }
    }
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->done) {
    st.ok = true;
    return st;
  }
  if (WIFEXITED(status) && sh->viol) {
    st.ok = true;  // stopped itself after recording a violation
    return st;
  }
  char buf[16384];
  ssize_t n = pread(err_fd, buf, sizeof buf - 1, 0);
  if (n < 0) n = 0;
  buf[n] = 0;
  std::string e(buf);
  if (getenv("SIM_STDERR")) fprintf(stderr, "%s\n", e.c_str());
  std::string d;
  std::size_t p;
  if (killed) {
    st.cls = "hang";
    d = blocked ? "it waits for something that never happens" : "no end within the wall-clock limit";
  } else if ((p = e.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    st.cls = "memory";
    std::size_t b = p + 25, q = e.find_first_of(" \n", b);
    d = "AddressSanitizer " + e.substr(b, q - b);
    std::size_t r = e.find("READ of size");
    std::size_t w = e.find("WRITE of size");
    if (r != std::string::npos) d += " (read)";
    if (w != std::string::npos) d += " (write)";
  } else if ((p = e.find("runtime error: ")) != std::string::npos) {
    st.cls = "memory";
    std::size_t q = e.find('\n', p);
    d = "undefined behaviour: " + e.substr(p + 15, q - p - 15);
    // strip addresses
    std::size_t x;
    while ((x = d.find("0x")) != std::string::npos) {
      std::size_t y = x + 2;
      while (y < d.size() && isxdigit(d[y])) y++;
      d.replace(x, y - x, "<address>");
    }
  } else if ((p = e.find("Assertion `")) != std::string::npos) {
    st.cls = "assert";
    std::size_t q = e.find("' failed", p);
    d = "assertion " + e.substr(p + 11, q - p - 11) + " failed";
  } else if (WIFSIGNALED(status)) {
    st.cls = "crash";
    d = "killed by signal " + std::to_string(WTERMSIG(status));
    if ((p = e.find("terminate called")) != std::string::npos)
      d += " (uncaught exception)";
    std::size_t q = e.find('\n');
    if (WTERMSIG(status) == SIGABRT && !e.empty() && p == std::string::npos)
      d += ": " + e.substr(0, std::min<std::size_t>(q, 160));
  } else {
    st.cls = "crash";
    d = "exit status " + std::to_string(WEXITSTATUS(status)) + " " +
        e.substr(0, 160);
  }
  st.detail = d;
  return st;
}
void violation(Shared* sh, const char* cls, const std::string& msg) {
  if (sh->viol) return;
  std::snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  std::snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  sh->vstep = sh->step;
  sh->vop = sh->op;
  sh->viol = 1;
}
RunResult collect(Shared* sh, const ChildStatus& st) {
  RunResult r;
  r.ticks = sh->ticks;
  for (int i = 0; i < NCOUNT; i++) r.count[i] = sh->count[i];
  r.sigs.assign(sh->sig, sh->sig + sh->nsig);
  r.hash = sh->hash[0];
  r.nontrivial = sh->nontrivial;
  if (sh->viol) {
    r.viol = true;
    r.cls = sh->cls;
    r.msg = sh->msg;
    r.vstep = sh->vstep;
    r.vop = sh->vop;
  } else if (!st.ok) {
    r.viol = true;
    r.cls = st.cls;
    r.msg = st.detail;
    r.vstep = sh->step;
    r.vop = sh->op;
    Hash h;
    h.str(r.cls + r.msg);
    r.hash = h.h ^ sh->step;
  }
  return r;
}
void child_stop(int code) {
  _exit(code);
}

// ---------------------------------------------------------------- minimiser
static bool same_failure(Harness& h, const Plan& p, const std::string& cls,
                         int& budget, double deadline) {
  if (budget <= 0 || wall() > deadline) return false;
  budget--;
  RunResult r = h.run(p);
  return r.viol && r.cls == cls;
}
static Plan minimise(Harness& h, Plan p, const std::string& cls, int budget,
                     double seconds) {
  double dl = wall() + seconds;
  bool progress = true;
  while (progress && budget > 0 && wall() < dl) {
    progress = false;
    // drop chunks of steps
    for (std::size_t n = std::max<std::size_t>(1, p.steps.size() / 2); n >= 1;
         n /= 2) {
      for (std::size_t i = 0; i < p.steps.size();) {
        Plan q = p;
        q.steps.erase(q.steps.begin() + i,
                      q.steps.begin() + std::min(i + n, q.steps.size()));
        if (same_failure(h, q, cls, budget, dl)) {
          p = q;
          progress = true;
        } else {
          i += n;
        }
      }
      if (n == 1) break;
    }
    // drop preemptions
    for (std::size_t n = std::max<std::size_t>(1, p.pre.size() / 2); n >= 1;
         n /= 2) {
      for (std::size_t i = 0; i < p.pre.size();) {
        Plan q = p;
        q.pre.erase(q.pre.begin() + i,
                    q.pre.begin() + std::min(i + n, q.pre.size()));
        if (same_failure(h, q, cls, budget, dl)) {
          p = q;
          progress = true;
        } else {
          i += n;
        }
      }
      if (n == 1) break;
    }
    std::vector<Plan> hs;
    h.simplify_header(p, hs);
    for (auto& q : hs)
      if (same_failure(h, q, cls, budget, dl)) {
        p = q;
        progress = true;
        break;
      }
    // simplify arguments and faults
    for (std::size_t i = 0; i < p.steps.size(); i++) {
      bool again = true;
      int rounds = 0;
      while (again && rounds++ < 12) {
        again = false;
        std::vector<Step> c;
        h.simplify(p.steps[i], c);
        for (auto& s : c) {
          Plan q = p;
          q.steps[i] = s;
          if (same_failure(h, q, cls, budget, dl)) {
            p = q;
            progress = again = true;
            break;
          }
          if (budget <= 0 || wall() > dl) break;
        }
      }
    }
  }
  return p;
}

// -------------------------------------------------------------------- main
static std::string slurp(const char* f) {
  std::string s;
  FILE* fp = fopen(f, "rb");
  if (!fp) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
  fclose(fp);
  return s;
}
static void spew(const std::string& f, const std::string& t) {
  FILE* fp = fopen(f.c_str(), "wb");
  if (!fp) return;
  fwrite(t.data(), 1, t.size(), fp);
  fclose(fp);
}
static std::string one_line(std::string s) {
  for (auto& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  return s;
}

int harness_main(Harness& h, int argc, char** argv) {
  // addresses must not depend on address-space randomisation
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc > 3) {
    Plan p = h.gen(argv[2], strtoull(argv[3], nullptr, 10));
    fputs(p.text().c_str(), stdout);
    for (auto& s : p.steps)
      printf("# %s\n", h.op_name(s.op).c_str());
    return 0;
  }
  if (mode == "replay" && argc > 2) {
    Plan p;
    if (!Plan::parse(slurp(argv[2]), p)) return 2;
    RunResult r = h.run(p);
    printf("viol %d\nclass %s\nstep %u\nop %s\nmsg %s\nhash %016llx\n", r.viol,
           r.cls.c_str(), r.vstep, h.op_name(r.vop).c_str(),
           one_line(r.msg).c_str(), (unsigned long long)r.hash);
    if (!r.note.empty()) printf("note %s\n", r.note.c_str());
    return r.viol ? 1 : 0;
  }
  if (mode == "trace" && argc > 2) {
    Plan p;
    if (!Plan::parse(slurp(argv[2]), p)) return 2;
    for (auto& kv : p.h)
      printf("%s=%lld\n", kv.first.c_str(), (long long)kv.second);
    int i = 0;
    for (auto& s : p.steps) printf("%d: %s\n", i++, h.describe(s).c_str());
    for (auto& q : p.pre)
      printf("preempt thread %u at its %s %llu, run thread %u\n", q.th,
             (q.to >> 8) == 0 ? "memory access" : (q.to >> 8) == 1 ? "synchronisation" : "operation",
             (unsigned long long)q.n, q.to & 255);
    return 0;
  }
  if (mode == "minimise" && argc > 3) {
    Plan p;
    if (!Plan::parse(slurp(argv[2]), p)) return 2;
    RunResult r = h.run(p);
    if (!r.viol) {
      printf("novilation\n");
      return 0;
    }
    Plan q = minimise(h, p, r.cls, 1500, argc > 4 ? atof(argv[4]) : 60);
    spew(argv[3], q.text());
    RunResult s = h.run(q);
    printf("viol %d\nclass %s\nstep %u\nop %s\nmsg %s\nhash %016llx\n", s.viol,
           s.cls.c_str(), s.vstep, h.op_name(s.vop).c_str(),
           one_line(s.msg).c_str(), (unsigned long long)s.hash);
    for (auto& st : q.steps) printf("opname %s\n", h.op_name(st.op).c_str());
    return 1;
  }
  if (mode == "batch" && argc > 9) {
    // batch PROP SEED WORKER NWORKERS NRUNS SECONDS OUTPREFIX MODE
    std::string prop = argv[2];
    u64 base = strtoull(argv[3], nullptr, 10);
    u64 w = strtoull(argv[4], nullptr, 10), nw = strtoull(argv[5], nullptr, 10);
    u64 runs = strtoull(argv[6], nullptr, 10);
    double secs = atof(argv[7]);
    std::string out = argv[8];
    std::string bm = argv[9];  // "hashes" prints a hash per run
    double t0 = wall();
    u64 done = 0, skipped = 0, ticks = 0;
    u64 tot[NCOUNT] = {};
    u64 runs_with[NCOUNT] = {};
    std::unordered_set<u64> sigs;
    std::set<u64> hashes;
    int nviol = 0;
    std::ostringstream o;
    std::string hashlist;
    int samples = 0;
    for (u64 i = w; i < runs; i += nw) {
      if (wall() - t0 > secs) break;
      Plan p = h.gen(prop, mix(base * 1000003ull + i));
      RunResult r = h.run(p);
      done++;
      if (r.skipped) skipped++;
      ticks += r.ticks;
      for (int c = 0; c < NCOUNT; c++) {
        tot[c] += r.count[c];
        if (r.count[c]) runs_with[c]++;
      }
      u64 rh = r.hash;
      for (u64 s : r.sigs) {
        if (sigs.size() < 400000) sigs.insert(s);
        rh = mix(rh ^ s);
      }
      if (r.nontrivial && !r.skipped) hashes.insert(rh);
      if (bm == "hashes") {
        char b[80];
        snprintf(b, sizeof b, "hash %llu %016llx %d\n", (unsigned long long)i,
                 (unsigned long long)r.hash, int(r.viol));
        hashlist += b;
      }
      if (samples < 2 && !r.skipped && p.steps.size()) {
        samples++;
        std::string s = "sample run=" + std::to_string(i) + " ";
        for (auto& kv : p.h)
          s += kv.first + "=" + std::to_string(kv.second) + " ";
        s += "steps:";
        int k = 0;
        for (auto& st : p.steps) {
          if (k++ >= 14) {
            s += " ...";
            break;
          }
          s += " " + h.op_name(st.op);
          if (st.fk)
            s += "!" + std::to_string(st.fk) + "@" + std::to_string(st.fpos);
          if (st.th) s += "[t" + std::to_string(st.th) + "]";
        }
        if (!p.pre.empty())
          s += " preemptions=" + std::to_string(p.pre.size());
        char b[64];
        snprintf(b, sizeof b, " hash=%016llx", (unsigned long long)r.hash);
        o << s << b << "\n";
      }
      if (r.viol) {
        std::string f = out + ".v" + std::to_string(nviol);
        spew(f, p.text());
        o << "violation " << i << " " << r.cls << " " << f << " "
          << one_line(r.msg) << "\n";
        if (++nviol >= 2) break;
      }
    }
    o << "runs " << done << "\nskipped " << skipped << "\nticks " << ticks
      << "\nwall " << (wall() - t0) << "\n";
    const char* const* n = h.counter_names();
    for (int c = 0; n[c]; c++)
      o << "count " << n[c] << " " << tot[c] << " " << runs_with[c] << "\n";
    o << hashlist;
    spew(out, o.str());
    std::string sb;
    for (u64 s : sigs) sb.append(reinterpret_cast<const char*>(&s), 8);
    spew(out + ".sigs", sb);
    sb.clear();
    for (u64 s : hashes) sb.append(reinterpret_cast<const char*>(&s), 8);
    spew(out + ".runs", sb);
    return 0;
  }
  fprintf(stderr, "usage: %s batch|replay|minimise|gen ...\n", argv[0]);
  return 2;
}
}  // namespace sim

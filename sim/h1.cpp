// H1: programs of spline operations in a process whose heap fails, judged
// against the model, an undisturbed twin and other histories
// (C01, C02, C03, C05, C07).
#include "oplan.hpp"

using namespace sim;
namespace sim {
const Api* ops_p1();
const Api* ops_p2();
const Api* ops_p3();
}  // namespace sim
namespace {
enum {
  K_OPS, K_SKIP, K_OOM, K_RETRY, K_ALIAS, K_SELF, K_REJECT, K_REJOOM, K_ATOMIC,
  K_PARTIAL, K_STORED, K_F1, K_F2, K_F3, K_F4, K_SURVIVED, K_MODEL, K_TWIN,
  K_HIST, K_HSTEPS, K_LASTING, K_OTHER, K_PRE, K_SOLO, NK
};
const char* const counters[] = {
    "operations executed", "operations outside the covered domain",
    "operations that ran out of memory", "retries after a failure",
    "calls with an argument inside the target", "calls with the target itself as argument",
    "requests rejected", "rejected requests that ran out of memory",
    "all-or-nothing checks after a failure", "probe: degrees raised by a failed update",
    "results stored for later steps",
    "fault: single allocation failed", "fault: several allocations failed",
    "fault: all allocations from one on failed", "fault: large allocations failed",
    "failed allocation survived by the operation", "results judged by the model",
    "results compared with the undisturbed twin", "histories compared",
    "steps compared between histories", "repeated failures of one operation",
    "runs ended by a violation of another property",
    "first attempts that failed before any success with these arguments",
    "calls not preceded by one on copies", nullptr};

Shared* S;
[[noreturn]] void bad(const char* cls, const std::string& m) {
  violation(S, cls, m);
  child_stop(3);
}
const Api* api_of(int P) { return P == 1 ? ops_p1() : P == 2 ? ops_p2() : ops_p3(); }

struct Mode {
  bool model_inplace = false, model_new = false, atomic = false, leak = false,
       bits = false, reject = false, operands = false;
};
Mode mode_of(const std::string& p) {
  Mode m;
  if (p == "C01") m.model_inplace = m.atomic = true;
  if (p == "C02") m.model_new = m.leak = m.operands = true;
  if (p == "C03") m.bits = true;
  if (p == "C07") m.reject = true;
  return m;
}
// does a crash/assertion/hang inside operation op violate prop?
bool relevant_crash(const std::string& prop, const std::string& cls, u32 op, bool alias) {
  if (op >= NOPS) return true;
  int f = family(op);
  if (prop == "C01") return f == FAM_INPLACE;
  if (prop == "C02") return f == FAM_NEW || f == FAM_VALUE;
  if (prop == "C03") return alias;
  if (prop == "C05") return cls != "memory";
  if (prop == "C07") return f == FAM_REJECT;
  return true;
}

struct Runner {
  const Api* api;
  const Plan& plan;
  Mode m;
  int P;
  void* w;
  Snap cur[NKIND][NSL];
  u64 g;
  Hash h;
  bool no_reject = false;
  std::vector<u64>* steps_out = nullptr;

  Runner(const Plan& p, u64 garbage, const Mode& mode) : plan(p), m(mode) {
    P = int(p.get("P", 1));
    api = api_of(P);
    g = garbage;
    w = api->make();
    Rng r{u64(p.get("wseed"))};
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) {
        const u64 x = r.next();
        fill(k, i, x);
        Rng q(x ^ 77);
        if (i && q.chance(0.12)) {
          cur[k][i] = similar_spline(cur[k][q.below(i)], q, false);
          api->set(w, k, i, cur[k][i]);
        }
      }
  }
  ~Runner() { api->destroy(w); }
  void fill(int k, int i, u64 seed) {
    cur[k][i] = random_spline(P, k, seed, int(plan.get("maxdeg", 6)));
    api->set(w, k, i, cur[k][i]);
  }
  // every slot but the given ones (bit mask kind*NSL+slot) is bit for bit what it was
  void unchanged(u64 except, const Step&, const char* what, bool report) {
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) {
        if (except >> (k * NSL + i) & 1) continue;
        Snap s = api->snap(w, k, i);
        if (!same_bits(s, cur[k][i])) {
          if (report) bad("bystander", std::string(what) + " changed another spline (kind " + std::to_string(k) +
                                           " slot " + std::to_string(i) + ")");
          cur[k][i] = s;
        }
      }
  }
  static std::string status_text(const Out& o) {
    switch (o.status) {
      case ST_OK: return "returned normally";
      case ST_OOM: return "reported exhausted memory";
      case ST_REJECT: return "threw '" + o.what + "'";
      default: return "threw an undocumented exception '" + o.what + "'";
    }
  }
  void step(std::size_t idx, const Step& s, bool faults) {
    S->step = u32(idx);
    S->op = s.op % NOPS;
    S->armed = 0;
    g = mix(g + idx);
    View v;
    v.P = P;
    v.big = size_class(plan.get("maxdeg", 6));
    v.pool = u64(plan.get("wseed")) + 1;
    for (int k = 0; k < NKIND; k++)
      for (int i = 0; i < NSL; i++) v.own[k][i] = &cur[k][i];
    Job j;
    if (!plan_op(s, v, j)) {
      S->count[K_SKIP]++;
      note(0);
      return;
    }
    const int fam = family(j.c.op);
    S->armed = 1 + (j.c.alias || (j.uses_b && j.c.ka == j.c.kb && j.c.a == j.c.b) ? 1 : 0);
    const bool rej = fam == FAM_REJECT;
    const bool self = j.uses_b && j.c.ka == j.c.kb && j.c.a == j.c.b;
    if (rej && no_reject) {
      note(0);
      return;
    }
    S->count[K_OPS]++;
    S->count[K_ALIAS] += j.c.alias;
    S->count[K_SELF] += self;
    const Snap A = *j.A, B = *j.B;
    const bool fam_relevant_model = fam == FAM_INPLACE ? m.model_inplace : m.model_new;
    // do the failures of this operation concern the property of this run?
    const bool rel = rej ? m.reject : fam_relevant_model;
    const bool by = m.bits || (m.atomic && fam == FAM_INPLACE) || (m.operands && !rej && fam != FAM_INPLACE) ||
                    (m.reject && rej);
    const std::string opn = op_names[j.c.op];
    // ---- undisturbed twin on separate copies; without a fault sometimes only
    // after the real call (1) or not at all (0), as it would refresh whatever
    // the library remembers of its last call
    const u64 order = faults && s.fk ? 3 : (s.a[7] >> 4 & 3) ^ 3;
    const bool twin_first = order > 1;
    S->phase = 1;
    Out t;
    Snap tpost;
    Job tj = j;
    tj.c.alias = false;
    tj.c.store = -1;
    if (j.c.alias) alias_values(j, A, tj.p);
    if (self) tj.c.b = (j.c.b + 1) % NSL;
    // sometimes the very first attempt with these arguments fails
    const u64 pre = mix(s.ds ^ 0xF1257);
    auto on_copies = [&](bool first) {
      void* tw = api->make();
      api->set(tw, j.c.ka, j.c.a, A);
      tj.c.w = tw;
      tj.c.fk = 0;
      tj.c.garbage = ~g;
      if (j.uses_b) api->set(tw, tj.c.kb, tj.c.b, B);
      if (first) {
        static const u32 early[8] = {1, 2, 3, 4, 6, 10, 20, 60};
        tj.c.fk = s.fk;
        tj.c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % early[pre / 3 % 8];
        tj.c.fcnt = s.fcnt;
      }
      t = api->exec(tj.c, tj.p);
      if (first && t.st.failed) {
        S->nontrivial = 1;
        S->count[K_PRE]++;
      }
      tpost = api->snap(tw, j.c.ka, j.c.a);
      api->destroy(tw);
      S->ticks += 1 + t.st.allocs;
    };
    if (twin_first) {
      if (faults && s.fk && pre % 3 != 0) on_copies(true);
      on_copies(false);
    } else if (fam != FAM_INPLACE) {
      Job oj = j;
      oj.c.w = w;
      oj.c.store = -1;
      oj.c.garbage = ~g;
      t = api->exec(oj.c, oj.p);
      tpost = api->snap(w, j.c.ka, j.c.a);
      S->ticks += 1 + t.st.allocs;
      S->count[K_SOLO]++;
    }
    const bool twin_ok = rej ? t.status == ST_REJECT : t.status == ST_OK;
    const bool have_twin = twin_first || fam != FAM_INPLACE;
    if (have_twin && !twin_ok) {
      // (C05: only if it works in a process without failures, see run())
      if (rel || (plan.prop == "C05" && S->nontrivial))
        bad("exception", opn + (rej ? " of an inadmissible request " : " of an admissible request ") + status_text(t));
      other();
    }
    if (rej && m.reject) {
      std::string num;
      if (j.c.op == O_REJ_SPLIT && std::isfinite(j.p.planes[0])) num = std::to_string(j.p.planes[0]);
      if (t.what.size() < 10 || (!num.empty() && t.what.find(num) == std::string::npos))
        bad("text", opn + ": the explanation '" + t.what + "' is incomplete");
    }
    if (have_twin && !rej && fam_relevant_model && !(m.bits)) {
      S->count[K_MODEL]++;
      std::string why = judge(tj, A, B, t, tpost, s.ds ^ 0x77);
      if (!why.empty()) bad("wrong", opn + " of " + show(A) + (j.uses_b ? " and " + show(B) : "") + ": " + why);
    }
    // ---- the real call
    S->phase = 2;
    bool store = false;
    if (j.want_store && !t.res.empty()) {
      const Snap& q = t.res[std::size_t(j.p.part) % t.res.size()];
      store = admissible(q, P, v.big);
      if (store) {
        int k = (q.rat ? int(RS) : int(PS)) + q.D - 1;
        j.c.store = j.dest;
        S->count[K_STORED]++;
        // kind of the stored result
        kstore = k;
      }
    }
    j.c.w = w;
    j.c.garbage = g;
    if (faults && s.fk) {
      j.c.fk = s.fk;
      j.c.fpos = s.fk == F_ALLOC_SIZE ? s.fpos : s.fpos % (t.st.allocs ? t.st.allocs : 1);
      j.c.fcnt = s.fcnt;
    }
    auto bit = [](int k, int i) { return u64(1) << (k * NSL + i); };
    u64 sig = j.c.op + 64 * j.c.ka + 512 * (j.uses_b ? j.c.kb + 1 : 0);
    for (int i = 0; i < P; i++) sig = sig * 13 + A.deg[i] + (j.uses_b ? 7 * B.deg[i] : 0);
    Snap before = A;  // the target before the current attempt
    Out o;
    bool moved_state = false;
    const int attempts = j.lasting && j.c.fk ? 3 : 2;
    for (int at = 0; at < attempts; at++) {
      if (at == attempts - 1) {
        j.c.fk = 0;
      }
      if (at) {
        S->count[K_RETRY]++;
        j.c.garbage = mix(g + 77 + at);
        if (at < attempts - 1) S->count[K_LASTING]++;
      }
      if (fam == FAM_INPLACE) before = cur[j.c.ka][j.c.a];
      o = api->exec(j.c, j.p);
      S->ticks += 1 + o.st.allocs;
      if (o.st.failed) {
        S->nontrivial = 1;
        int f = s.fk == F_ALLOC_ONE ? K_F1 : s.fk == F_ALLOC_RUN ? K_F2 : s.fk == F_ALLOC_ALL ? K_F3 : K_F4;
        S->count[f] += o.st.failed;
        if (o.status != ST_OOM) S->count[K_SURVIVED]++;
      }
      sig = sig * 7 + o.status + 3 * (o.st.failed > 0);
      if (o.status != ST_OOM) break;
      if (!o.st.failed) {
        if (rel || plan.prop == "C05")
          bad(at ? "retry" : "exception", opn + " reported exhausted memory although no allocation failed" +
                                              (at ? " (retry after a failure)" : ""));
        other();
      }
      S->count[K_OOM]++;
      if (rej) S->count[K_REJOOM]++;
      // after the failure
      if (fam == FAM_INPLACE) {
        Snap now = api->snap(w, j.c.ka, j.c.a);
        if (m.atomic) {
          S->count[K_ATOMIC]++;
          std::string why;
          if (!consistent(now, why)) bad("atomic", "after " + opn + " ran out of memory " + why);
          if (!same_geometry(now, A, s.ds ^ 0x99 ^ at, why))
            bad("atomic", "after " + opn + " ran out of memory the spline changed: " + why);
          if (j.c.op == O_MOVEASSIGN && !same_bits(api->snap(w, j.c.kb, j.c.b), B))
            bad("atomic", "after " + opn + " ran out of memory the source changed");
        }
        if (!same_bits(now, A)) {
          moved_state = true;
          S->count[K_PARTIAL]++;
          std::string why;
          if (!consistent(now, why)) {
            // another property's failure; continue from a sound state
            fill(j.c.ka, j.c.a, s.ds);
            other();
          }
        }
        cur[j.c.ka][j.c.a] = now;
      } else if (m.leak && o.leak && fam != FAM_REJECT) {
        // a block may legitimately be kept once (a cache); not every time
        Out o2 = api->exec(j.c, j.p);
        if (o2.status == ST_OOM && o2.leak) bad("leak", opn + " keeps memory each time it runs out of memory");
        if (o2.status == ST_OK) {
          o = o2;
          break;
        }
      }
      u64 ex = fam == FAM_INPLACE ? bit(j.c.ka, j.c.a) : 0;
      unchanged(ex, s, (opn + " that ran out of memory").c_str(), by);
    }
    // ---- outcome
    const bool ok = rej ? o.status == ST_REJECT : o.status == ST_OK;
    if (!ok) {
      if (rel || (plan.prop == "C05" && (have_twin || S->nontrivial)))
        bad("exception", opn + (rej ? " of an inadmissible request " : " of an admissible request ") + status_text(o));
      other();
    }
    if (rej) {
      S->count[K_REJECT]++;
      if (m.reject && o.what != t.what)
        bad("text", opn + ": the explanation is '" + o.what + "' instead of '" + t.what + "'");
      unchanged(0, s, "a rejected request", by);
      signature(S, mix(sig));
      note(1);
      return;
    }
    // compare with the twin
    Snap post;
    if (fam == FAM_INPLACE) post = api->snap(w, j.c.ka, j.c.a);
    bool same = true;
    if (!have_twin && fam_relevant_model && !m.bits) {
      S->count[K_MODEL]++;
      S->count[K_SOLO]++;
      std::string why = judge(tj, A, B, o, post, s.ds ^ 0x77);
      if (!why.empty())
        bad("wrong", opn + " of " + show(A) + (j.uses_b ? " and " + show(B) : "") + ": " + why);
    }
    if (order == 1) {
      on_copies(false);
      if (t.status != ST_OK) {
        if (rel || (plan.prop == "C05" && S->nontrivial)) bad("exception", opn + " of copies " + status_text(t));
        other();
      }
    }
    if (!order && fam == FAM_INPLACE) {
      // no twin
    } else if (fam == FAM_INPLACE) {
      same = same_bits(post, tpost);
    } else {
      same = o.res.size() == t.res.size() && o.vals.size() == t.vals.size() &&
             (o.vals.empty() || !std::memcmp(o.vals.data(), t.vals.data(), o.vals.size() * 8));
      for (std::size_t i = 0; same && i < o.res.size(); i++) same = same_bits(o.res[i], t.res[i]);
    }
    S->count[K_TWIN] += order || fam != FAM_INPLACE;
    if (!same) {
      std::string how = j.c.alias ? "its own control point as argument" : self ? "itself as argument" : "";
      if (m.bits && !moved_state)
        bad("differs", opn + " of " + show(A) + (how.empty() ? "" : " with " + how) +
                           " gives a result different from the one on separate copies");
      if (fam_relevant_model && !m.bits) {
        Job q = j;
        if (j.c.alias) q.p = tj.p;
        std::string why = judge(q, before, B, o, post, s.ds ^ 0x55);
        if (!why.empty())
          bad("wrong", opn + " of " + show(A) + (how.empty() ? "" : " with " + how) + ": " + why);
        if (m.leak && s.fk) bad("differs", opn + " repeated after a failure differs from the undisturbed result");
      }
    }
    if (fam == FAM_INPLACE) {
      cur[j.c.ka][j.c.a] = post;
      if (j.c.op == O_UPDATEDEG || !admissible(post, P, v.big)) fill(j.c.ka, j.c.a, s.ds ^ 5);
      if (j.c.op == O_MOVEASSIGN) fill(j.c.kb, j.c.b, s.ds ^ 6);
      post = tpost;
    } else if (store) {
      cur[kstore][j.dest] = api->snap(w, kstore, j.dest);
      if (m.operands || m.bits) {
        const Snap& q = o.res[std::size_t(j.p.part) % o.res.size()];
        if (!same_bits(cur[kstore][j.dest], q)) bad("wrong", opn + ": the result changes when it is stored");
      }
    }
    unchanged(0, s, opn.c_str(), by);
    signature(S, mix(sig));
    // what later work depends on
    Hash hs;
    hs.add(j.c.op);
    hs.add(o.status);
    if (fam == FAM_INPLACE) {
      hs.add(cur[j.c.ka][j.c.a].hash());
    } else {
      for (auto& q : o.res) hs.add(q.hash());
      hs.bytes(o.vals.data(), o.vals.size() * 8);
    }
    note(hs.h);
    h.add(hs.h);
  }
  int kstore = 0;
  void note(u64 x) {
    if (steps_out) steps_out->push_back(x);
  }
  [[noreturn]] void other() {
    S->count[K_OTHER]++;
    S->done = 1;
    S->note[0] = 'o';
    _exit_ok();
  }
  [[noreturn]] static void _exit_ok() { child_stop(0); }
  void go(bool faults) {
    for (std::size_t i = 0; i < plan.steps.size(); i++) step(i, plan.steps[i], faults);
  }
};
struct Extra {
  u32 n;
  u32 complete;
  u64 v[4000];
};

struct H1 : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override { return op < NOPS ? op_names[op] : "?"; }
  std::string describe(const Step& s) override {
    std::string t = op_name(s.op % NOPS);
    t += " kind=" + std::to_string(s.a[0] % NKIND) + " slot=" + std::to_string(s.a[0] / NKIND % NSL) +
         " other=" + std::to_string(s.a[1]) + " to=" + std::to_string(s.a[2]);
    t += " args=" + std::to_string(s.a[3]) + "," + std::to_string(s.a[4]) + "," + std::to_string(s.a[5]) + "," +
         std::to_string(s.a[6]) + (s.a[7] & 1 ? " alias" : "") + (s.a[7] & 2 ? " store" : "") +
         (s.a[7] & 8 ? " lasting" : "") + " data=" + std::to_string(s.ds);
    static const char* const fk[] = {"", " FAULT allocation ", " FAULT allocations from ", " FAULT all allocations from ",
                                     " FAULT allocations of bytes >= "};
    if (s.fk >= 1 && s.fk <= 4) t += fk[s.fk] + std::to_string(s.fpos) + " (modulo the allocations of the call)";
    return t;
  }
  void simplify_header(const Plan& p, std::vector<Plan>& out) override {
    for (i64 d = 1; d < p.get("maxdeg", 6); d++) {
      Plan q = p;
      q.h["maxdeg"] = d;
      out.push_back(q);
    }
  }
  Plan gen(const std::string& prop, u64 seed) override {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    double x = r.uni();
    p.h["P"] = x < 0.45 ? 1 : x < 0.8 ? 2 : 3;
    p.h["wseed"] = i64(r.below(1u << 30));
    p.h["garbage"] = i64(r.below(1u << 30));
    p.h["maxdeg"] = r.chance(0.2) ? 8 : r.chance(0.5) ? 3 : 6;
    if (r.chance(0.12)) p.h["maxdeg"] = 29;
    if (r.chance(0.008)) p.h["maxdeg"] = 30;
    double w[4] = {1, 1, 0.7, 0.2};
    double alias = 0.15, fault = r.chance(0.75) ? 0.5 : r.chance(0.5) ? 0.15 : 0;
    if (prop == "C01") { w[0] = 3; w[1] = 0.8; w[2] = 0.05; w[3] = 0.15; fault = r.chance(0.85) ? 0.6 : 0.1; }
    if (prop == "C02") { w[0] = 0.4; w[1] = 2; w[2] = 1.3; w[3] = 0.2; alias = 0.1; }
    if (prop == "C03") { w[0] = 2; w[1] = 1; w[2] = 1; w[3] = 0.3; alias = 0.45; }
    if (prop == "C05") { w[0] = 1; w[1] = 1.2; w[2] = 0.5; w[3] = 0.4; }
    if (prop == "C07") { w[0] = 0.5; w[1] = 0.5; w[2] = 0.4; w[3] = 2; }
    int n = 5 + int(r.below(p.h["P"] == 3 ? 12 : 20));
    if (r.chance(0.015)) n += 60 + int(r.below(100));
    // swarm: sometimes only a few operations or kinds
    bool fewk = r.chance(0.25);
    u32 kmask = fewk ? u32(1 + r.below(62)) : 63;
    if (r.chance(0.2)) {
      p.steps = focused_steps(r, w, alias, fault, n);
      return p;
    }
    for (int i = 0; i < n; i++) {
      Step s = random_step(r, w, alias, fault);
      for (int t = 0; t < 8 && !(kmask >> (s.a[0] % NKIND) & 1); t++) s.a[0] = u32(r.below(NKIND * NSL));
      p.steps.push_back(s);
    }
    return p;
  }
  RunResult run(const Plan& p) override {
    const Mode m = mode_of(p.prop);
    heap_runaway = [](const char* w) {
      violation(S, "hang", std::string("a call exceeded its bound of ") + w);
      child_stop(3);
    };
    step_budget(250000000);
    const bool hist = p.prop == "C03" || p.prop == "C07";
    u64 garbage = u64(p.get("garbage"));
    Shared* a = shared_block(0);
    S = a;
    auto store = [&](const std::vector<u64>& v) {
      Extra* e = reinterpret_cast<Extra*>(S->extra);
      e->n = u32(v.size() < 4000 ? v.size() : 4000);
      for (u32 i = 0; i < e->n; i++) e->v[i] = v[i];
      e->complete = 1;
    };
    ChildStatus st = in_child(a, [&](Shared*) {
      std::memset(S->extra, 0, 16);
      std::vector<u64> v;
      if (p.prop == "C03") {
        {
          Runner r(p, garbage, m);
          r.go(true);
          S->hash[0] = r.h.h;
        }
        S->phase = 10;
        reinterpret_cast<Extra*>(S->extra)->complete = 2;
        Runner r2(p, garbage * 3 + 1, m);
        r2.steps_out = &v;
        r2.go(false);
        Hash h;
        h.add(S->hash[0]);
        h.add(r2.h.h);
        S->hash[0] = h.h;
        store(v);
      } else {
        Runner r(p, garbage, m);
        r.steps_out = &v;
        r.go(true);
        S->hash[0] = r.h.h;
        if (hist) store(v);
      }
    });
    RunResult res = collect(a, st);
    bool crashed = res.viol && !a->viol;
    u32 fl = a->armed;
    bool second_world = false;
    Extra ea;
    std::memcpy(&ea, a->extra, sizeof ea);
    second_world = p.prop == "C03" && ea.complete == 2;
    if (crashed || (a->viol && std::string(a->cls) == "hang")) {
      bool rel = relevant_crash(p.prop, res.cls, res.vop, fl > 1 && a->phase == 2);
      if (!rel && (hist && (second_world || p.prop == "C07"))) {
        // does it also happen without the history?
        if (!cold(p, m, garbage, nullptr)) {
          res.msg = "after this history " + op_name(res.vop) + " fails: " + res.msg;
          return res;
        }
      }
      if (!rel) {
        res.viol = false;
        res.skipped = true;
        res.count[K_OTHER]++;
      }
      return res;
    }
    if (res.viol && p.prop == "C05" && res.cls == "exception") {
      // not a matter of recovery if it fails without any preceding fault too
      if (cold(p, m, garbage, nullptr)) {
        res.viol = false;
        res.skipped = true;
        res.count[K_OTHER]++;
      }
      return res;
    }
    if (res.viol || !hist || ea.complete != 1) return res;
    // the same program without that history
    Extra eb;
    RunResult rb;
    if (cold(p, m, garbage, &eb, &rb)) {
      // fails on its own: another property
      return res;
    }
    res.count[K_HIST]++;
    res.count[K_HSTEPS] += ea.n < eb.n ? ea.n : eb.n;
    res.ticks += rb.ticks;
    for (u32 i = 0; i < ea.n && i < eb.n; i++) {
      bool rej = op_reject(p.steps[i].op % NOPS);
      if (p.prop == "C07" && rej) continue;
      if (ea.v[i] != eb.v[i]) {
        res.viol = true;
        res.cls = "history";
        res.vstep = i;
        res.vop = p.steps[i].op % NOPS;
        res.msg = std::string(op_names[res.vop]) +
                  (p.prop == "C03" ? " gives another result than in a fresh process without the preceding work"
                                   : " gives another result than without the preceding rejected requests");
        break;
      }
    }
    return res;
  }
  // runs the plan in a process without the history; true if it fails itself
  bool cold(const Plan& p, const Mode& m, u64 garbage, Extra* e, RunResult* out = nullptr) {
    Shared* b = shared_block(1);
    S = b;
    ChildStatus st = in_child(b, [&](Shared*) {
      std::memset(S->extra, 0, 16);
      std::vector<u64> v;
      Runner r(p, p.prop == "C03" ? garbage * 7 + 5 : garbage, m);
      r.steps_out = &v;
      r.no_reject = p.prop == "C07";
      r.go(p.prop == "C07");
      Extra* x = reinterpret_cast<Extra*>(S->extra);
      x->n = u32(v.size() < 4000 ? v.size() : 4000);
      for (u32 i = 0; i < x->n; i++) x->v[i] = v[i];
      x->complete = 1;
    });
    RunResult r = collect(b, st);
    Extra x;
    std::memcpy(&x, b->extra, sizeof x);
    if (e) *e = x;
    if (out) *out = r;
    S = shared_block(0);
    return r.viol || x.complete != 1;
  }
};
}  // namespace
int main(int argc, char** argv) {
  H1 h;
  return harness_main(h, argc, argv);
}

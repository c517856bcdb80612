// H4: base64 store.  Records are encoded into texts, the texts live on a
// simulated store that damages them, and are decoded again; allocations fail.
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "alloc.hpp"
#include "bezman/src/utils/base64.hpp"

using namespace sim;
using bezman::Point;
using bezman::utils::Base64;

namespace {
template <int N>
struct Blob {
  unsigned char b[N];
};
enum { OP_STORE, OP_LOAD, OP_DAMAGE, OP_LOADAS, OP_REENCODE, OP_CHURN, NOPS };
const char* const op_names[] = {"store",    "load",     "damage",
                                "load-as", "re-encode", "churn"};
enum {
  C_STORES,
  C_LOADS,
  C_DAMAGED_LOADS,
  C_ALLOC_FAULTS,
  C_RETRIES,
  C_FLIP,
  C_REPLACE,
  C_NONASCII,
  C_PAD,
  C_CUT,
  C_TORN,
  C_ZERO,
  C_STALE,
  C_APPEND,
  C_SWAP,
  C_EMPTY,
  C_PREFIX,
  NC
};
const char* const counters[] = {"records stored",
                                "records loaded",
                                "damaged texts decoded",
                                "fault: allocation failed",
                                "retries after a failure",
                                "fault: bit flipped",
                                "fault: character replaced",
                                "fault: non-ASCII character",
                                "fault: padding character inserted",
                                "fault: text cut after a group",
                                "fault: text torn inside a group",
                                "fault: block of the text zeroed",
                                "fault: block replaced by older text",
                                "fault: text continued with other data",
                                "fault: two blocks exchanged",
                                "empty data",
                                "probe: decoded a proper prefix",
                                nullptr};
constexpr int NSLOT = 4;
struct Rec {
  bool valid = false;
  u32 type = 0;
  std::size_t n = 0;
  std::vector<unsigned char> bytes;
  std::string orig, text, older;
};
const char* const b64c =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_encode(const std::vector<unsigned char>& b) {
  std::string o;
  for (std::size_t i = 0; i < b.size(); i += 3) {
    u32 v = u32(b[i]) << 16;
    if (i + 1 < b.size()) v |= u32(b[i + 1]) << 8;
    if (i + 2 < b.size()) v |= b[i + 2];
    o += b64c[v >> 18];
    o += b64c[(v >> 12) & 63];
    o += i + 1 < b.size() ? b64c[(v >> 6) & 63] : '=';
    o += i + 2 < b.size() ? b64c[v & 63] : '=';
  }
  return o;
}
Shared* S;
[[noreturn]] void bad(const char* cls, const std::string& m) {
  violation(S, cls, m);
  child_stop(3);
}
struct Type {
  std::size_t size;
  std::string (*enc)(const std::vector<unsigned char>&, const Step&, u64, bool&,
                     u64&);
  std::vector<unsigned char> (*dec)(const std::string&, const Step&, u64, bool&,
                                    std::size_t&);
  const char* name;
};
// One library call under the fault of the step.  oom: it threw bad_alloc.
template <typename T>
std::string enc(const std::vector<unsigned char>& b, const Step& s, u64 g,
                bool& oom, u64& leak) {
  std::vector<T> v(b.size() / sizeof(T));
  if (!v.empty()) std::memcpy(static_cast<void*>(v.data()), b.data(), b.size());
  std::string r;
  oom = false;
  heap_garbage(g);
  {
    Armed arm(s.fk, s.fpos, s.fcnt);
    S->armed = 1;
    try {
      std::string t = Base64::Encode(v);
      arm.end();
      r.assign(t.data(), t.size());
    } catch (const std::bad_alloc&) {
      arm.end();
      oom = true;
    } catch (const std::exception& e) {
      arm.end();
      bad("exception", std::string("encoding threw ") + e.what());
    }
    S->armed = 0;
    S->count[C_ALLOC_FAULTS] += arm.st.failed;
    if (arm.st.failed) S->nontrivial = 1;
    if (oom && !arm.st.failed)
      bad("exception", "encoding reported exhausted memory without cause");
    S->ticks += arm.st.allocs;
  }
  leak = oom ? heap_live() : 0;
  if (!v.empty() && std::memcmp(v.data(), b.data(), b.size()) != 0)
    bad("operand", "encoding changed its argument");
  return r;
}
template <typename T>
std::vector<unsigned char> dec(const std::string& text, const Step& s, u64 g,
                               bool& oom, std::size_t& n) {
  // a copy with exact bounds; a damaged read outside is seen by the sanitizer
  std::string arg(text);
  arg.shrink_to_fit();
  std::vector<unsigned char> r;
  oom = false;
  n = 0;
  heap_garbage(g);
  {
    Armed arm(s.fk, s.fpos, s.fcnt);
    S->armed = 1;
    try {
      auto v = Base64::Decode<T>(arg);
      arm.end();
      n = v.size();
      r.resize(n * sizeof(T));
      if (n) std::memcpy(r.data(), static_cast<void*>(v.data()), r.size());
    } catch (const std::bad_alloc&) {
      arm.end();
      oom = true;
    } catch (const std::exception& e) {
      arm.end();
      bad("exception", std::string("decoding threw ") + e.what());
    }
    S->armed = 0;
    S->count[C_ALLOC_FAULTS] += arm.st.failed;
    if (arm.st.failed) S->nontrivial = 1;
    if (oom && !arm.st.failed)
      bad("exception", "decoding reported exhausted memory without cause");
    S->ticks += arm.st.allocs;
  }
  if (arg != text) bad("operand", "decoding changed its argument");
  return r;
}
#define TYPE(T) \
  { sizeof(T), enc<T>, dec<T>, #T }
using P1d = Point<1, double>;
using P2d = Point<2, double>;
using P3d = Point<3, double>;
using P4d = Point<4, double>;
using P3f = Point<3, float>;
using P2i = Point<2, int>;
using P3c = Point<3, unsigned char>;
using B3 = Blob<3>;
using B5 = Blob<5>;
using B6 = Blob<6>;
using B7 = Blob<7>;
using B9 = Blob<9>;
using B16 = Blob<16>;
using uchar = unsigned char;
const Type types[] = {TYPE(double), TYPE(float), TYPE(uchar),    TYPE(short),
                      TYPE(int),    TYPE(B3),    TYPE(B5),       TYPE(B6),
                      TYPE(B7),     TYPE(B9),    TYPE(B16),      TYPE(P1d),
                      TYPE(P2d),    TYPE(P3d),   TYPE(P4d),      TYPE(P3f),
                      TYPE(P2i),    TYPE(P3c),   TYPE(long long)};
constexpr u32 NT = sizeof types / sizeof types[0];
constexpr std::size_t MAXBYTES = 400000;

std::vector<unsigned char> make_bytes(u64 ds, std::size_t size, u32 mode) {
  std::vector<unsigned char> b(size);
  Rng r(ds);
  for (std::size_t i = 0; i < size; i++) {
    switch (mode & 3) {
      case 0: b[i] = static_cast<unsigned char>(r.next()); break;
      case 1: b[i] = 0; break;
      case 2: b[i] = 0xff; break;
      default: b[i] = static_cast<unsigned char>(i * 7 + ds); break;
    }
  }
  return b;
}

struct B64 : Harness {
  const char* const* counter_names() override { return counters; }
  std::string op_name(u32 op) override {
    return op < NOPS ? op_names[op] : "?";
  }
  Plan gen(const std::string& prop, u64 seed) override {
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(seed);
    bool damage = prop == "C14";
    bool faults = r.chance(0.6);
    p.h["garbage"] = i64(r.below(1u << 30));
    int n = 4 + int(r.below(14));
    u32 tmask = u32(r.next() | r.next());
    u32 maxn = r.chance(0.3) ? 200 : r.chance(0.5) ? 24 : 8;
    if (r.chance(0.02)) maxn = r.chance(0.3) ? 40000 : 3000;
    for (int i = 0; i < n; i++) {
      Step s;
      double x = r.uni();
      s.ds = r.next() >> 8;
      s.a[0] = u32(r.below(NSLOT));
      if (i < 2 || x < 0.25) {
        s.op = OP_STORE;
        do {
          s.a[1] = u32(r.below(NT));
        } while (!((tmask >> s.a[1]) & 1) && r.chance(0.9));
        s.a[2] = u32(r.below(maxn));
        s.a[3] = r.chance(0.7) ? 0 : u32(r.below(4));
      } else if (damage && x < 0.6) {
        s.op = OP_DAMAGE;
        s.a[1] = u32(r.below(10));
        s.a[2] = u32(r.next() & 0xffff);
        s.a[3] = u32(r.next() & 0xffff);
        // often aim at the end of the text, where the padding is
        if (r.chance(0.35)) s.a[4] = 1;
      } else if (x < 0.8) {
        s.op = OP_LOAD;
      } else if (x < 0.88) {
        s.op = OP_LOADAS;
        s.a[1] = u32(r.below(NT));
      } else if (x < 0.95) {
        s.op = OP_REENCODE;
      } else {
        s.op = OP_CHURN;
        s.a[1] = u32(r.below(64));
      }
      if (faults && s.op != OP_DAMAGE && s.op != OP_CHURN && r.chance(0.35)) {
        s.fk = 1 + u32(r.below(4));
        s.fpos = s.fk == F_ALLOC_SIZE ? u32(1 + r.below(200)) : u32(r.below(3));
        s.fcnt = 1 + u32(r.below(2));
      }
      p.steps.push_back(s);
    }
    // what is stored is read back at the end
    for (u32 k = 0; k < NSLOT; k++) {
      Step s;
      s.op = OP_LOAD;
      s.a[0] = k;
      p.steps.push_back(s);
    }
    return p;
  }

  void damage(Rec& c, const Step& s) {
    std::string& t = c.text;
    if (t.empty()) return;
    S->nontrivial = 1;
    std::size_t n = t.size();
    std::size_t pos = s.a[4] ? n - 1 - s.a[2] % std::min<std::size_t>(n, 6)
                             : s.a[2] % n;
    switch (s.a[1]) {
      case 0:
        t[pos] = char(t[pos] ^ (1 << (s.a[3] & 7)));
        S->count[C_FLIP]++;
        break;
      case 1:
        t[pos] = b64c[s.a[3] & 63];
        S->count[C_REPLACE]++;
        break;
      case 2:
        t[pos] = char(0x80 | (s.a[3] & 0x7f));
        S->count[C_NONASCII]++;
        break;
      case 3:
        t[pos] = '=';
        S->count[C_PAD]++;
        break;
      case 4:
        t.resize(pos / 4 * 4);
        S->count[C_CUT]++;
        break;
      case 5:
        t.resize(pos);
        S->count[C_TORN]++;
        break;
      case 6: {
        std::size_t e = std::min(n, pos + 1 + (s.a[3] & 63));
        for (std::size_t i = pos; i < e; i++) t[i] = 0;
        S->count[C_ZERO]++;
        break;
      }
      case 7: {
        std::size_t e = std::min(std::min(n, c.older.size()),
                                 pos + 1 + (s.a[3] & 63));
        for (std::size_t i = pos; i < e; i++) t[i] = c.older[i];
        S->count[C_STALE]++;
        break;
      }
      case 8: {
        Rng r(s.ds);
        u32 k = s.a[3] % 23;
        for (u32 i = 0; i < k; i++) t += char(r.next());
        S->count[C_APPEND]++;
        break;
      }
      default: {
        std::size_t q = s.a[3] % n;
        std::size_t a = std::min(pos, q), b = std::max(pos, q);
        for (std::size_t i = 0; i < 8 && a + i < b && b + i < n; i++)
          std::swap(t[a + i], t[b + i]);
        S->count[C_SWAP]++;
        break;
      }
    }
  }
  // what decoding the (possibly damaged) text must satisfy
  void check_load(const Rec& c, const Type& ty,
                  const std::vector<unsigned char>& got, std::size_t n,
                  bool same_type) {
    std::size_t total = c.bytes.size();
    if (c.text == c.orig) {
      std::size_t want = total / ty.size;
      if (n != want)
        bad("wrong", "decoding gave " + std::to_string(n) +
                         " elements instead of " + std::to_string(want) +
                         " of " + ty.name);
      if (want && std::memcmp(got.data(), c.bytes.data(), want * ty.size) != 0)
        bad("wrong", std::string("decoded elements of ") + ty.name +
                         " differ from the stored ones");
      return;
    }
    S->count[C_DAMAGED_LOADS]++;
    std::size_t g0 = c.orig.size() / 4, g1 = c.text.size() / 4;
    auto intact = [&](std::size_t g) {
      return g < g0 && g < g1 && c.text.compare(g * 4, 4, c.orig, g * 4, 4) == 0;
    };
    std::size_t want = total / ty.size;
    for (std::size_t i = 0; i < want; i++) {
      std::size_t a = i * ty.size / 3, b = (i * ty.size + ty.size - 1) / 3;
      bool ok = true;
      for (std::size_t g = a; g <= b && ok; g++) ok = intact(g);
      if (!ok) continue;
      if (i >= n)
        bad("wrong", "element " + std::to_string(i) + " of " + ty.name +
                         ", stored in undamaged groups, is missing (" +
                         std::to_string(n) + " decoded)");
      if (std::memcmp(got.data() + i * ty.size, c.bytes.data() + i * ty.size,
                      ty.size) != 0)
        bad("wrong", "element " + std::to_string(i) + " of " + ty.name +
                         ", stored in undamaged groups, differs");
    }
    // cut after whole groups: exactly a prefix
    if (c.text.size() < c.orig.size() && c.text.size() % 4 == 0 &&
        c.orig.compare(0, c.text.size(), c.text) == 0) {
      std::size_t keep = c.text.size() / 4 * 3 / ty.size;
      if (n != keep)
        bad("wrong", "a text cut after a group gave " + std::to_string(n) +
                         " elements of " + ty.name + " instead of " +
                         std::to_string(keep));
      S->count[C_PREFIX]++;
    }
    (void)same_type;
  }
  void child(const Plan& p) {
    std::vector<Rec> rec(NSLOT);
    u64 g = u64(p.get("garbage"));
    Hash h;
    std::vector<std::unique_ptr<char[]>> churn;
    for (std::size_t i = 0; i < p.steps.size(); i++) {
      const Step& s = p.steps[i];
      S->step = u32(i);
      S->op = s.op;
      Rec& c = rec[s.a[0] % NSLOT];
      g = mix(g + i);
      Step none = s;
      none.fk = 0;
      bool oom = false;
      u64 sig = s.op;
      if (s.op == OP_STORE) {
        const Type& ty = types[s.a[1] % NT];
        std::size_t n = std::min<std::size_t>(s.a[2], MAXBYTES / ty.size);
        auto bytes = make_bytes(s.ds, n * ty.size, s.a[3]);
        std::string want = ref_encode(bytes);
        u64 leak = 0;
        std::string got = ty.enc(bytes, s, g, oom, leak);
        if (oom) {
          S->count[C_RETRIES]++;
          u64 leak2 = 0;
          bool oom2;
          if (leak) {
            ty.enc(bytes, s, g, oom2, leak2);
            if (leak2) bad("leak", "failed encoding keeps memory");
          }
          got = ty.enc(bytes, none, g + 1, oom2, leak2);
          if (oom2) bad("exception", "encoding fails although memory is back");
        }
        if (got != want) {
          std::size_t d = 0;
          while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
          bad("wrong", "encoding " + std::to_string(n) + " elements of " +
                           ty.name + " differs from RFC 4648 at character " +
                           std::to_string(d));
        }
        c.older = c.text;
        c.valid = true;
        c.type = s.a[1] % NT;
        c.n = n;
        c.bytes = bytes;
        c.orig = c.text = got;
        S->count[C_STORES]++;
        if (!n) S->count[C_EMPTY]++;
        h.str(got);
        sig = sig * 131 + s.a[1] % NT + 1000 * (n % 3) + 5000 * oom;
      } else if (!c.valid) {
        continue;
      } else if (s.op == OP_LOAD || s.op == OP_LOADAS || s.op == OP_REENCODE) {
        u32 t = s.op == OP_LOADAS ? s.a[1] % NT : c.type;
        const Type& ty = types[t];
        std::size_t n = 0;
#ifndef NDEBUG
        // run-time checks refuse a number of bytes that is not whole elements
        if (c.bytes.size() % ty.size) continue;
#endif
        auto got = ty.dec(c.text, s, g, oom, n);
        if (oom) {
          S->count[C_RETRIES]++;
          u64 leak = heap_live();
          bool oom2;
          if (leak) {
            ty.dec(c.text, s, g, oom2, n);
            if (heap_live()) bad("leak", "failed decoding keeps memory");
          }
          got = ty.dec(c.text, none, g + 1, oom2, n);
          if (oom2) bad("exception", "decoding fails although memory is back");
        }
        S->count[C_LOADS]++;
        check_load(c, ty, got, n, t == c.type);
        // the same text decodes to the same elements whatever memory contains
        {
          std::size_t n2 = 0;
          bool oom2;
          auto again = ty.dec(c.text, none, ~g, oom2, n2);
          if (n2 != n || again != got)
            bad("wrong", std::string("decoding the same text twice as ") +
                             ty.name + " gave different elements");
        }
        if (s.op == OP_REENCODE && c.text == c.orig) {
          u64 leak;
          std::string e = ty.enc(got, none, g + 2, oom, leak);
          if (e != c.orig) bad("wrong", "decode then encode changed the text");
        }
        h.add(n);
        h.bytes(got.data(), got.size());
        sig = sig * 131 + t + 1000 * (c.text.size() % 4) +
              5000 * (c.text == c.orig) + 10000 * oom + 20000 * (n % 5);
      } else if (s.op == OP_DAMAGE) {
        damage(c, s);
        sig = sig * 131 + s.a[1] + 1000 * (c.text.size() % 4) +
              5000 * (c.type);
      } else if (s.op == OP_CHURN) {
        // unrelated heap work
        for (u32 k = 0; k < s.a[1]; k++)
          churn.emplace_back(new char[1 + mix(s.ds + k) % 300]);
        if (churn.size() > 40) churn.clear();
      }
      signature(S, mix(sig));
      S->ticks++;
    }
    S->hash[0] = h.h;
  }
  RunResult run(const Plan& p) override {
    S = shared_block(0);
    heap_runaway = [](const char* w) {
      bad("hang", std::string("a call exceeded its bound of ") + w);
    };
    step_budget(400000000);
    ChildStatus st = in_child(S, [&](Shared*) { child(p); });
    return collect(S, st);
  }
};
}  // namespace
int main(int argc, char** argv) {
  B64 h;
  return harness_main(h, argc, argv);
}

// Exhaustive-exploration core shared by all harnesses: enumerates scenarios,
// shards them deterministically, counts states / transitions, records
// violations and makes every scenario replayable by its id.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {
using LD = long double;

#ifdef MC_VARIANT_MSAN
// without streams: the C++ library is not instrumented
template <class A>
void cat1(std::string &s, const A &a) {
  char b[64];
  if constexpr (std::is_convertible_v<A, std::string>)
    s += a;
  else if constexpr (std::is_floating_point_v<A>)
    std::snprintf(b, sizeof b, "%.21Lg", static_cast<LD>(a)), s += b;
  else if constexpr (std::is_signed_v<A>)
    std::snprintf(b, sizeof b, "%lld", static_cast<long long>(a)), s += b;
  else
    std::snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(a)), s += b;
}
template <class... A>
std::string cat(const A &...a) {
  std::string s;
  (cat1(s, a), ...);
  return s;
}
template <class V>
std::string lst(const V &v) {
  std::string s;
  for (const auto &x : v) {
    if (!s.empty()) s += ",";
    cat1(s, x);
  }
  return s;
}
#else
inline void cat_(std::ostringstream &) {}
template <class A, class... R>
void cat_(std::ostringstream &o, const A &a, const R &...r) {
  o << a;
  cat_(o, r...);
}
template <class... A>
std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(21);
  cat_(o, a...);
  return o.str();
}
template <class V>
std::string lst(const V &v) {
  std::ostringstream o;
  o.precision(17);
  bool f = true;
  for (const auto &x : v) {
    if (!f) o << ",";
    o << x;
    f = false;
  }
  return o.str();
}
#endif

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix(h ^ mix(v)); }
inline uint64_t hstr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
inline uint64_t hreal(LD v) {
  float f = static_cast<float>(v);
  uint32_t b;
  std::memcpy(&b, &f, 4);
  return b;
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += static_cast<char>(c);
  }
  return o;
}

struct Progress {  // shared with the driver through a file
  volatile uint64_t count;
  char id[4088];
};

#ifdef MC_VARIANT_MSAN
struct HashSet {  // std::unordered_set relies on the uninstrumented library
  std::vector<uint64_t> slot = std::vector<uint64_t>(1024), all;
  bool place(uint64_t h) {
    size_t i = mix(h) & (slot.size() - 1);
    while (slot[i] && slot[i] != h) i = (i + 1) & (slot.size() - 1);
    const bool fresh = !slot[i];
    slot[i] = h;
    return fresh;
  }
  void insert(uint64_t h) {
    h |= !h;
    if (!place(h)) return;
    all.push_back(h);
    if (2 * all.size() < slot.size()) return;
    slot.assign(slot.size() * 4, 0);
    for (uint64_t x : all) place(x);
  }
  size_t count(uint64_t h) const {
    for (uint64_t x : all)
      if (x == h) return 1;
    return 0;
  }
  bool empty() const { return all.empty(); }
  auto begin() const { return all.begin(); }
  auto end() const { return all.end(); }
};
#else
using HashSet = std::unordered_set<uint64_t>;
#endif

struct Skip {};  // thrown to leave a scenario early (already failed)

class Ctx {
 public:
  int level = 1;  // 0 reduced (instrumented build), 1 quick, 2 thorough
  int shard = 0, nshards = 1;
  uint64_t seed = 1;
  std::string only, out, variant = "rel", scratch;
  HashSet skip;
  uint64_t index = 0, ran = 0, transitions = 0, validated = 0, nviol = 0;
  uint64_t stop_after = 20;
  HashSet states;
  std::vector<std::string> samples;
  uint64_t next_sample = 1;
  Progress *prog = nullptr;
  bool failed_here = false;
  std::string cur;
  FILE *vf = nullptr;
  std::vector<std::pair<std::string, uint64_t>> counters;
  int hang_s = 60;

  void counter(const std::string &k, uint64_t n = 1) {
    for (auto &p : counters)
      if (p.first == k) {
        p.second += n;
        return;
      }
    counters.emplace_back(k, n);
  }
  void state(uint64_t h) { states.insert(h); }

  void fail(const std::string &msg) {
    if (failed_here) return;
    failed_here = true;
    nviol++;
    if (!vf) vf = std::fopen((out + ".viol").c_str(), "w");
    std::fprintf(vf, "{\"id\": \"%s\", \"msg\": \"%s\"}\n", jesc(cur).c_str(),
                 jesc(msg).c_str());
    std::fflush(vf);
    if (nviol >= stop_after && only.empty()) finish(false);
  }
  [[noreturn]] void die(const std::string &msg) {
    fail(msg);
    throw Skip{};
  }
  bool expect(bool ok, const std::string &msg) {
    if (!ok) fail(msg);
    return ok;
  }
  // |got - exp| <= tol * scale ; NaN and inf fail
  template <class W>
  bool close(LD got, LD exp, LD scale, LD tol, const W &what) {
    const LD d = std::fabs(got - exp);
    if (d <= tol * scale) return true;
    if (failed_here) return false;
    fail(cat(what(), ": got ", got, " expected ", exp, " |diff| ", d,
             " allowed ", tol * scale));
    return false;
  }

  // The unit of exploration: one operation sequence / input on the real code.
  template <class I, class F>
  void scenario(const I &make_id, const F &body) {
    const uint64_t my = index++;
    if (only.empty()) {
      if (static_cast<int>(mix(my) % static_cast<uint64_t>(nshards)) != shard)
        return;
      cur = make_id();
    } else {
      cur = make_id();
      if (cur != only) return;
    }
    if (!skip.empty() && skip.count(hstr(cur))) return;
    failed_here = false;
    if (prog) {
      prog->count = prog->count + 1;
      std::strncpy(prog->id, cur.c_str(), sizeof(prog->id) - 1);
    }
    alarm(hang_s);
    ran++;
    try {
      body();
    } catch (const Skip &) {
    } catch (const std::exception &e) {
      fail(cat("unexpected exception: ", e.what()));
    } catch (...) {
      fail("unexpected exception of unknown type");
    }
    validated++;
    if (ran == next_sample && samples.size() < 12) {
      samples.push_back(cur);
      next_sample = next_sample * 5;
    }
  }
  void progress() {  // long scenario: tell the driver we are alive
    if (prog) prog->count = prog->count + 1;
    alarm(hang_s);
  }

  void write(const char *suffix_complete) {
    FILE *f = std::fopen((out + ".json").c_str(), "w");
    std::fprintf(f,
                 "{\"complete\": %s, \"index\": %llu, \"ran\": %llu, "
                 "\"transitions\": %llu, \"validated\": %llu, \"violations\": "
                 "%llu, \"samples\": [",
                 suffix_complete, (unsigned long long)index,
                 (unsigned long long)ran, (unsigned long long)transitions,
                 (unsigned long long)validated, (unsigned long long)nviol);
    for (size_t i = 0; i < samples.size(); i++)
      std::fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    std::fprintf(f, "], \"counters\": {");
    for (size_t i = 0; i < counters.size(); i++)
      std::fprintf(f, "%s\"%s\": %llu", i ? ", " : "",
                   jesc(counters[i].first).c_str(),
                   (unsigned long long)counters[i].second);
    std::fprintf(f, "}}\n");
    std::fclose(f);
    f = std::fopen((out + ".states").c_str(), "wb");
    std::vector<uint64_t> v(states.begin(), states.end());
    if (!v.empty()) std::fwrite(v.data(), 8, v.size(), f);
    std::fclose(f);
  }
  [[noreturn]] void finish(bool complete) {
    write(complete ? "true" : "false");
    if (vf) std::fclose(vf);
    std::fflush(stdout);
    _exit(nviol ? 10 : 0);
  }
};

}  // namespace mc

void explore(mc::Ctx &c);  // provided by each harness

#ifndef MC_NO_MAIN
int main(int argc, char **argv) {
  mc::Ctx *cp = new mc::Ctx;
  mc::Ctx &c = *cp;
  std::string progf;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--shard") c.shard = std::atoi(v.c_str());
    if (k == "--nshards") c.nshards = std::atoi(v.c_str());
    if (k == "--level") c.level = std::atoi(v.c_str());
    if (k == "--seed") c.seed = std::strtoull(v.c_str(), nullptr, 10);
    if (k == "--only") c.only = v;
    if (k == "--out") c.out = v;
    if (k == "--variant") c.variant = v;
    if (k == "--scratch") c.scratch = v;
    if (k == "--progress") progf = v;
    if (k == "--hang") c.hang_s = std::atoi(v.c_str());
    if (k == "--skip") c.skip.insert(mc::hstr(v));
  }
  if (!progf.empty()) {
    int fd = open(progf.c_str(), O_RDWR | O_CREAT, 0644);
    if (ftruncate(fd, sizeof(mc::Progress)) != 0) return 3;
    void *p = mmap(nullptr, sizeof(mc::Progress), PROT_READ | PROT_WRITE,
                   MAP_SHARED, fd, 0);
    if (p != MAP_FAILED) c.prog = static_cast<mc::Progress *>(p);
  }
  alarm(c.hang_s);
  explore(c);
  c.finish(true);
}
#endif

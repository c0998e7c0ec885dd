// C23: every build configuration yields the results of the reference one.
#include <dirent.h>
#include <dlfcn.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>

#include "mc/core.hpp"

using mc::cat;
using LD = long double;
namespace {
struct Result {
  const LD *v;
  std::size_t nv;
  const long long *d;
  std::size_t nd;
  LD scale;
  int ran;
  const char *what;
};
struct Lib {
  std::string name;
  void *h;
  LD eps;
  int (*entries)(), (*mutations)(), (*table)();
  const char *(*entry)(int), *(*mutation)(int);
  void (*level)(unsigned);
  std::size_t (*choose)(unsigned, unsigned);
  Result (*bernstein)(std::size_t, LD, int);
  Result (*high)(std::size_t, LD);
  Result (*run)(const std::size_t *, const std::size_t *, unsigned, const int *, int, int);
  bool logs() const { return name.find("log") != std::string::npos; }
};
struct Null : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
template <class F>
void get(void *h, const char *n, F &f) {
  f = reinterpret_cast<F>(dlsym(h, n));
  if (!f) std::cerr << "missing " << n << "\n", _exit(3);
}
std::vector<Lib> libs() {
  char exe[4096] = {};
  if (readlink("/proc/self/exe", exe, sizeof exe - 1) <= 0) _exit(3);
  const std::string p(exe), dir = p.substr(0, p.rfind('/')), base = p.substr(p.rfind('/') + 1) + ".";
  std::vector<std::string> f;
  DIR *d = opendir(dir.c_str());
  while (const dirent *e = readdir(d)) {
    const std::string n(e->d_name);
    if (n.rfind(base, 0) == 0 && n.size() > 3 && n.substr(n.size() - 3) == ".so") f.push_back(n);
  }
  closedir(d);
  std::sort(f.begin(), f.end());
  std::vector<Lib> r;
  for (const auto &n : f) {
    Lib l;
    l.name = n.substr(base.size(), n.size() - base.size() - 3);
    l.h = dlopen((dir + "/" + n).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) std::cerr << dlerror() << "\n", _exit(3);
    l.eps = l.name[0] == 'f' ? std::numeric_limits<float>::epsilon() : l.name[0] == 'd' ? std::numeric_limits<double>::epsilon() : std::numeric_limits<LD>::epsilon();
    get(l.h, "c23_entries", l.entries), get(l.h, "c23_mutations", l.mutations), get(l.h, "c23_table", l.table), get(l.h, "c23_entry", l.entry), get(l.h, "c23_mutation", l.mutation);
    get(l.h, "c23_level", l.level), get(l.h, "c23_choose", l.choose), get(l.h, "c23_bernstein", l.bernstein), get(l.h, "c23_high", l.high), get(l.h, "c23_run", l.run);
    r.push_back(l);
  }
  return r;
}
struct Copy {
  std::vector<LD> v;
  std::vector<long long> d;
  LD scale;
  int ran;
  std::string what;
};
Copy copy(const Result &r) { return {{r.v, r.v + r.nv}, {r.d, r.d + r.nd}, r.scale, r.ran, r.what}; }
void same(mc::Ctx &c, const Lib &l, const Copy &a, const Copy &b, const std::string &what, bool discrete = true) {
  c.transitions++;
  const std::string w = cat(l.name, ": ", what);
  if (b.ran < 0) c.die(cat(w, " raised ", b.what));
  if (a.ran != b.ran) c.die(cat(w, " ran ", b.ran, " reference ", a.ran, " ", a.what));
  if (a.v.size() != b.v.size() || a.d.size() != b.d.size()) c.die(cat(w, " yields ", b.v.size(), " numbers and ", b.d.size(), " decisions, reference ", a.v.size(), " and ", a.d.size()));
  if (discrete)
    for (std::size_t i = 0; i < a.d.size(); i++)
      if (a.d[i] != b.d[i]) c.die(cat(w, " decision ", i, " is ", b.d[i], " reference ", a.d[i]));
  LD scale = a.scale;
  for (const auto x : a.v)
    if (std::isfinite(x)) scale = std::max(scale, std::fabs(x));
  const LD tol = 3e4L * std::max(l.eps, LD(1e-18)) * scale;
  for (std::size_t i = 0; i < a.v.size(); i++) {
    if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
    if (!(std::fabs(a.v[i] - b.v[i]) <= tol)) c.die(cat(w, " number ", i, " is ", b.v[i], " reference ", a.v[i], " scale ", scale));
  }
}
constexpr int PD = PART;
using G = std::array<std::size_t, PD>;
std::vector<std::pair<G, G>> shapes(int level) {
  std::vector<std::pair<G, G>> r;
  G g{}, h{};
  r.emplace_back(g, h);
  h.fill(1), r.emplace_back(g, h), r.emplace_back(h, g);
  g.fill(1), g[0] = 2, r.emplace_back(g, h), r.emplace_back(h, g);
  if (PD == 1 || level >= 1) g[0] = 1, g[PD - 1] = 2, h[PD - 1] = 0, r.emplace_back(g, h);
  if (PD == 1 || level >= 2) g.fill(2), h.fill(1), h[0] = 3, r.emplace_back(g, h), r.emplace_back(h, g);
  if (PD == 1) g.fill(5), h.fill(2), r.emplace_back(g, h), g.fill(1), h.fill(6), r.emplace_back(g, h);
  return r;
}
}  // namespace

void explore(mc::Ctx &c) {
  static Null null;
  std::cout.rdbuf(&null);
  const auto L = libs();
  if (L.size() < 10) _exit(3);
  const Lib &ref = L[0];
  const int E = ref.entries(), M = ref.mutations();
  const auto run = [&](const Lib &l, const std::pair<G, G> &s, const std::vector<int> &hist, int e) {
    return copy(l.run(s.first.data(), s.second.data(), 1, hist.data(), static_cast<int>(hist.size()), e));
  };
  const auto compare = [&](const Lib &l, const std::pair<G, G> &s, const std::vector<int> &hist, int e, const Copy &a, const std::string &what) {
    // logging at the lowest, the highest, the default and the partial levels
    for (unsigned lev : l.logs() ? std::vector<unsigned>{39, 0, 511} : std::vector<unsigned>{39}) {
      l.level(lev);
      same(c, l, a, run(l, s, hist, e), cat(what, " at level ", lev));
    }
    l.level(39);
  };
  // 1. the catalogue on fresh operands
  for (const auto &s : shapes(c.level))
    for (int e = 0; e < E; e++)
      c.scenario([&] { return cat("PD", PD, " degrees ", mc::lst(s.first), " and ", mc::lst(s.second), ": ", ref.entry(e)); }, [&] {
        const Copy a = run(ref, s, {}, e);
        if (a.ran != 1) c.die(cat("reference: ", a.ran, " ", a.what));
        for (const auto &l : L) {
          c.state(mc::hcomb(mc::hstr(c.cur), mc::hstr(l.name)));
          compare(l, s, {}, e, a, "");
          if (l.logs() && (c.level >= 1) && s.first[0] == 2)
            for (unsigned b = 0; b < (c.level >= 2 ? 512u : 10u); b++) {
              const unsigned lev = c.level >= 2 ? b : 1u << b >> 1;
              l.level(lev);
              same(c, l, a, run(l, s, {}, e), cat(" at level ", lev));
            }
        }
      });
  // 2. histories, then the catalogue (depth 1) or a summary (depth 2, 3)
  const int depth = c.level >= 2 ? 3 : 2;
  std::vector<int> hist;
  const auto rec = [&](auto &self, const std::pair<G, G> &s) -> void {
    if (!hist.empty())
      c.scenario([&] {
        std::string n = cat("PD", PD, " degrees ", mc::lst(s.first), " and ", mc::lst(s.second), ":");
        for (int m : hist) n += cat(" ", ref.mutation(m), ";");
        return n; }, [&] {
        const bool all = hist.size() == 1 || (c.level >= 2 && hist.size() == 2);
        for (int e = -1; e < (all ? E : 0); e++) {
          const Copy a = run(ref, s, hist, e);
          if (a.ran < 0) c.die(cat("reference: ", a.what));
          if (a.ran == 0) {
            if (e < 0) return;
            continue;
          }
          for (const auto &l : L) {
            if (hist.size() == 3 && (l.name.find("clang") != std::string::npos || l.name[0] == 'l')) continue;
            c.state(mc::hcomb(mc::hstr(c.cur), mc::hcomb(mc::hstr(l.name), static_cast<uint64_t>(e + 1))));
            const std::string what = e < 0 ? "summary" : ref.entry(e);
            // truth values that rounding decides
            const bool discrete = what != "algorithms" && what != "corners" && what != "equality" && what != "r corners";
            l.level(511);
            same(c, l, a, run(l, s, hist, e), what, discrete);
            l.level(39);
          }
        } });
    if (static_cast<int>(hist.size()) == depth) return;
    if (hist.size() == 2 && s.first[0] != 2) return;
    for (int m = 0; m < M; m++) {
      hist.push_back(m);
      self(self, s);
      hist.pop_back();
    }
  };
  for (const auto &s : shapes(c.level >= 2 ? 1 : 0)) rec(rec, s);
#if PART == 1
  // 3. all entries of the table, all degrees it admits
  for (const auto &l : L) {
    c.scenario([&] { return cat("binomial table of ", l.name); }, [&] {
      std::vector<std::vector<unsigned __int128>> t;
      for (int n = 0; n < l.table(); n++) {
        t.emplace_back(n + 1, 1);
        for (int i = 1; i < n; i++) t[n][i] = t[n - 1][i - 1] + t[n - 1][i];
        for (int i = 0; i <= n; i++) {
          c.transitions++;
          c.state(mc::hcomb(mc::hstr(c.cur), static_cast<uint64_t>(n * 100 + i)));
          if (l.choose(n, i) != t[n][i]) c.die(cat("choose(", n, ",", i, ") is ", l.choose(n, i)));
        }
      }
    });
    for (int n = 0; n < l.table(); n++)
      c.scenario([&] { return cat("degree ", n, " in ", l.name); }, [&] {
        for (int k = 0; k <= 16; k++) {
          const LD x = k / 16.0L;
          std::vector<LD> b(n + 1);
          LD f = 1;
          for (int i = 0; i <= n; i++) {
            b[i] = f * std::pow(x, LD(i)) * std::pow(1 - x, LD(n - i));
            f = f * (n - i) / (i + 1);
          }
          Copy e{b, {n + 1}, 1, 1, ""};
          same(c, l, e, copy(l.bernstein(n, x, -1)), cat("Bernstein polynomials at ", x));
          // derivatives
          for (int d = 0; d <= 3; d++) {
            std::vector<LD> v(n + 1);
            LD s = 1;
            for (int i = 0; i <= n; i++) {
              // differences of polynomials of lower degree
              LD sum = 0;
              for (int j = 0; j <= d; j++) {
                const int m = n - d, q = i - d + j;
                if (m < 0 || q < 0 || q > m) continue;
                LD y = 1;
                for (int z = 0; z < q; z++) y = y * (m - z) / (z + 1);
                y *= std::pow(x, LD(q)) * std::pow(1 - x, LD(m - q));
                const LD cd = d == 3 && (j == 1 || j == 2) ? 3 : d == 2 && j == 1 ? 2 : 1;
                sum += (j % 2 ? -1 : 1) * cd * y;
              }
              LD fac = 1;
              for (int z = 0; z < d; z++) fac *= n - z;
              v[i] = fac * sum;
              s = std::max(s, std::fabs(fac));
            }
            Copy w{v, {n + 1}, s, 1, ""};
            same(c, l, w, copy(l.bernstein(n, x, d)), cat("derivative ", d, " at ", x));
          }
          LD ev = 0, e0 = 0, e1 = 0;
          const auto bern = [&](LD y) {
            std::vector<LD> r(n + 1);
            LD ff = 1;
            for (int i = 0; i <= n; i++) r[i] = ff * std::pow(y, LD(i)) * std::pow(1 - y, LD(n - i)), ff = ff * (n - i) / (i + 1);
            return r;
          };
          const auto h0 = bern(x / 2), h1 = bern((x + 1) / 2);
          const auto val = [](unsigned seed, std::size_t i, std::size_t kk) {
            unsigned h = seed * 2654435761u + static_cast<unsigned>(i) * 40503u + static_cast<unsigned>(kk) * 9973u + 77u;
            h ^= h >> 13;
            h *= 1274126177u;
            h ^= h >> 16;
            return (static_cast<int>(h % 65) - 32) / 16.0;
          };
          for (int i = 0; i <= n; i++) {
            const LD q = val(3, i, 0);
            ev += b[i] * q, e0 += h0[i] * q, e1 += h1[i] * q;
          }
          std::vector<LD> hv{ev, ev, e0, e1};
          if (n + 1 < l.table()) hv.push_back(ev * (1 + x));
          Copy hc{hv, {}, 4, 1, ""};
          same(c, l, hc, copy(l.high(n, x)), cat("spline of the degree at ", x));
          c.state(mc::hcomb(mc::hstr(c.cur), static_cast<uint64_t>(k)));
        }
      });
  }
#endif
}

// C24: every valid operation, after every history, under memory checkers:
// bounds of objects and containers, lifetime, undefined arithmetic (variants
// dbg and chk), uninitialised values (variant msan), balance of allocations
// (variant rel).
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <new>

#ifdef MC_VARIANT_MSAN
#include <sanitizer/msan_interface.h>
#endif
#include "cat_hist.hpp"
#include "mc/core.hpp"

#ifdef MC_VARIANT_REL
namespace {
long live = 0;
unsigned long long calls = 0;
void *take(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live++, calls++;
  return p;
}
void give(void *p) {
  if (p) live--;
  std::free(p);
}
}  // namespace
void *operator new(std::size_t n) { return take(n); }
void *operator new[](std::size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
#endif

using mc::cat;
namespace {
volatile long sink = 0;
uint64_t observe(const ct::Out &o, mc::Ctx &c, const std::string &what) {
#ifdef MC_VARIANT_MSAN
  // every number handed out has been computed from initialised memory
  for (std::size_t i = 0; i < o.v.size(); i++)
    if (__msan_test_shadow(&o.v[i], 10) >= 0) c.die(cat(what, ": number ", i, " depends on uninitialised memory"));
  if (!o.d.empty() && __msan_test_shadow(o.d.data(), o.d.size() * sizeof(long long)) >= 0) c.die(cat(what, ": a decision depends on uninitialised memory"));
#endif
  (void)c, (void)what;
  uint64_t h = mc::hstr("o");
  for (const auto x : o.v) {
    uint64_t u[2] = {};
    std::memcpy(u, &x, 10);
    h = mc::hcomb(h, mc::hcomb(u[0], u[1] & 0xffff));
  }
  for (const auto x : o.d) h = mc::hcomb(h, static_cast<uint64_t>(x));
  return h;
}
// runs an operation; in the counting build once more to see whether everything
// it allocates is given back
void run(mc::Ctx &c, const std::string &what, const std::function<void()> &f) {
  c.transitions++;
  f();
#ifdef MC_VARIANT_REL
  const long before = live;
  const std::size_t violations = c.nviol;
  f();
  const long after = live;
  f();
  if (c.nviol == violations && after != before && live - after == after - before) c.die(cat(what, ": ", after - before, " allocations are not given back"));
#endif
  (void)what;
}

#if PART < 10
constexpr std::size_t PD = PART;
using G = ct::Deg<PD>;
std::vector<std::pair<G, G>> shapes(int level) {
  std::vector<std::pair<G, G>> r;
  G g{}, h{};
  r.emplace_back(g, h);
  h.fill(1), r.emplace_back(g, h), r.emplace_back(h, g);
  g.fill(1), g[0] = 2, r.emplace_back(g, h), r.emplace_back(h, g);
  if (PD == 1 || level >= 1) g[0] = 0, g[PD - 1] = 2, h[PD - 1] = 0, r.emplace_back(g, h);
  if (PD == 1 || level >= 2) g.fill(2), h.fill(1), h[0] = 3, r.emplace_back(g, h), r.emplace_back(h, g);
  if (PD == 1) g.fill(5), h.fill(2), r.emplace_back(g, h), g.fill(1), h.fill(6), r.emplace_back(g, h);
  return r;
}
template <class T>
void splines(mc::Ctx &c, const char *tn, bool histories) {
  using W = ct::World<PD, T>;
  const auto &E = ct::catalogue<PD, T>();
  const auto &M = ct::mutations<PD, T>();
  for (const auto &s : shapes(histories ? c.level : 0))
    for (const auto &e : E)
      c.scenario([&] { return cat(tn, " PD", PD, " degrees ", mc::lst(s.first), " and ", mc::lst(s.second), ": ", e.name); }, [&] {
        run(c, e.name, [&] {
          const W w(s.first, s.second);
          ct::Out o;
          e.f(w, o);
          c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, e.name)));
        });
      });
  if (!histories) return;
  std::vector<int> hist;
  const int depth = c.level >= 2 ? 3 : 2;
  const auto rec = [&](auto &self, const std::pair<G, G> &s) -> void {
    if (!hist.empty())
      c.scenario([&] {
        std::string n = cat(tn, " PD", PD, " degrees ", mc::lst(s.first), " and ", mc::lst(s.second), ":");
        for (int m : hist) n += cat(" ", M[m].name, ";");
        return n; }, [&] {
        const auto build = [&](W &w) {
          for (int m : hist)
            if (!M[m].f(w)) return false;
          return true;
        };
        bool go = false;
        run(c, "history", [&] {
          W w(s.first, s.second);
          go = build(w);
          if (!go) return;
          ct::Out o = w.snapshot();
          for (int i : {0, 2, 3, 26, 38, 39}) E[i].f(w, o);
          c.state(observe(o, c, "summary"));
        });
        if (!go) return;
        if (hist.size() == 1 || (c.level >= 2 && hist.size() == 2 && s.first[0] == 2)) {
          W w(s.first, s.second);
          build(w);
          const bool cheap = ct::cheap(w);
          for (const auto &e : E) {
            if (ct::expensive(e.name) && !cheap) continue;
            run(c, e.name, [&] {
              ct::Out o;
              e.f(w, o);
              c.state(mc::hcomb(mc::hstr(e.name), observe(o, c, e.name)));
            });
          }
        } });
    if (static_cast<int>(hist.size()) == depth) return;
    if (hist.size() == 2 && s.first[0] != 2) return;
    for (std::size_t m = 0; m < M.size(); m++) {
      hist.push_back(static_cast<int>(m));
      self(self, s);
      hist.pop_back();
    }
  };
  for (const auto &s : shapes(0)) rec(rec, s);
}
// every degree the binomial table admits, in every direction
void degrees(mc::Ctx &c) {
  using T = double;
  for (std::size_t d = 0; d < PD; d++)
    for (std::size_t n = 0; n < 30; n++)
      c.scenario([&] { return cat("degree ", n, " in direction ", d, " of ", PD); }, [&] {
        G g{};
        g[d] = n;
        run(c, "high degree", [&] {
          const ct::World<PD, T> w(g, g);
          ct::Out o;
          o.put(w.a), o.put(w.ra);
          for (const auto &x : w.x) {
            o.put(w.a.Evaluate(x)), o.put(w.a.ForwardEvaluate(x)), o.put(w.a.BasisFunctions(x)), o.put(w.ra.Evaluate(x)), o.put(w.ra.ForwardEvaluate(x)), o.put(w.ra.BasisFunctions(x));
          }
          for (std::size_t k = 0; k <= n + 2; k += (k > 3 && k + 3 < n ? n / 4 : 1)) {
            G q{};
            q[d] = k;
            o.put(w.a.EvaluateDerivative(w.x[0], q)), o.put(w.a.BasisFunctionsDerivatives(w.x[0], q)), o.put(w.a.DerivativeWRTParametricDimension(q)), o.puta(w.s.BasisFunctionsDerivativeContributions(w.x[1], q));
            if (k <= 3) o.put(w.ra.EvaluateDerivative(w.x[0], q)), o.put(w.ra.BasisFunctionsDerivatives(w.x[0], q));
          }
          o.put(w.a.SplitAtPosition(T(.375), d)), o.put(w.ra.SplitAtPosition(std::vector<T>{T(.25), T(.75)}, d)), o.put(w.a + w.b), o.put(w.a - w.b);
          if (n < 29) {
            auto t = w.a;
            t.OrderElevateAlongParametricDimension(d), o.put(t);
            auto r = w.ra;
            r.OrderElevateAlongParametricDimension(d), o.put(r);
          }
          if (2 * n < 30) o.put(w.s * w.a), o.put(w.a * w.b), o.put(w.ra * w.rb), o.put(w.ra + w.rb), o.put(w.ra - w.rb), o.put(w.s.RaisePower(2));
          if (3 * n < 30 && PD == 1) o.put(w.s.RaisePower(3));
          o.put(w.a.MaximumCorner()), o.put(w.ra.MinimumCorner());
          if (n <= (PD == 1 ? 14u : 6u)) o.put(w.a.Compose(w.in)), o.put(w.ra.Compose(w.in2)), o.put(w.a.Compose(w.rin));
          for (std::size_t i = 0; i <= n; i++) {
            const auto q = w.a.LocalToGlobalIndex(i);
            o.deg(q), o.bit(static_cast<long long>(w.a.GlobalToLocalIndex(q))), o.put(w.a.ControlPoint(q));
          }
          c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "high degree")));
        });
      });
}
#else
using bezman::utils::Base64;
template <class T, class F>
void codec(mc::Ctx &c, const char *tn, const F &make, std::size_t upto) {
  for (std::size_t n = 0; n <= upto; n++)
    c.scenario([&] { return cat("base64 of ", n, " ", tn); }, [&] {
      run(c, "codec", [&] {
        std::vector<T> v;
        for (std::size_t i = 0; i < n; i++) v.push_back(make(i));
        v.shrink_to_fit();
        const std::string s = Base64::Encode(v);
        const std::string e(s.data(), s.size());
        const auto b = Base64::Decode<T>(e);
        if (b.size() != n) c.die("size");
        ct::Out o;
        for (char x : s) o.bit(x);
        c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "text")));
        for (std::size_t i = 0; i < n; i++)
          if (!(b[i] == v[i])) c.die("value");
      });
    });
}
// differentiation variables whose number of derivatives is known at run time:
// all sequences of operations over three of them
void variables(mc::Ctx &c) {
  using D = bezman::utils::computational_differentiation::AlgoDiffType<double, 0>;
  struct S {
    D x{.75, 2, 0}, y{1.25, 2, 1}, z;
  };
  struct Op {
    const char *name;
    void (*f)(S &);
  };
  static const std::vector<Op> ops{
      {"x=y", [](S &s) { s.x = s.y; }}, {"y=x", [](S &s) { s.y = s.x; }}, {"z=x", [](S &s) { s.z = s.x; }}, {"x=x", [](S &s) { s.x = *&s.x; }},
      {"z=move(y),y=z", [](S &s) { s.z = std::move(s.y); s.y = s.z; }}, {"x+=y", [](S &s) { s.x += s.y; }}, {"x-=x", [](S &s) { s.x -= s.x; }},
      {"x*=x", [](S &s) { s.x *= s.x; }}, {"y/=x+4", [](S &s) { s.y /= s.x + 4.; }}, {"y*=x", [](S &s) { s.y *= s.x; }}, {"y/=2", [](S &s) { s.y /= 2.; }},
      {"x=2*y-1", [](S &s) { s.x = 2. * s.y - 1.; }}, {"z+=x", [](S &s) { s.z += s.x; }}, {"z=z-y", [](S &s) { s.z = s.z - s.y; }}, {"x=3", [](S &s) { s.x = D(3., 2); }},
      {"y=sin x*exp(-y)", [](S &s) { s.y = sin(s.x) * exp(-s.y); }}, {"x=1/(2+abs y)", [](S &s) { s.x = 1. / (2. + abs(s.y)); }},
      {"x=pow", [](S &s) { s.x = pow(abs(s.x) + 1., 3.) + pow(abs(s.y) + 1., s.x); }}, {"swap", [](S &s) { std::swap(s.x, s.y); }}, {"z={}", [](S &s) { s.z = D(); }},
      {"x=sqrt log", [](S &s) { s.x = sqrt(abs(s.x) + 1.) + log(abs(s.y) + 2.) - log10(abs(s.y) + 2.) + atan(s.x) * cos(s.y) + tan(atan(s.y)); }},
      {"y=asin acos", [](S &s) { s.y = asin(sin(s.x) / 2.) - acos(cos(s.y) / 2.); }},
  };
  std::vector<int> h;
  const int depth = c.level >= 2 ? 4 : 3;
  const auto rec = [&](auto &self) -> void {
    if (!h.empty())
      c.scenario([&] { std::string n = "variables:"; for (int i : h) n += cat(" ", ops[i].name, ";"); return n; }, [&] {
        run(c, "variables", [&] {
          S s;
          for (int i : h) ops[i].f(s);
          ct::Out o;
          for (const D *d : {&s.x, &s.y, &s.z}) {
            o.put(d->GetValue());
            o.put(std::vector<double>(d->GetDerivatives()));
            for (const D *e : {&s.x, &s.y, &s.z}) o.bit(*d < *e), o.bit(*d >= *e), o.bit(*d == *e);
          }
          c.state(observe(o, c, "variables"));
        });
      });
    if (static_cast<int>(h.size()) == depth) return;
    for (std::size_t i = 0; i < ops.size(); i++) {
      h.push_back(static_cast<int>(i));
      self(self);
      h.pop_back();
    }
  };
  rec(rec);
}
void algorithms(mc::Ctx &c) {
  namespace a = bezman::utils::algorithms;
  // sorting
  std::vector<int> v;
  const std::size_t len = c.level >= 1 ? 7 : 5;
  const auto lists = [&](auto &self) -> void {
    c.scenario([&] { return cat("sort ", mc::lst(v)); }, [&] {
      run(c, "sort", [&] {
        std::vector<double> d(v.begin(), v.end());
        std::vector<int> e(v);
        d.shrink_to_fit(), e.shrink_to_fit();
        ct::Out o;
        for (auto i : a::IndexListSort(d)) o.bit(static_cast<long long>(i));
        for (auto i : a::IndexListSort(e)) o.bit(static_cast<long long>(i));
        c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "order")));
      });
    });
    if (v.size() == len) return;
    for (int x : {-1, 0, 2}) {
      v.push_back(x);
      self(self);
      v.pop_back();
    }
  };
  lists(lists);
  // tensor products of factor lists
  for (std::size_t i = 1; i <= 5; i++) {
    const auto l = [](std::size_t n, double s) { std::vector<double> r; for (std::size_t q = 0; q < n; q++) r.push_back(s + static_cast<double>(q)); r.shrink_to_fit(); return r; };
    c.scenario([&] { return cat("combine ", i); }, [&] {
      run(c, "combine", [&] { ct::Out o; o.put(a::RecursiveCombine(std::array<std::vector<double>, 1>{l(i, 1)})); c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "products"))); });
    });
    for (std::size_t j = 1; j <= 5; j++) {
      c.scenario([&] { return cat("combine ", i, " ", j); }, [&] {
        run(c, "combine", [&] { ct::Out o; o.put(a::RecursiveCombine(std::array<std::vector<double>, 2>{l(i, 1), l(j, 2)})); c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "products"))); });
      });
      for (std::size_t k = 1; k <= 5; k++)
        c.scenario([&] { return cat("combine ", i, " ", j, " ", k); }, [&] {
          run(c, "combine", [&] { ct::Out o; o.put(a::RecursiveCombine(std::array<std::vector<double>, 3>{l(i, 1), l(j, 2), l(k, 3)})); c.state(mc::hcomb(mc::hstr(c.cur), observe(o, c, "products"))); });
        });
    }
  }
  // powers and binomials
  c.scenario([&] { return std::string("powers"); }, [&] {
    for (int b = -40; b <= 40; b++) {
      __int128 p = 1;
      for (int e = 0; e < 64; e++) {
        if (p <= std::numeric_limits<int>::max() && p >= std::numeric_limits<int>::min()) sink = sink + a::IntPower(b, e), c.transitions++;
        if (p <= std::numeric_limits<long>::max() && p >= std::numeric_limits<long>::min()) sink = sink ^ a::IntPower(static_cast<long>(b), static_cast<long>(e)), c.transitions++;
        if (p > (__int128(1) << 70) || p < -(__int128(1) << 70)) break;
        p *= b;
      }
    }
    for (unsigned n = 0; n < 30; n++)
      for (unsigned i = 0; i <= n; i++) sink = sink + static_cast<long>(bezman::utils::FastBinomialCoefficient::choose(n, i)), c.transitions++;
  });
  for (std::size_t n = 0; n < 30; n++)
    c.scenario([&] { return cat("Bernstein ", n); }, [&] {
      for (std::size_t d = 0; d <= n + 3; d++)
        for (double x : {0., .25, 1.})
          run(c, "Bernstein", [&] {
            ct::Out o;
            o.put(a::BernsteinPolynomial<double>::Evaluate(n, x)), o.put(a::BernsteinPolynomial<double>::EvaluateDerivative(n, x, d));
            o.put(a::BernsteinPolynomial<float>::EvaluateDerivative(n, static_cast<float>(x), d));
            c.state(mc::hcomb(mc::hcomb(mc::hstr(c.cur), d), observe(o, c, "Bernstein")));
          });
    });
}
template <std::size_t D>
void points(mc::Ctx &c) {
  using P = bezman::Point<D, double>;
  c.scenario([&] { return cat("points of dimension ", D); }, [&] {
    run(c, "points", [&] {
      P p, q;
      for (std::size_t i = 0; i < D; i++) p[i] = 1.5 + static_cast<double>(i), q[i] = -2.25 * static_cast<double>(i + 1);
      ct::Out o;
      o.put(p + q), o.put(p - q), o.put(-p), o.put(p * 2.), o.put(2. * p), o.put(p / 3.), o.put(3. / p), o.put(p * q), o.put(p.EuclidianNorm()), o.put(p.SquaredEuclidianNorm());
      p += q, o.put(p), p -= p, o.put(p), p = q, p *= p[D - 1], o.put(p), p /= q[0], o.put(p);
      o.bit(p == q), o.bit(p == p);
#ifndef MC_VARIANT_MSAN
      std::ostringstream s;
      s << p;
      o.bit(static_cast<long long>(s.str().size()));
#endif
      const P z{};
      o.put(z);
      c.state(mc::hcomb(D, observe(o, c, "points")));
    });
  });
}
#endif
}  // namespace

void explore(mc::Ctx &c) {
#if PART < 10
  struct Null : std::streambuf {
    int overflow(int x) override { return x; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
  };
  static Null null;
  std::cout.rdbuf(&null);
#ifdef MC_VARIANT_MSAN
  // the streams of the C++ library are not instrumented
  bezman::utils::Logger::SetOutputLevel(0);
#endif
  splines<double>(c, "double", true);
  degrees(c);
#if defined(MC_VARIANT_REL) || defined(MC_VARIANT_DBG)
  splines<float>(c, "float", false);
#endif
#if defined(MC_VARIANT_REL) || defined(MC_VARIANT_CHK)
  splines<long double>(c, "long double", false);
#endif
#else
  const std::size_t n = c.level >= 1 ? 70 : 20;
  codec<char>(c, "char", [](std::size_t i) { return static_cast<char>(i * 37 + 200); }, n);
  codec<unsigned short>(c, "short", [](std::size_t i) { return static_cast<unsigned short>(i * 4711 + 65000); }, n);
  codec<int>(c, "int", [](std::size_t i) { return static_cast<int>(i * 1234567u + 0x80000000u); }, n);
  codec<float>(c, "float", [](std::size_t i) { return 1.f / static_cast<float>(i + 1); }, n);
  codec<double>(c, "double", [](std::size_t i) { return -1. / static_cast<double>(i + 1); }, n);
  codec<bezman::Point<1, double>>(c, "point 1 double", [](std::size_t i) { return bezman::Point<1, double>(static_cast<double>(i)); }, n);
  codec<bezman::Point<2, float>>(c, "point 2 float", [](std::size_t i) { return bezman::Point<2, float>(static_cast<float>(i), .5f); }, n);
  codec<bezman::Point<3, double>>(c, "point 3 double", [](std::size_t i) { return bezman::Point<3, double>(static_cast<double>(i), -.5, 1e9); }, n);
  variables(c);
  algorithms(c);
  points<1>(c), points<2>(c), points<3>(c), points<4>(c), points<7>(c);
#endif
}

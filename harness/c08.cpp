// C08: products and powers of polynomial splines.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

template <class T>
LD base_tol() {
  return sizeof(T) == 4 ? 5e-5L : sizeof(T) == 8 ? 1e-12L : 1e-15L;
}
// pointwise product of two value tables (scalar*scalar, scalar*point, inner product)
std::vector<LD> pointwise(const std::vector<LD> &a, int da, const std::vector<LD> &b, int db) {
  const size_t n = a.size() / da;
  std::vector<LD> r;
  for (size_t i = 0; i < n; i++) {
    if (da == db && da > 1) {
      LD s = 0;
      for (int k = 0; k < da; k++) s += a[i * da + k] * b[i * da + k];
      r.push_back(s);
    } else if (da == 1)
      for (int k = 0; k < db; k++) r.push_back(a[i] * b[i * db + k]);
    else
      for (int k = 0; k < da; k++) r.push_back(a[i * da + k] * b[i]);
  }
  return r;
}
template <class S>
bool judge(Ctx &c, const S &s, const Deg &deg, const Nodes &g, const std::vector<LD> &exp, const std::vector<LD> &sc, LD tol,
           const std::string &what) {
  const RP q = toRP(s);
  for (int d = 0; d < q.pd; d++)
    if (!c.expect(q.deg[d] == deg[d], cat(what, " degree in direction ", d, " is ", q.deg[d], " instead of ", deg[d])))
      return false;
  if (!c.expect(static_cast<int>(s.GetNumberOfControlPoints()) == q.n(), cat(what, " number of control points"))) return false;
  if (!c.expect(q.dim == static_cast<int>(sc.size()), cat(what, " dimension of the result"))) return false;
  return cmp_grid(c, grid(q, g), exp, q.dim, sc, tol, g, what);
}
template <std::size_t PD>
Deg plus(const Deg &a, const Deg &b) {
  Deg r{};
  for (std::size_t i = 0; i < PD; i++) r[i] = a[i] + b[i];
  return r;
}
template <std::size_t PD, class P, class Q>
void pair(Ctx &c, const Deg &d1, const Deg &d2, int pa, int pb) {
  for (std::size_t i = 0; i < PD; i++)
    if (d1[i] + d2[i] > 29) return;
  c.scenario(
      [&] {
        return cat("pair/", PD, "D/", VT<P>::name(), "*", VT<Q>::name(), "/", dstr(PD, d1), "/", patname(pa), "/", dstr(PD, d2), "/",
                   patname(pb));
      },
      [&] {
        const auto A = make<PD, P>(d1, pa, 1);
        const auto B = make<PD, Q>(d2, pb, 2);
        const RP ra = toRP(A), rb = toRP(B);
        const Deg m = plus<PD>(d1, d2);
        const Nodes g = nodes(PD, m);
        const auto va = grid(ra, g), vb = grid(rb, g);
        const LD tol = base_tol<ScalarOf<P>>();
        std::vector<LD> sa = scales(ra), sb = scales(rb);
        judge(c, A * B, m, g, pointwise(va, ra.dim, vb, rb.dim), pointwise(sa, ra.dim, sb, rb.dim), tol, "a * b");
        judge(c, B * A, m, g, pointwise(vb, rb.dim, va, ra.dim), pointwise(sb, rb.dim, sa, ra.dim), tol, "b * a");
        c.transitions += 2;
        if constexpr (std::is_same_v<P, Q>) {
          const Deg m2 = plus<PD>(d1, d1);
          bool in = true;
          for (std::size_t i = 0; i < PD; i++) in &= m2[i] <= 29;
          if (in) {
            const Nodes h = nodes(PD, m2);
            const auto vh = grid(ra, h);
            judge(c, A * A, m2, h, pointwise(vh, ra.dim, vh, ra.dim), pointwise(sa, ra.dim, sa, ra.dim), tol, "a * a");
          }
        }
        c.expect(toRP(A).c == ra.c && toRP(B).c == rb.c, "operands changed");
        see(c, A);
      });
}
// operands of different scalar types: the result has the precision of its own type
template <std::size_t PD, class P, class Q>
void mixed(Ctx &c, const Deg &d1, const Deg &d2, int pa, int pb) {
  c.scenario(
      [&] {
        return cat("mixed/", PD, "D/", VT<P>::name(), "*", VT<Q>::name(), "/", dstr(PD, d1), "/", patname(pa), "/", dstr(PD, d2), "/", patname(pb));
      },
      [&] {
        const auto A = make<PD, P>(d1, pa, 1);
        const auto B = make<PD, Q>(d2, pb, 2);
        const RP ra = toRP(A), rb = toRP(B);
        const Deg m = plus<PD>(d1, d2);
        const Nodes g = nodes(PD, m);
        const auto r = A * B;
        using R = std::decay_t<decltype(r.GetControlPoints()[0])>;
        judge(c, r, m, g, pointwise(grid(ra, g), ra.dim, grid(rb, g), rb.dim), pointwise(scales(ra), ra.dim, scales(rb), rb.dim),
              base_tol<ScalarOf<R>>(), "a * b");
        c.transitions++;
        c.expect(toRP(A).c == ra.c && toRP(B).c == rb.c, "operands changed");
        see(c, A);
      });
}
// the product is bilinear: all pairs of unit splines decide it for one shape
template <std::size_t PD>
void units(Ctx &c, const Deg &d1, const Deg &d2) {
  c.scenario([&] { return cat("units/", PD, "D/", dstr(PD, d1), "/", dstr(PD, d2)); },
             [&] {
               const Deg m = plus<PD>(d1, d2);
               const Nodes g = nodes(PD, m);
               int n1 = 1, n2 = 1;
               for (std::size_t i = 0; i < PD; i++) n1 *= d1[i] + 1, n2 *= d2[i] + 1;
               std::vector<std::vector<LD>> vb;
               for (int j = 0; j < n2; j++) {
                 BS<PD, double> b(adeg<PD>(d2));
                 b.GetControlPoints()[j] = 1;
                 vb.push_back(grid(toRP(b), g));
               }
               for (int i = 0; i < n1; i++) {
                 BS<PD, double> a(adeg<PD>(d1));
                 a.GetControlPoints()[i] = 1;
                 const auto va = grid(toRP(a), g);
                 for (int j = 0; j < n2; j++) {
                   BS<PD, double> b(adeg<PD>(d2));
                   b.GetControlPoints()[j] = 1;
                   c.transitions++;
                   if (!judge(c, a * b, m, g, pointwise(va, 1, vb[j], 1), {1.0L}, 1e-13L, cat("unit ", i, " * unit ", j))) return;
                 }
               }
             });
}
template <std::size_t PD, class T>
void powers(Ctx &c, const Deg &d, int pat, int maxp) {
  int md = 0;
  for (std::size_t i = 0; i < PD; i++) md = std::max(md, d[i]);
  for (int n = 0; n <= std::min(maxp, md ? 29 / md : 70); n++) {
    LD cnt = 1;
    for (std::size_t i = 0; i < PD; i++) cnt *= n * d[i] + 1;
    if (cnt > 1500) return;
    c.scenario([&] { return cat("power/", PD, "D/", VT<T>::name(), "/", dstr(PD, d), "/", patname(pat), "/", n); },
               [&] {
                 const auto A = make<PD, T>(d, pat, 5);
                 const RP r = toRP(A);
                 Deg m{};
                 for (std::size_t i = 0; i < PD; i++) m[i] = n * d[i];
                 const Nodes g = nodes(PD, m);
                 auto v = grid(r, g);
                 for (auto &x : v) x = ipow(x, n);
                 LD big = ipow(r.maxabs(0), n);
                 c.transitions++;
                 judge(c, A.RaisePower(n), m, g, v, {big}, base_tol<T>() * (n + 1), "power");
                 c.expect(toRP(A).c == r.c, "operand changed");
                 see(c, A);
               });
  }
}
// sequences of operations against a model of degrees and values
template <std::size_t PD>
struct Machine {
  using S = BS<PD, double>;
  static constexpr int cap = PD == 1 ? 16 : PD == 2 ? 8 : PD == 3 ? 5 : 4;
  struct M {
    Deg deg;
    std::vector<LD> v;
    LD sc;
  };
  static Nodes g() {
    Deg d{};
    for (std::size_t i = 0; i < PD; i++) d[i] = cap;
    return nodes(PD, d);
  }
  static M of(const S &s) {
    const RP r = toRP(s);
    return {r.deg, grid(r, g()), r.maxabs(0)};
  }
  static bool fits(const Deg &d) {
    for (std::size_t i = 0; i < PD; i++)
      if (d[i] > cap) return false;
    return true;
  }
  struct Op {
    std::string name;
    std::function<bool(S &, M &)> f;
  };
  static std::vector<Op> ops() {
    std::vector<Op> o;
    Deg da{}, db{};
    da[0] = 1;
    for (std::size_t i = 0; i < PD; i++) db[i] = i == PD - 1 ? 2 : 1;
    const S A = make<PD, double>(da, UNIT, 71), B = make<PD, double>(db, UNIT, 72);
    const M ma = of(A), mb = of(B);
    auto times = [](M &m, const M &q) {
      const Deg n = plus<PD>(m.deg, q.deg);
      if (!fits(n)) return false;
      m.deg = n;
      m.v = pointwise(m.v, 1, q.v, 1);
      m.sc *= q.sc;
      return true;
    };
    auto pw = [](M &m, int p) {
      Deg n{};
      for (std::size_t i = 0; i < PD; i++) n[i] = m.deg[i] * p;
      if (!fits(n)) return false;
      m.deg = n;
      for (auto &x : m.v) x = ipow(x, p);
      m.sc = ipow(m.sc, p);
      return true;
    };
    o.push_back({"=s*A", [=](S &s, M &m) { if (!times(m, ma)) return false; s = s * A; return true; }});
    o.push_back({"=A*s", [=](S &s, M &m) { if (!times(m, ma)) return false; s = A * s; return true; }});
    o.push_back({"=s*B", [=](S &s, M &m) { if (!times(m, mb)) return false; s = s * B; return true; }});
    o.push_back({"=s*s", [=](S &s, M &m) { if (!times(m, M(m))) return false; s = s * s; return true; }});
    for (int p = 0; p <= 5; p++)
      o.push_back({cat("^", p), [=](S &s, M &m) { if (!pw(m, p)) return false; s = s.RaisePower(p); return true; }});
    o.push_back({"*=0.5", [=](S &s, M &m) { s *= 0.5; for (auto &x : m.v) x *= 0.5L; m.sc *= 0.5L; return true; }});
    o.push_back({"+=A", [=](S &s, M &m) { s += A; for (size_t i = 0; i < m.v.size(); i++) m.v[i] += ma.v[i]; m.sc += ma.sc;
                   for (std::size_t i = 0; i < PD; i++) m.deg[i] = std::max(m.deg[i], ma.deg[i]); return true; }});
    o.push_back({"elev", [=](S &s, M &m) { if (m.deg[PD - 1] >= cap) return false; s.OrderElevateAlongParametricDimension(PD - 1); m.deg[PD - 1]++; return true; }});
    o.push_back({"split", [=](S &s, M &m) { s = s.SplitAtPosition(0.5, 0)[1]; m = of(s); return true; }});
    o.push_back({"poke", [=](S &s, M &m) { s.GetControlPoints().front() = -0.75; m = of(s); return true; }});
    return o;
  }
  static void run(Ctx &c, int depth) {
    const auto os = ops();
    const Nodes gr = g();
    for (int l = 1; l <= depth; l++) {
      std::vector<size_t> q(l, 0);
      while (true) {
        c.scenario(
            [&] {
              std::string id = cat("machine/", PD, "D/");
              for (auto i : q) id += " " + os[i].name;
              return id;
            },
            [&] {
              Deg d{};
              for (std::size_t i = 0; i < PD; i++) d[i] = 1;
              S s = make<PD, double>(d, UNIT, 3);
              M m = of(s);
              for (auto i : q) {
                if (!os[i].f(s, m)) return c.counter("pruned");
                c.transitions++;
                see(c, s);
              }
              judge(c, s, m.deg, gr, m.v, {m.sc}, 1e-11L, "after the sequence");
            });
        int i = 0;
        while (i < l && ++q[i] == os.size()) q[i++] = 0;
        if (i == l) break;
      }
    }
  }
};
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
    Deg d{};
    for (std::size_t i = 0; i < PD; i++) d[i] = i == 0 ? 2 : i == PD - 1 ? 1 : 0;
    const auto B = make<PD, double>(d, GENERIC, 9);
    for (auto x : s.GetDegrees())
      if (x > 14) return c.counter("product_above_table");
    const auto l = B * s;
    const auto r2 = s * B;
    const auto sq = s * s;
    if (!judged) return;
    see(c, s);
    const RP r = toRP(s), rb = toRP(B);
    const Deg m = plus<PD>(r.deg, d), m2 = plus<PD>(r.deg, r.deg);
    for (std::size_t i = 0; i < PD; i++)
      if (m2[i] > 29) return;
    {
      const Nodes g = nodes(PD, m);
      const auto va = grid(r, g), vb = grid(rb, g);
      const auto e = pointwise(vb, 1, va, r.dim), sc = pointwise(scales(rb), 1, scales(r), r.dim);
      judge(c, l, m, g, e, sc, 1e-11L, "b * s after history");
      judge(c, r2, m, g, e, sc, 1e-11L, "s * b after history");
    }
    const Nodes g = nodes(PD, m2);
    const auto va = grid(r, g);
    judge(c, sq, m2, g, pointwise(va, r.dim, va, r.dim), pointwise(scales(r), r.dim, scales(r), r.dim), 1e-11L, "s * s after history");
    if constexpr (std::is_arithmetic_v<P>) {
      std::vector<LD> v(va);
      for (auto &x : v) x *= x;
      judge(c, s.RaisePower(2), m2, g, v, {r.maxabs(0) * r.maxabs(0)}, 1e-11L, "power after history");
    }
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  using D3 = bezman::Point<3, double>;
  using D2 = bezman::Point<2, double>;
  using F2 = bezman::Point<2, float>;
  const int L = c.level;
  const int hi = PD == 1 ? (L ? 29 : 14) : PD == 2 ? (L == 2 ? 5 : L ? 3 : 2) : PD == 3 ? (L == 2 ? 2 : 1) : 1;
  const std::vector<std::pair<int, int>> pats = {{GENERIC, GENERIC}, {ALT, ALT}, {EQUAL, EQUAL}, {HUGE_, TINY}, {SPARSE, MIXED}, {NEAREQ, GENERIC}, {ZERO, GENERIC}};
  auto both = [&](const Deg &a, const Deg &b) {
    for (auto &p : pats) pair<PD, double, double>(c, a, b, p.first, p.second);
    pair<PD, double, D3>(c, a, b, GENERIC, GENERIC);
    pair<PD, double, D2>(c, a, b, ALT, MIXED);
    pair<PD, D3, D3>(c, a, b, GENERIC, GENERIC);
  };
  for_degs(PD, 0, hi, [&](const Deg &a) { for_degs(PD, 0, hi, [&](const Deg &b) { both(a, b); }); });
  if constexpr (PD == 2)
    for (auto &a : std::vector<Deg>{{14, 0}, {0, 14}, {6, 5}, {1, 8}})
      for (auto &b : std::vector<Deg>{{0, 15}, {15, 0}, {2, 7}, {7, 2}}) both(a, b);
  if constexpr (PD == 3)
    for (auto &a : std::vector<Deg>{{6, 0, 0}, {0, 6, 0}, {0, 0, 6}, {3, 1, 2}})
      for (auto &b : std::vector<Deg>{{0, 0, 0}, {1, 2, 0}, {2, 0, 3}, {0, 3, 1}}) both(a, b), both(b, a);
  if constexpr (PD == 4)
    for (auto &a : std::vector<Deg>{{3, 0, 0, 0}, {0, 0, 0, 3}, {0, 2, 0, 1}, {1, 1, 2, 0}})
      for (auto &b : std::vector<Deg>{{0, 0, 0, 0}, {1, 2, 0, 0}, {0, 1, 0, 2}}) both(a, b), both(b, a);
  if constexpr (PD <= 2)
    for_degs(PD, 0, 3, [&](const Deg &a) {
      for_degs(PD, 0, 3, [&](const Deg &b) {
        pair<PD, long double, long double>(c, a, b, GENERIC, MIXED);
        pair<PD, float, F2>(c, a, b, GENERIC, GENERIC);
        pair<PD, F2, F2>(c, a, b, GENERIC, GENERIC);
        pair<PD, D2, D2>(c, a, b, MIXED, GENERIC);
        pair<PD, bezman::Point<1, double>, bezman::Point<1, double>>(c, a, b, GENERIC, GENERIC);
        using L2 = bezman::Point<2, long double>;
        pair<PD, long double, L2>(c, a, b, MIXED, GENERIC);
        mixed<PD, float, double>(c, a, b, GENERIC, MIXED);
        mixed<PD, double, float>(c, a, b, ALT, GENERIC);
        mixed<PD, double, long double>(c, a, b, GENERIC, MIXED);
        mixed<PD, long double, float>(c, a, b, GENERIC, GENERIC);
        mixed<PD, F2, double>(c, a, b, GENERIC, GENERIC);
        mixed<PD, D2, float>(c, a, b, GENERIC, GENERIC);
        mixed<PD, float, D2>(c, a, b, GENERIC, MIXED);
        mixed<PD, long double, D2>(c, a, b, GENERIC, GENERIC);
        mixed<PD, F2, D2>(c, a, b, GENERIC, GENERIC);
        mixed<PD, L2, D2>(c, a, b, MIXED, GENERIC);
      });
    });
  const int uh = PD == 1 ? (L == 2 ? 14 : L ? 9 : 5) : PD == 2 ? (L == 2 ? 3 : 2) : 1;
  for_degs(PD, 0, uh, [&](const Deg &a) { for_degs(PD, 0, uh, [&](const Deg &b) { units<PD>(c, a, b); }); });
  for_degs(PD, 0, PD == 1 ? 14 : PD == 2 ? 4 : 2, [&](const Deg &d) {
    for (int p : {GENERIC, UNIT, ALT, SPARSE, NEAREQ}) powers<PD, double>(c, d, p, L ? 70 : 6);
    if constexpr (PD <= 2) {
      powers<PD, long double>(c, d, GENERIC, 6);
      powers<PD, float>(c, d, UNIT, 6);
    }
  });
  Machine<PD>::run(c, L == 2 ? 5 : L ? 3 : 2);
  const int dep = L == 2 && PD < 5 ? 3 : L ? 2 : 1;
  hist<PD, double>(c, dep);
  hist<PD, D2>(c, dep);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  pair<4, double, double>(c, {8, 8, 8, 8}, {8, 7, 8, 9}, GENERIC, GENERIC);
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

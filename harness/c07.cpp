// C07: sums, differences, shifts and scalings of polynomial splines.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

template <class P>
LD base_tol() {
  return sizeof(ScalarOf<P>) == 4 ? 2e-5L : sizeof(ScalarOf<P>) == 8 ? 2e-13L : 1e-15L;
}
// result has the given degrees and takes the given values on a grid that
// decides polynomials of these degrees
template <class S>
bool judge(Ctx &c, const S &s, const Deg &deg, const Nodes &g, const std::vector<LD> &exp, const std::vector<LD> &sc,
           LD tol, const std::string &what) {
  const RP q = toRP(s);
  for (int d = 0; d < q.pd; d++)
    if (!c.expect(q.deg[d] == deg[d], cat(what, " degree in direction ", d, " is ", q.deg[d], " instead of ", deg[d])))
      return false;
  if (!c.expect(static_cast<int>(s.GetNumberOfControlPoints()) == q.n(), cat(what, " number of control points"))) return false;
  return cmp_grid(c, grid(q, g), exp, q.dim, sc, tol, g, what);
}
std::vector<LD> comb(const std::vector<LD> &a, LD fa, const std::vector<LD> &b, LD fb) {
  std::vector<LD> r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = fa * a[i] + fb * b[i];
  return r;
}

template <std::size_t PD, class P>
void pair(Ctx &c, const Deg &d1, const Deg &d2, int pa, int pb) {
  c.scenario(
      [&] {
        return cat("pair/", PD, "D/", VT<P>::name(), "/", dstr(PD, d1), "/", patname(pa), "/", dstr(PD, d2), "/", patname(pb));
      },
      [&] {
        using S = BS<PD, P>;
        const S A = make<PD, P>(d1, pa, 1), B = make<PD, P>(d2, pb, 2);
        const RP ra = toRP(A), rb = toRP(B);
        Deg m{};
        for (std::size_t i = 0; i < PD; i++) m[i] = std::max(d1[i], d2[i]);
        const Nodes g = nodes(PD, m);
        const auto va = grid(ra, g), vb = grid(rb, g);
        std::vector<LD> sc;
        for (int k = 0; k < ra.dim; k++) sc.push_back(ra.maxabs(k) + rb.maxabs(k));
        const LD tol = base_tol<P>() * 5;
        const auto sum = comb(va, 1, vb, 1), dif = comb(va, 1, vb, -1);
        auto ok = [&](const S &s, const std::vector<LD> &e, const char *w) {
          c.transitions++;
          return judge(c, s, m, g, e, sc, tol, w);
        };
        ok(A + B, sum, "a + b");
        ok(A - B, dif, "a - b");
        {
          S t(A);
          S &r = (t += B);
          c.expect(&r == &t, "+= returns the object");
          ok(t, sum, "a += b");
          see(c, t);
        }
        {
          S t(A);
          S &r = (t -= B);
          c.expect(&r == &t, "-= returns the object");
          ok(t, dif, "a -= b");
          see(c, t);
          t += B;  // and back
          ok(t, va, "(a -= b) += b");
        }
        c.expect(toRP(A).c == ra.c && toRP(B).c == rb.c, "operands changed");
      });
}

// a wider minus a narrower type, the one mixed sum or difference there is
template <std::size_t PD, class P, class Q>
void mixed(Ctx &c, const Deg &d1, const Deg &d2, int pa, int pb) {
  c.scenario(
      [&] {
        return cat("mixed/", PD, "D/", VT<P>::name(), "-", VT<Q>::name(), "/", dstr(PD, d1), "/", patname(pa), "/", dstr(PD, d2), "/", patname(pb));
      },
      [&] {
        const auto A = make<PD, P>(d1, pa, 1);
        const auto B = make<PD, Q>(d2, pb, 2);
        const RP ra = toRP(A), rb = toRP(B);
        Deg m{};
        for (std::size_t i = 0; i < PD; i++) m[i] = std::max(d1[i], d2[i]);
        const Nodes g = nodes(PD, m);
        const auto va = grid(ra, g), vb = grid(rb, g);
        std::vector<LD> e(va.size()), sc;
        for (size_t i = 0; i < va.size(); i++) e[i] = va[i] - vb[i];
        sc.push_back(ra.maxabs(0) + rb.maxabs(0));
        c.transitions++;
        judge(c, A - B, m, g, e, sc, base_tol<Q>(), "a - b");
        c.expect(toRP(A).c == ra.c && toRP(B).c == rb.c, "operands changed");
      });
}
template <std::size_t PD, class P>
void unary(Ctx &c, const Deg &d, int pat) {
  using S = BS<PD, P>;
  using T = ScalarOf<P>;
  c.scenario([&] { return cat("unary/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat)); },
             [&] {
               const S A = make<PD, P>(d, pat, 1);
               const RP ra = toRP(A);
               const Nodes g = nodes(PD, d);
               const auto va = grid(ra, g);
               const LD tol = base_tol<P>();
               auto ok = [&](const S &s, LD f, const std::vector<LD> &sh, const std::string &w) {
                 c.transitions++;
                 std::vector<LD> e(va.size()), sc;
                 for (size_t i = 0; i < va.size(); i++) e[i] = f * va[i] + sh[i % ra.dim];
                 for (int k = 0; k < ra.dim; k++) sc.push_back(std::fabs(f) * ra.maxabs(k) + std::fabs(sh[k]));
                 return judge(c, s, d, g, e, sc, tol, w);
               };
               const std::vector<LD> none(ra.dim, 0);
               ok(-A, -1, none, "-a");
               for (double f0 : {0.0, 1.0, -1.0, 2.5, -0.375, 1e5, 1e-5}) {
                 const T f = static_cast<T>(f0);
                 ok(A * f, f, none, cat("a * ", f0));
                 ok(f * A, f, none, cat(f0, " * a"));
                 S t(A);
                 S &r = (t *= f);
                 c.expect(&r == &t, "*= returns the object");
                 ok(t, f, none, cat("a *= ", f0));
               }
               for (double b : {0.0, 1.75, -3.25, 1e6}) {
                 const P p = mkpt<P>(b);
                 const auto sh = comps(p);
                 std::vector<LD> neg = sh;
                 for (auto &v : neg) v = -v;
                 ok(A + p, 1, sh, "a + p");
                 ok(p + A, 1, sh, "p + a");
                 ok(A - p, 1, neg, "a - p");
                 ok(p - A, -1, sh, "p - a");
                 S t(A);
                 t += p;
                 ok(t, 1, sh, "a += p");
                 S u(A);
                 u -= p;
                 ok(u, 1, neg, "a -= p");
               }
               // the spline itself as argument
               ok(A + A, 2, none, "a + a");
               ok(A - A, 0, none, "a - a");
               {
                 S t(A);
                 t += t;
                 ok(t, 2, none, "a += a");
                 S u(A);
                 u -= u;
                 ok(u, 0, none, "a -= a");
               }
               // one of its own control points as argument
               for (int i = 0; i < ra.n() && !c.failed_here; i++) {
                 std::vector<LD> sh, neg;
                 for (int k = 0; k < ra.dim; k++) sh.push_back(ra.at(i, k)), neg.push_back(-ra.at(i, k));
                 S t(A);
                 t += t.GetControlPoints()[i];
                 ok(t, 1, sh, cat("a += own control point ", i));
                 S u(A);
                 u -= u.control_points[i];
                 ok(u, 1, neg, cat("a -= own control point ", i));
                 ok(A + A.GetControlPoints()[i], 1, sh, cat("a + own control point ", i));
                 ok(A.GetControlPoints()[i] - A, -1, sh, cat("own control point ", i, " - a"));
                 for (int k = 0; k < ra.dim; k++) {
                   S v(A);
                   if constexpr (std::is_arithmetic_v<P>)
                     v *= v.control_points[i];
                   else
                     v *= v.control_points[i][k];
                   ok(v, ra.at(i, k), none, cat("a *= own coordinate ", i, ",", k));
                 }
               }
               c.expect(toRP(A).c == ra.c, "operand changed");
               see(c, A);
             });
}

// model: degrees and values on a fixed grid; every operation is applied to the
// implementation and to the model
template <std::size_t PD, class P>
struct Machine {
  using S = BS<PD, P>;
  using T = ScalarOf<P>;
  struct M {
    Deg deg;
    std::vector<LD> v, sc;
  };
  static Nodes g() {
    Deg d{};
    for (std::size_t i = 0; i < PD; i++) d[i] = PD == 1 ? 12 : PD == 2 ? 6 : PD == 3 ? 4 : 3;
    return nodes(PD, d);
  }
  static constexpr int cap = PD == 1 ? 12 : PD == 2 ? 6 : PD == 3 ? 4 : 3;
  static M of(const S &s) {
    const RP r = toRP(s);
    return {r.deg, grid(r, g()), scales(r)};
  }
  static bool lin(M &m, LD f, const M &o, LD fo) {
    for (std::size_t d = 0; d < PD; d++) m.deg[d] = std::max(m.deg[d], o.deg[d]);
    m.v = comb(m.v, f, o.v, fo);
    for (size_t k = 0; k < m.sc.size(); k++) m.sc[k] = std::fabs(f) * m.sc[k] + std::fabs(fo) * o.sc[k];
    return true;
  }
  static void shift(M &m, LD f, const P &p, LD fp) {
    const auto c = comps(p);
    for (size_t i = 0; i < m.v.size(); i++) m.v[i] = f * m.v[i] + fp * c[i % c.size()];
    for (size_t k = 0; k < c.size(); k++) m.sc[k] = std::fabs(f) * m.sc[k] + std::fabs(fp * c[k]);
  }
  struct Op {
    std::string name;
    std::function<bool(S &, M &)> f;
  };
  static std::vector<Op> ops() {
    std::vector<Op> o;
    Deg da{}, db{};
    da[0] = 2;
    for (std::size_t i = 0; i < PD; i++) db[i] = i == PD - 1 ? 3 : 1;
    const S A = make<PD, P>(da, GENERIC, 71), B = make<PD, P>(db, GENERIC, 72);
    const M ma = of(A), mb = of(B);
    o.push_back({"+=A", [=](S &s, M &m) { s += A; return lin(m, 1, ma, 1); }});
    o.push_back({"-=A", [=](S &s, M &m) { s -= A; return lin(m, 1, ma, -1); }});
    o.push_back({"+=B", [=](S &s, M &m) { s += B; return lin(m, 1, mb, 1); }});
    o.push_back({"-=B", [=](S &s, M &m) { s -= B; return lin(m, 1, mb, -1); }});
    o.push_back({"=s+B", [=](S &s, M &m) { s = s + B; return lin(m, 1, mb, 1); }});
    o.push_back({"=A-s", [=](S &s, M &m) { s = A - s; return lin(m, -1, ma, 1); }});
    o.push_back({"+=self", [=](S &s, M &m) { s += s; shift(m, 2, P{}, 0); return true; }});
    o.push_back({"-=self", [=](S &s, M &m) { s -= s; shift(m, 0, P{}, 0); return true; }});
    o.push_back({"*=-1.5", [=](S &s, M &m) { s *= static_cast<T>(-1.5); shift(m, -1.5L, P{}, 0); return true; }});
    o.push_back({"=2*s", [=](S &s, M &m) { s = static_cast<T>(2) * s; shift(m, 2, P{}, 0); return true; }});
    o.push_back({"+=p", [=](S &s, M &m) { s += mkpt<P>(0.625); shift(m, 1, mkpt<P>(0.625), 1); return true; }});
    o.push_back({"-=p", [=](S &s, M &m) { s -= mkpt<P>(-2); shift(m, 1, mkpt<P>(-2), -1); return true; }});
    o.push_back({"=p-s", [=](S &s, M &m) { s = mkpt<P>(1.25) - s; shift(m, -1, mkpt<P>(1.25), 1); return true; }});
    o.push_back({"+=own0", [=](S &s, M &m) { const P p = s.control_points[0]; s += s.control_points[0]; shift(m, 1, p, 1); return true; }});
    o.push_back({"-=ownL", [=](S &s, M &m) { const P p = s.control_points.back(); s -= s.control_points.back(); shift(m, 1, p, -1); return true; }});
    o.push_back({"neg", [=](S &s, M &m) { s = -s; shift(m, -1, P{}, 0); return true; }});
    for (std::size_t d = 0; d < PD; d++)
      o.push_back({cat("elev", d), [=](S &s, M &m) {
                     if (m.deg[d] >= cap) return false;
                     s.OrderElevateAlongParametricDimension(d);
                     m.deg[d]++;
                     return true;
                   }});
    o.push_back({"=A", [=](S &s, M &m) { s = A; m = ma; return true; }});
    o.push_back({"poke", [=](S &s, M &m) { s.GetControlPoints().back() = mkpt<P>(-1); m = of(s); return true; }});
    return o;
  }
  static void run(Ctx &c, int depth) {
    const auto os = ops();
    const Nodes gr = g();
    for (int l = 1; l <= depth; l++) {
      std::vector<size_t> q(l, 0);
      while (true) {
        c.scenario(
            [&] {
              std::string id = cat("machine/", PD, "D/", VT<P>::name(), "/");
              for (auto i : q) id += " " + os[i].name;
              return id;
            },
            [&] {
              Deg d{};
              d[PD - 1] = 1;
              S s = make<PD, P>(d, GENERIC, 3);
              M m = of(s);
              for (auto i : q) {
                if (!os[i].f(s, m)) return c.counter("pruned");
                c.transitions++;
                see(c, s);
              }
              judge(c, s, m.deg, gr, m.v, m.sc, base_tol<P>() * 10, "after the sequence");
            });
        int i = 0;
        while (i < l && ++q[i] == os.size()) q[i++] = 0;
        if (i == l) break;
      }
    }
  }
};
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
    using S = BS<PD, P>;
    Deg d{};
    d[0] = 2;
    d[PD - 1] = 2;
    const S B = make<PD, P>(d, GENERIC, 9);
    const S sum = s + B, dif = s - B, rdif = B - s;
    S a1(s), a2(s);
    a1 += B;
    a2 -= B;
    if (!judged) return;
    see(c, s);
    const RP r = toRP(s), rb = toRP(B);
    Deg m{};
    for (std::size_t i = 0; i < PD; i++) m[i] = std::max(r.deg[i], d[i]);
    const Nodes g = nodes(PD, m);
    const auto va = grid(r, g), vb = grid(rb, g);
    std::vector<LD> sc;
    for (int k = 0; k < r.dim; k++) sc.push_back(r.maxabs(k) + rb.maxabs(k));
    judge(c, sum, m, g, comb(va, 1, vb, 1), sc, 2e-12L, "s + b after history");
    judge(c, dif, m, g, comb(va, 1, vb, -1), sc, 2e-12L, "s - b after history");
    judge(c, rdif, m, g, comb(va, -1, vb, 1), sc, 2e-12L, "b - s after history");
    judge(c, a1, m, g, comb(va, 1, vb, 1), sc, 2e-12L, "s += b after history");
    judge(c, a2, m, g, comb(va, 1, vb, -1), sc, 2e-12L, "s -= b after history");
    judge(c, s * 2.5, r.deg, g, comb(va, 2.5L, vb, 0), scales(r).size() ? sc : sc, 2e-12L, "s * 2.5 after history");
    judge(c, -s, r.deg, g, comb(va, -1, vb, 0), sc, 2e-12L, "-s after history");
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? (L == 0 ? 14 : 28) : PD == 2 ? (L == 2 ? 6 : L ? 4 : 2) : PD == 3 ? (L == 2 ? 3 : L ? 2 : 1) : PD == 4 && L == 2 ? 2 : 1;
  std::vector<std::pair<int, int>> pats = {{GENERIC, GENERIC}, {GENERIC, EQUAL}, {HUGE_, HUGE_}, {MIXED, NEAREQ}, {ZERO, SPARSE}, {NEAREQ, NEAREQ}};
  auto both = [&](const Deg &a, const Deg &b) {
    pair<PD, double>(c, a, b, GENERIC, GENERIC);
    for (size_t i = PD <= 2 && L ? 1 : pats.size(); i < pats.size(); i++) pair<PD, double>(c, a, b, pats[i].first, pats[i].second);
    pair<PD, bezman::Point<2, double>>(c, a, b, GENERIC, GENERIC);
    if constexpr (PD <= 3) pair<PD, bezman::Point<3, double>>(c, a, b, MIXED, GENERIC);
  };
  for_degs(PD, 0, hi, [&](const Deg &a) { for_degs(PD, 0, hi, [&](const Deg &b) { both(a, b); }); });
  if constexpr (PD == 2)
    for (auto &a : std::vector<Deg>{{12, 0}, {0, 12}, {7, 5}, {1, 9}})
      for (auto &b : std::vector<Deg>{{0, 0}, {0, 11}, {11, 0}, {3, 8}, {8, 3}}) both(a, b), both(b, a);
  if constexpr (PD == 3)
    for (auto &a : std::vector<Deg>{{5, 0, 0}, {0, 5, 0}, {0, 0, 5}, {4, 2, 3}})
      for (auto &b : std::vector<Deg>{{0, 0, 0}, {1, 3, 0}, {3, 0, 4}, {0, 4, 1}}) both(a, b), both(b, a);
  if constexpr (PD == 4)
    for (auto &a : std::vector<Deg>{{3, 0, 0, 0}, {0, 0, 0, 3}, {2, 1, 0, 3}, {0, 3, 1, 1}})
      for (auto &b : std::vector<Deg>{{0, 0, 0, 0}, {1, 2, 0, 2}, {0, 1, 3, 0}}) both(a, b), both(b, a);
  // beyond the binomial table, around powers of two
  std::vector<std::pair<Deg, Deg>> far;
  if (PD == 1) far = {{{31}, {31}}, {{33}, {2}}, {{64}, {63}}, {{66}, {66}}, {{100}, {0}}, {{128}, {127}}, {{255}, {200}}, {{256}, {256}}, {{257}, {1}}};
  if (PD == 2) far = {{{70, 1}, {1, 3}}, {{1, 130}, {2, 128}}, {{33, 20}, {20, 33}}};
  if (PD == 3) far = {{{0, 0, 66}, {1, 0, 64}}, {{33, 1, 1}, {1, 1, 33}}};
  for (auto &[a, b] : far) both(a, b), both(b, a);
  if constexpr (PD <= 2)
    for_degs(PD, 0, 3, [&](const Deg &a) {
      for_degs(PD, 0, 3, [&](const Deg &b) {
        pair<PD, long double>(c, a, b, GENERIC, MIXED);
        pair<PD, bezman::Point<2, float>>(c, a, b, GENERIC, GENERIC);
        pair<PD, bezman::Point<1, double>>(c, a, b, GENERIC, GENERIC);
        mixed<PD, double, float>(c, a, b, GENERIC, MIXED);
        mixed<PD, long double, double>(c, a, b, MIXED, GENERIC);
        mixed<PD, long double, float>(c, a, b, GENERIC, GENERIC);
      });
    });
  for_degs(PD, 0, std::min(hi, PD == 1 ? 12 : 4), [&](const Deg &d) {
    for (int p : {GENERIC, MIXED, ZERO, EQUAL, SPARSE, HUGE_}) {
      unary<PD, double>(c, d, p);
      unary<PD, bezman::Point<3, double>>(c, d, p);
    }
    unary<PD, bezman::Point<2, float>>(c, d, GENERIC);
    if constexpr (PD <= 2) unary<PD, bezman::Point<1, double>>(c, d, GENERIC);
  });
  Machine<PD, double>::run(c, L == 2 ? 4 : L ? 3 : 2);
  Machine<PD, bezman::Point<2, double>>::run(c, L ? 3 : 2);
  const int dep = L == 2 && PD < 5 ? 3 : L ? 2 : 1;
  hist<PD, double>(c, dep);
  hist<PD, bezman::Point<2, double>>(c, dep);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  pair<4, double>(c, {16, 15, 16, 17}, {15, 16, 16, 17}, GENERIC, GENERIC);
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

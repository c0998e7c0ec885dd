// C09: arithmetic of rational splines.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

// how the weights of the second operand relate to those of the first
enum Rel { OTHER, SAMEW, SCALED, LASTW, NEARW, ELEV, PERM, NREL };
const char *relname(int r) {
  static const char *n[] = {"other", "same", "scaled", "last", "near", "elevated", "perm"};
  return n[r];
}
std::vector<LD> unw(const RR &r) {  // bound of the values, per coordinate
  std::vector<LD> s(r.num.dim, 0);
  for (int i = 0; i < r.num.n(); i++)
    for (int k = 0; k < r.num.dim; k++) s[k] = std::max(s[k], std::fabs(r.num.at(i, k) / r.w.at(i, 0)));
  return s;
}
std::vector<LD> vals(const RR &r, const Nodes &g) {
  auto a = grid(r.num, g);
  const auto b = grid(r.w, g);
  for (size_t i = 0; i < a.size(); i++) a[i] /= b[i / r.num.dim];
  return a;
}
std::vector<LD> pw(const std::vector<LD> &a, int da, const std::vector<LD> &b, int db) {
  std::vector<LD> r;
  for (size_t i = 0; i < a.size() / da; i++) {
    if (da == db && da > 1) {
      LD s = 0;
      for (int k = 0; k < da; k++) s += a[i * da + k] * b[i * da + k];
      r.push_back(s);
    } else if (da == 1)
      for (int k = 0; k < db; k++) r.push_back(a[i] * b[i * db + k]);
    else
      for (int k = 0; k < da; k++) r.push_back(a[i * da + k] * b[i]);
  }
  return r;
}
std::vector<LD> comb(const std::vector<LD> &a, LD fa, const std::vector<LD> &b, LD fb) {
  std::vector<LD> r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = fa * a[i] + fb * b[i];
  return r;
}
// the result takes the values e on g
template <class S>
bool judge(Ctx &c, const S &s, const Nodes &g, const std::vector<LD> &e, const std::vector<LD> &sc, LD tol, const std::string &what) {
  const RR q = toRR(s);  // throws if a vector does not match the degrees
  if (!c.expect(s.GetWeightFunctionSpline().GetDegrees() == s.GetNumeratorSpline().GetDegrees(), what + " degrees of numerator and weights differ"))
    return false;
  if (!c.expect(static_cast<int>(s.GetNumberOfControlPoints()) == q.num.n(), what + " number of control points")) return false;
  if (!c.expect(q.num.dim == static_cast<int>(sc.size()), what + " dimension")) return false;
  return cmp_grid(c, vals(q, g), e, q.num.dim, sc, tol, g, what);
}
template <std::size_t PD>
Nodes nodes_for(const Deg &a, const Deg &b, int limit) {
  Deg d{};
  LD n = 1;
  for (std::size_t i = 0; i < PD; i++) d[i] = 2 * (a[i] + b[i]) + 1, n *= d[i] + 1;
  if (n > limit)
    for (std::size_t i = 0; i < PD; i++) d[i] = a[i] + b[i] + 1;
  return nodes(PD, d);
}
template <std::size_t PD, class P>
bool related(const RS<PD, P> &A, const Deg &d1, const Deg &d2, int pb, int rel, RS<PD, P> &B) {
  B = makeR<PD, P>(d2, pb, WGEN, 2);
  auto &w = B.GetWeights();
  switch (rel) {
    case OTHER: return true;
    case SAMEW:
      if (d1 != d2) return false;
      w = A.GetWeights();
      return true;
    case SCALED:
      if (d1 != d2) return false;
      for (size_t i = 0; i < w.size(); i++) w[i] = 2 * A.GetWeights()[i];
      return true;
    case LASTW:
      if (d1 != d2) return false;
      w = A.GetWeights();
      w.back() *= 3;
      return true;
    case NEARW:
      if (d1 != d2) return false;
      w = A.GetWeights();
      for (size_t i = 0; i < w.size(); i++) w[i] = static_cast<ScalarOf<P>>(w[i] * (1 + (i % 2 ? 1e-7 : -1e-7)));
      return true;
    case ELEV: {
      auto ws = A.GetWeightFunctionSpline();
      for (std::size_t i = 0; i < PD; i++) {
        if (d2[i] < d1[i] || d2[i] > d1[i] + 2) return false;
        for (int k = d1[i]; k < d2[i]; k++) ws.OrderElevateAlongParametricDimension(i);
      }
      if (d1 == d2) return false;
      w = ws.GetControlPoints();
      return true;
    }
    case PERM: {  // same list of weights, other degrees
      if (d1 == d2 || A.GetWeights().size() != w.size()) return false;
      w = A.GetWeights();
      return true;
    }
  }
  return false;
}
template <std::size_t PD, class P>
void pair(Ctx &c, const Deg &d1, const Deg &d2, int pa, int pb, int wp, int rel, bool prod = false) {
  using S = RS<PD, P>;
  const S A = makeR<PD, P>(d1, pa, wp, 1);
  S B0;
  if (!related<PD, P>(A, d1, d2, pb, rel, B0)) return;
  c.scenario(
      [&] {
        return cat("pair/", PD, "D/", VT<P>::name(), "/", dstr(PD, d1), "/", patname(pa), "/", wpatname(wp), "/", dstr(PD, d2), "/",
                   patname(pb), "/", relname(rel));
      },
      [&] {
        const S B = B0;
        const RR ra = toRR(A), rb = toRR(B);
        const Nodes g = nodes_for<PD>(d1, d2, PD == 1 ? 1000 : 200);
        const auto va = vals(ra, g), vb = vals(rb, g);
        const auto sa = unw(ra), sb = unw(rb);
        std::vector<LD> sc;
        for (size_t k = 0; k < sa.size(); k++) sc.push_back(sa[k] + sb[k]);
        const LD tol = sizeof(ScalarOf<P>) == 4 ? 1e-4L : sizeof(ScalarOf<P>) == 8 ? 2e-12L : 1e-15L;
        auto ok = [&](const S &s, LD fa, LD fb, const char *what) {
          c.transitions++;
          if (!judge(c, s, g, comb(va, fa, vb, fb), sc, tol, what)) return;
          if (rel == SAMEW) {
            c.expect(s.GetDegrees() == A.GetDegrees(), cat(what, " changes the degree although the weights are shared"));
            c.expect(s.GetWeights() == A.GetWeights(), cat(what, " changes the shared weights"));
          }
        };
        ok(A + B, 1, 1, "a + b");
        ok(A - B, 1, -1, "a - b");
        ok(B + A, 1, 1, "b + a");
        ok(B - A, -1, 1, "b - a");
        S t(A);
        S &r = (t += B);
        c.expect(&r == &t, "+= returns the object");
        ok(t, 1, 1, "a += b");
        S u(A);
        u -= B;
        ok(u, 1, -1, "a -= b");
        judge(c, A * B, g, pw(va, ra.num.dim, vb, ra.num.dim), pw(sa, ra.num.dim, sb, ra.num.dim), tol * 2, "a * b");
        if constexpr (!std::is_arithmetic_v<P>)
          if (prod) {
            const auto F = makeR<PD, ScalarOf<P>>(d2, pb, wp, 7);
            const RR rf = toRR(F);
            const auto vf = vals(rf, g);
            judge(c, F * A, g, pw(vf, 1, va, ra.num.dim), pw(unw(rf), 1, sa, ra.num.dim), tol * 2, "f * a");
            judge(c, A * F, g, pw(va, ra.num.dim, vf, 1), pw(sa, ra.num.dim, unw(rf), 1), tol * 2, "a * f");
          }
        c.expect(toRR(A).num.c == ra.num.c && toRR(A).w.c == ra.w.c && toRR(B).num.c == rb.num.c && toRR(B).w.c == rb.w.c, "operands changed");
        seeR(c, t);
      });
}
template <std::size_t PD, class P>
void unary(Ctx &c, const Deg &d, int pat, int wp) {
  using S = RS<PD, P>;
  using T = ScalarOf<P>;
  c.scenario([&] { return cat("unary/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/", wpatname(wp)); },
             [&] {
               const S A = makeR<PD, P>(d, pat, wp, 1);
               const RR ra = toRR(A);
               const int dim = ra.num.dim;
               const Nodes g = nodes_for<PD>(d, Deg{}, 400);
               const auto va = vals(ra, g);
               const auto sa = unw(ra);
               const LD tol = sizeof(T) == 4 ? 2e-5L : 1e-12L;
               auto ok = [&](const S &s, LD f, const std::vector<LD> &sh, LD fs, const std::string &w) {
                 c.transitions++;
                 std::vector<LD> e(va.size()), sc;
                 for (size_t i = 0; i < va.size(); i++) e[i] = f * va[i] + fs * sh[i % dim];
                 for (int k = 0; k < dim; k++) sc.push_back(std::fabs(f) * sa[k] + std::fabs(fs * sh[k]));
                 judge(c, s, g, e, sc, tol, w);
                 c.expect(toRR(s).w.deg == ra.w.deg, w + " changes the degree");
               };
               const std::vector<LD> no(dim, 0);
               ok(-A, -1, no, 0, "-a");
               for (double f0 : {0.0, 1.0, -1.0, 2.5, -0.375, 1e5}) {
                 const T f = static_cast<T>(f0);
                 ok(A * f, f, no, 0, cat("a * ", f0));
                 ok(f * A, f, no, 0, cat(f0, " * a"));
                 S t(A);
                 t *= f;
                 ok(t, f, no, 0, cat("a *= ", f0));
               }
               for (double b : {0.0, 1.75, -3.25, 1e4}) {
                 const P p = mkpt<P>(b);
                 const auto sh = comps(p);
                 ok(A + p, 1, sh, 1, "a + p");
                 ok(p + A, 1, sh, 1, "p + a");
                 ok(A - p, 1, sh, -1, "a - p");
                 S t(A);
                 t += p;
                 ok(t, 1, sh, 1, "a += p");
                 S u(A);
                 u -= p;
                 ok(u, 1, sh, -1, "a -= p");
               }
               ok(A + A, 2, no, 0, "a + a");
               ok(A - A, 0, no, 0, "a - a");
               judge(c, A * A, g, pw(va, dim, va, dim), pw(sa, dim, sa, dim), tol * 2, "a * a");
               {
                 S t(A);
                 t += t;
                 ok(t, 2, no, 0, "a += a");
                 S u(A);
                 u -= u;
                 ok(u, 0, no, 0, "a -= a");
               }
               for (int i = 0; i < ra.num.n() && !c.failed_here; i++) {
                 std::vector<LD> sh;
                 for (int k = 0; k < dim; k++) sh.push_back(ra.num.at(i, k));
                 S t(A);
                 t += t.GetWeightedControlPoints()[i];
                 ok(t, 1, sh, 1, cat("a += own weighted control point ", i));
                 S u(A);
                 u -= u.GetWeightedControlPoints()[i];
                 ok(u, 1, sh, -1, cat("a -= own weighted control point ", i));
                 S v(A);
                 if constexpr (std::is_arithmetic_v<P>)
                   v *= v.GetWeightedControlPoints()[i];
                 else
                   v *= v.GetWeightedControlPoints()[i][0];
                 ok(v, sh[0], no, 0, cat("a *= own coordinate ", i));
                 S x(A);
                 x *= x.GetWeights()[i];
                 ok(x, ra.w.at(i, 0), no, 0, cat("a *= own weight ", i));
               }
               c.expect(toRR(A).num.c == ra.num.c && toRR(A).w.c == ra.w.c, "operand changed");
               seeR(c, A);
             });
}
template <std::size_t PD, class P>
struct Machine {
  using S = RS<PD, P>;
  using T = ScalarOf<P>;
  static constexpr int cap = PD == 1 ? 14 : PD == 2 ? 8 : PD == 3 ? 5 : 4;
  struct M {
    std::vector<LD> v, sc;
  };
  static Nodes g() {
    Deg d{};
    for (std::size_t i = 0; i < PD; i++) d[i] = PD == 1 ? 14 : PD == 2 ? 6 : PD == 3 ? 4 : 3;
    return nodes(PD, d);
  }
  static bool room(const S &s, int k) {
    for (auto d : s.GetDegrees())
      if (static_cast<int>(d) + k > cap) return false;
    return true;
  }
  static M of(const S &s) {
    const RR r = toRR(s);
    return {vals(r, g()), unw(r)};
  }
  static bool lin(M &m, LD f, const M &o, LD fo) {
    m.v = comb(m.v, f, o.v, fo);
    for (size_t k = 0; k < m.sc.size(); k++) m.sc[k] = std::fabs(f) * m.sc[k] + std::fabs(fo) * o.sc[k];
    return true;
  }
  static bool shift(M &m, LD f, const P &p, LD fp) {
    const auto c = comps(p);
    for (size_t i = 0; i < m.v.size(); i++) m.v[i] = f * m.v[i] + fp * c[i % c.size()];
    for (size_t k = 0; k < c.size(); k++) m.sc[k] = std::fabs(f) * m.sc[k] + std::fabs(fp * c[k]);
    return true;
  }
  struct Op {
    std::string name;
    std::function<bool(S &, M &)> f;
  };
  static std::vector<Op> ops() {
    std::vector<Op> o;
    Deg da{}, db{};
    da[0] = 1;
    for (std::size_t i = 0; i < PD; i++) db[i] = i == PD - 1 ? 2 : 0;
    const S A = makeR<PD, P>(da, GENERIC, WGEN, 71), B = makeR<PD, P>(db, GENERIC, WDEV, 72);
    const auto F = makeR<PD, T>(da, UNIT, WGEN, 73);
    const M ma = of(A), mb = of(B);
    const auto vf = vals(toRR(F), g());
    const auto sf = unw(toRR(F));
    o.push_back({"+=A", [=](S &s, M &m) { if (!room(s, 1)) return false; s += A; return lin(m, 1, ma, 1); }});
    o.push_back({"-=B", [=](S &s, M &m) { if (!room(s, 2)) return false; s -= B; return lin(m, 1, mb, -1); }});
    o.push_back({"=A-s", [=](S &s, M &m) { if (!room(s, 1)) return false; s = A - s; return lin(m, -1, ma, 1); }});
    o.push_back({"=s+B", [=](S &s, M &m) { if (!room(s, 2)) return false; s = s + B; return lin(m, 1, mb, 1); }});
    o.push_back({"=F*s", [=](S &s, M &m) {
                   if (!room(s, 1)) return false;
                   s = F * s;
                   const int dim = static_cast<int>(m.sc.size());
                   m.v = pw(vf, 1, m.v, dim);
                   m.sc = pw(sf, 1, m.sc, dim);
                   return true;
                 }});
    o.push_back({"+=shared", [=](S &s, M &m) {  // other points, same weights
                   S t(s);
                   for (size_t i = 0; i < t.GetWeights().size(); i++) t.GetWeightedControlPoints()[i] = mkpt<P>(0.1 * i) * t.GetWeights()[i];
                   const M mt = of(t);
                   s += t;
                   return lin(m, 1, mt, 1);
                 }});
    o.push_back({"-=shared", [=](S &s, M &m) {
                   S t(s);
                   for (size_t i = 0; i < t.GetWeights().size(); i++) t.GetWeightedControlPoints()[i] = mkpt<P>(0.2 * i) * t.GetWeights()[i];
                   const M mt = of(t);
                   s -= t;
                   return lin(m, 1, mt, -1);
                 }});
    o.push_back({"+=self", [=](S &s, M &m) { s += s; return shift(m, 2, P{}, 0); }});
    o.push_back({"-=self", [=](S &s, M &m) { s -= s; return shift(m, 0, P{}, 0); }});
    o.push_back({"*=-1.5", [=](S &s, M &m) { s *= static_cast<T>(-1.5); return shift(m, -1.5L, P{}, 0); }});
    o.push_back({"+=p", [=](S &s, M &m) { s += mkpt<P>(0.625); return shift(m, 1, mkpt<P>(0.625), 1); }});
    o.push_back({"-=p", [=](S &s, M &m) { s -= mkpt<P>(-2); return shift(m, 1, mkpt<P>(-2), -1); }});
    o.push_back({"=s-p", [=](S &s, M &m) { s = s - mkpt<P>(1); return shift(m, 1, mkpt<P>(1), -1); }});
    o.push_back({"neg", [=](S &s, M &m) { s = -s; return shift(m, -1, P{}, 0); }});
    o.push_back({"elev", [=](S &s, M &m) { if (!room(s, 1)) return false; s.OrderElevateAlongParametricDimension(PD - 1); return true; }});
    o.push_back({"pokew", [=](S &s, M &m) { s.GetWeights().back() *= 2; m = of(s); return true; }});
    o.push_back({"=A", [=](S &s, M &m) { s = A; m = ma; return true; }});
    return o;
  }
  static void run(Ctx &c, int depth) {
    const auto os = ops();
    const Nodes gr = g();
    for (int l = 1; l <= depth; l++) {
      std::vector<size_t> q(l, 0);
      while (true) {
        c.scenario(
            [&] {
              std::string id = cat("machine/", PD, "D/", VT<P>::name(), "/");
              for (auto i : q) id += " " + os[i].name;
              return id;
            },
            [&] {
              Deg d{};
              d[PD - 1] = 1;
              S s = makeR<PD, P>(d, GENERIC, WGEN, 3);
              M m = of(s);
              for (auto i : q) {
                if (!os[i].f(s, m)) return c.counter("pruned");
                c.transitions++;
                seeR(c, s);
              }
              judge(c, s, gr, m.v, m.sc, 1e-10L, "after the sequence");
            });
        int i = 0;
        while (i < l && ++q[i] == os.size()) q[i++] = 0;
        if (i == l) break;
      }
    }
  }
};
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<RatHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const RS<PD, P> &s, bool judged) {
    using S = RS<PD, P>;
    Deg d{};
    d[0] = 1;
    const S B = makeR<PD, P>(d, GENERIC, WGEN, 9);
    S same(s);
    for (size_t i = 0; i < same.GetWeights().size(); i++) same.GetWeightedControlPoints()[i] = mkpt<P>(0.1 * i) * same.GetWeights()[i];
    for (auto w : s.GetWeights())
      if (!(w > 0)) return c.counter("weights_not_positive");
    for (auto x : s.GetDegrees())
      if (x > 27) return;
    const S sum = s + B, dif = B - s, shared = s + same, sdif = s - same;
    const auto prod = s * B;
    if (!judged) return;
    seeR(c, s);
    const RR r = toRR(s), rb = toRR(B), rs = toRR(same);
    Deg e{};
    for (std::size_t i = 0; i < PD; i++) e[i] = r.num.deg[i] + d[i];
    const Nodes g = nodes_for<PD>(r.num.deg, d, 150);
    const auto va = vals(r, g), vb = vals(rb, g), vs = vals(rs, g);
    const auto sa = unw(r), sb = unw(rb), ss = unw(rs);
    std::vector<LD> sc, sc2;
    for (size_t k = 0; k < sa.size(); k++) sc.push_back(sa[k] + sb[k]), sc2.push_back(sa[k] + ss[k]);
    judge(c, sum, g, comb(va, 1, vb, 1), sc, 1e-10L, "s + b after history");
    judge(c, dif, g, comb(va, -1, vb, 1), sc, 1e-10L, "b - s after history");
    judge(c, shared, g, comb(va, 1, vs, 1), sc2, 1e-10L, "s + shared after history");
    judge(c, sdif, g, comb(va, 1, vs, -1), sc2, 1e-10L, "s - shared after history");
    judge(c, prod, g, pw(va, r.num.dim, vb, r.num.dim), pw(sa, r.num.dim, sb, r.num.dim), 1e-10L, "s * b after history");
    c.expect(shared.GetDegrees() == s.GetDegrees() && shared.GetWeights() == s.GetWeights(), "shared weights not kept after history");
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  using D3 = bezman::Point<3, double>;
  using D2 = bezman::Point<2, double>;
  const int L = c.level;
  const int hi = PD == 1 ? (L == 2 ? 14 : L ? 9 : 5) : PD == 2 ? (L == 2 ? 3 : L ? 2 : 1) : 1;
  auto both = [&](const Deg &a, const Deg &b) {
    for (std::size_t i = 0; i < PD; i++)
      if (a[i] + b[i] > 29) return;
    for (int rel = 0; rel < NREL; rel++)
      for (int wp : {WGEN, WONE, WRATIO, WDEV}) {
        if (PD > 2 && wp == WRATIO) continue;
        pair<PD, double>(c, a, b, GENERIC, GENERIC, wp, rel);
        pair<PD, D3>(c, a, b, GENERIC, MIXED, wp, rel, rel == OTHER);
      }
    pair<PD, double>(c, a, b, ZERO, EQUAL, WGEN, OTHER);
    pair<PD, double>(c, a, b, EQUAL, EQUAL, WGEN, SAMEW);
    pair<PD, double>(c, a, b, HUGE_, HUGE_, WGEN, OTHER);
    if constexpr (PD <= 2) {
      for (int rel = 0; rel < NREL; rel++) {
        if (a[0] > 4) break;
        pair<PD, long double>(c, a, b, GENERIC, MIXED, WGEN, rel);
        pair<PD, bezman::Point<2, float>>(c, a, b, GENERIC, GENERIC, WGEN, rel);
      }
      pair<PD, D2>(c, a, b, GENERIC, GENERIC, WTINY, SAMEW);
      pair<PD, D2>(c, a, b, GENERIC, GENERIC, WTINY, OTHER);
    }
  };
  for_degs(PD, 0, hi, [&](const Deg &a) { for_degs(PD, 0, hi, [&](const Deg &b) { both(a, b); }); });
  std::vector<Deg> ex;
  if (PD == 1 && L) ex = {{29, 0, 0, 0}, {14, 0, 0, 0}, {15, 0, 0, 0}, {20, 0, 0, 0}};
  if (PD == 2) ex = {{5, 0}, {0, 5}, {3, 1}, {1, 3}, {2, 3}, {3, 2}};
  if (PD == 3) ex = {{3, 0, 0}, {0, 3, 0}, {0, 0, 3}, {2, 1, 0}, {0, 1, 2}};
  if (PD == 4) ex = {{0, 0, 0, 2}, {2, 0, 0, 0}, {0, 1, 2, 0}};
  for (auto &a : ex)
    for (auto &b : ex) both(a, b);
  for_degs(PD, 0, PD == 1 ? 10 : PD == 2 ? 3 : PD == 3 ? 2 : 1, [&](const Deg &d) {
    for (int wp : {WGEN, WONE, WRATIO, WDEV, WNEAR})
      for (int p : {GENERIC, MIXED, ZERO}) {
        unary<PD, double>(c, d, p, wp);
        unary<PD, D3>(c, d, p, wp);
      }
    if constexpr (PD <= 2) {
      unary<PD, long double>(c, d, GENERIC, WGEN);
      unary<PD, bezman::Point<2, float>>(c, d, GENERIC, WGEN);
    }
  });
  Machine<PD, double>::run(c, L == 2 ? 4 : L ? 3 : 2);
  Machine<PD, D2>::run(c, L ? 3 : 2);
  const int dep = L == 2 && PD < 5 ? 3 : L ? 2 : 1;
  hist<PD, double>(c, dep);
  hist<PD, D2>(c, dep);
}
void explore(Ctx &c) { explore_<PART>(c); }

// C12: corners, unit cube test, unit cube mapping, shift-and-scale.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

template <class T>
LD eps() {
  return std::numeric_limits<T>::epsilon();
}
struct Box {
  std::vector<LD> lo, hi;
};
Box box(const RP &r) {
  Box b;
  for (int k = 0; k < r.dim; k++) {
    LD lo = r.at(0, k), hi = lo;
    for (int i = 1; i < r.n(); i++) {
      if (r.at(i, k) < lo) lo = r.at(i, k);
      if (r.at(i, k) > hi) hi = r.at(i, k);
    }
    b.lo.push_back(lo);
    b.hi.push_back(hi);
  }
  return b;
}
bool inside(const Box &b) {
  for (size_t k = 0; k < b.lo.size(); k++)
    if (b.lo[k] < 0 || b.hi[k] > 1) return false;
  return true;
}
// points of the spline lie within its corners
bool encloses(Ctx &c, const std::vector<LD> &v, int dim, const Box &b, LD tol, const char *what) {
  for (size_t i = 0; i < v.size(); i++) {
    const int k = static_cast<int>(i % dim);
    const LD s = std::max(std::fabs(b.lo[k]), std::fabs(b.hi[k])) * tol;
    if (!c.expect(v[i] >= b.lo[k] - s && v[i] <= b.hi[k] + s, cat(what, ": value ", v[i], " outside of [", b.lo[k], ",", b.hi[k], "]"))) return false;
  }
  return true;
}
template <std::size_t PD, class P>
bool corners(Ctx &c, const BS<PD, P> &s, bool enclose) {
  const RP r = toRP(s);
  const Box b = box(r);
  const auto mx = comps(s.MaximumCorner()), mn = comps(s.MinimumCorner());
  bool ok = true;
  for (int k = 0; k < r.dim && ok; k++) {
    ok &= c.expect(mx[k] == b.hi[k], cat("maximum corner coordinate ", k, " is ", mx[k], " instead of ", b.hi[k]));
    ok &= c.expect(mn[k] == b.lo[k], cat("minimum corner coordinate ", k, " is ", mn[k], " instead of ", b.lo[k]));
  }
  ok &= c.expect(s.FitsIntoUnitCube() == inside(b), cat("unit cube test is ", s.FitsIntoUnitCube()));
  if (enclose && ok) ok &= encloses(c, grid(r, nodes(PD, r.deg)), r.dim, b, 1e-15L, "spline outside of its corners");
  c.transitions += 3;
  return ok;
}
template <std::size_t PD, class P>
bool cornersR(Ctx &c, const RS<PD, P> &s, bool enclose) {
  using T = ScalarOf<P>;
  const RR r = toRR(s);
  RP u = r.num;
  for (int i = 0; i < u.n(); i++)
    for (int k = 0; k < u.dim; k++) u.c[static_cast<size_t>(i) * u.dim + k] = static_cast<T>(static_cast<T>(r.num.at(i, k)) / static_cast<T>(r.w.at(i, 0)));
  const Box b = box(u);
  const auto mx = comps(s.MaximumCorner()), mn = comps(s.MinimumCorner());
  bool ok = true;
  for (int k = 0; k < u.dim && ok; k++) {
    const LD t = 4 * eps<T>() * std::max(std::fabs(b.hi[k]), std::fabs(b.lo[k]));
    ok &= c.expect(std::fabs(mx[k] - b.hi[k]) <= t, cat("maximum corner coordinate ", k, " is ", mx[k], " instead of ", b.hi[k]));
    ok &= c.expect(std::fabs(mn[k] - b.lo[k]) <= t, cat("minimum corner coordinate ", k, " is ", mn[k], " instead of ", b.lo[k]));
  }
  // decided unless a quotient is within rounding of the faces
  bool sharp = true;
  for (int k = 0; k < u.dim; k++) {
    const LD t = 4 * eps<T>();
    if ((b.hi[k] != 1 && std::fabs(b.hi[k] - 1) < t) || (b.lo[k] != 0 && std::fabs(b.lo[k]) < t)) sharp = false;
  }
  if (sharp) ok &= c.expect(s.FitsIntoUnitCube() == inside(b), cat("unit cube test is ", s.FitsIntoUnitCube()));
  if (enclose && ok) {
    const Nodes g = nodes(PD, u.deg);
    auto v = grid(r.num, g);
    const auto w = grid(r.w, g);
    for (size_t i = 0; i < v.size(); i++) v[i] /= w[i / u.dim];
    ok &= encloses(c, v, u.dim, b, 8 * eps<T>(), "spline outside of its corners");
  }
  c.transitions += 3;
  return ok;
}
template <std::size_t PD, class P>
bool fit(Ctx &c, const BS<PD, P> &s) {
  using T = ScalarOf<P>;
  const RP r = toRP(s);
  const Box b = box(r);
  auto t = s;
  auto &ret = t.FitIntoUnitCube();
  c.transitions++;
  c.expect(&ret == &t, "FitIntoUnitCube returns the object");
  const RP q = toRP(t);
  if (!c.expect(q.deg == r.deg, "FitIntoUnitCube changes the degree")) return false;
  const Box f = box(q);
  for (int k = 0; k < r.dim; k++) {
    const LD ext = b.hi[k] - b.lo[k];
    if (ext > 0) {
      if (!c.expect(f.lo[k] == 0 && f.hi[k] <= 1 && f.hi[k] >= 1 - 4 * eps<T>(), cat("fitted coordinate ", k, " spans [", f.lo[k], ",", f.hi[k], "]"))) return false;
    } else if (!c.expect(std::isfinite(f.lo[k]) && f.lo[k] >= 0 && f.hi[k] <= 1 && f.lo[k] == f.hi[k], cat("flat coordinate ", k, " becomes [", f.lo[k], ",", f.hi[k], "]")))
      return false;
    for (int i = 0; i < r.n(); i++) {
      const LD e = ext > 0 ? (r.at(i, k) - b.lo[k]) / ext : f.lo[k];
      if (!c.close(q.at(i, k), e, 1, 8 * eps<T>(), [&] { return cat("fitted control point ", i, " coordinate ", k); })) return false;
    }
  }
  return c.expect(t.FitsIntoUnitCube(), "fitted spline fails the unit cube test");
}
template <std::size_t PD, class P>
bool shift_scale(Ctx &c, const BS<PD, P> &s, const P &sh, const P &sc, const std::string &what) {
  const RP r = toRP(s);
  auto t = s;
  auto &ret = t.TransposeAndScale(sh, sc);
  c.transitions++;
  c.expect(&ret == &t, "TransposeAndScale returns the object");
  const RP q = toRP(t);
  const auto a = comps(sh), b = comps(sc);
  for (int i = 0; i < r.n(); i++)
    for (int k = 0; k < r.dim; k++)
      if (!c.close(q.at(i, k), (r.at(i, k) + a[k]) * b[k], (std::fabs(r.at(i, k)) + std::fabs(a[k])) * std::fabs(b[k]), 4 * eps<ScalarOf<P>>(),
                   [&] { return cat(what, " control point ", i, " coordinate ", k); }))
        return false;
  return true;
}
// the arguments are control points of the spline itself
template <std::size_t PD, class P>
void shift_scale_own(Ctx &c, const BS<PD, P> &s) {
  const RP r = toRP(s);
  for (int i = 0; i < r.n(); i++)
    for (int j = 0; j < r.n(); j++) {
      auto t = s;
      t.TransposeAndScale(t.control_points[i], t.control_points[j]);
      c.transitions++;
      const RP q = toRP(t);
      for (int l = 0; l < r.n(); l++)
        for (int k = 0; k < r.dim; k++)
          if (!c.close(q.at(l, k), (r.at(l, k) + r.at(i, k)) * r.at(j, k), (std::fabs(r.at(l, k)) + std::fabs(r.at(i, k))) * std::fabs(r.at(j, k)),
                       4 * eps<ScalarOf<P>>(), [&] { return cat("own control points ", i, ",", j, ": control point ", l, " coordinate ", k); }))
            return;
    }
}
template <class F>
void tuples(int n, int base, const F &f) {
  std::vector<int> q(n, 0);
  while (true) {
    f(q);
    int i = 0;
    while (i < n && ++q[i] == base) q[i++] = 0;
    if (i == n) return;
  }
}
template <std::size_t PD, class P>
BS<PD, P> with(const Deg &d, const std::vector<int> &q, const std::vector<double> &al) {
  BS<PD, P> s(adeg<PD>(d));
  auto &cp = s.GetControlPoints();
  for (size_t i = 0; i < cp.size(); i++)
    for (int k = 0; k < VT<P>::dim; k++) VT<P>::set(cp[i], k, static_cast<ScalarOf<P>>(al[(q[i] + k * (i + 1)) % al.size()]));
  return s;
}
// every assignment of values to the control points
template <std::size_t PD, class P>
void assignments(Ctx &c, int maxn) {
  const std::vector<std::vector<double>> alphabets = {{-3, -2, -1}, {1, 2, 4}, {-1, 0, 2}, {0, 1}, {0.5, 1.0 + 1e-6, 1, 0}, {-1e-6, 0, 1}, {0.25, 0.25, 0.5}};
  for_degs(PD, 0, 5, [&](const Deg &d) {
    int n = 1;
    for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
    if (n > maxn) return;
    for (size_t a = 0; a < alphabets.size(); a++)
      tuples(n, static_cast<int>(alphabets[a].size()), [&](const std::vector<int> &q) {
        c.scenario([&] { return cat("values/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", a, "/", lst(q)); },
                   [&] {
                     const auto s = with<PD, P>(d, q, alphabets[a]);
                     see(c, s);
                     if (corners<PD, P>(c, s, true)) fit<PD, P>(c, s);
                     // the same as unweighted control points of a rational
                     if (n <= 4)
                       tuples(n, 3, [&](const std::vector<int> &w) {
                         if (c.failed_here) return;
                         std::vector<ScalarOf<P>> ws;
                         for (int x : w) ws.push_back(static_cast<ScalarOf<P>>(x == 0 ? 0.25 : x == 1 ? 1 : 4));
                         cornersR<PD, P>(c, RS<PD, P>(adeg<PD>(d), s.GetControlPoints(), ws), true);
                       });
                   });
      });
  });
}
// exactly one control point coordinate at or just beyond a face
template <std::size_t PD, class P>
void faces(Ctx &c, const Deg &d) {
  using T = ScalarOf<P>;
  int n = 1;
  for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
  const std::vector<T> vs = {T(0), T(1), std::nextafter(T(1), T(2)), -std::numeric_limits<T>::denorm_min(), T(-1e-3), T(1.001), T(-0.0), std::nextafter(T(1), T(0)), T(1e30), T(-1e30)};
  for (size_t v = 0; v < vs.size(); v++)
    c.scenario([&] { return cat("faces/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/value ", v); },
               [&] {
                 for (int i = 0; i < n; i++)
                   for (int k = 0; k < VT<P>::dim; k++) {
                     auto s = make<PD, P>(d, UNIT, 3);
                     VT<P>::set(s.GetControlPoints()[i], k, vs[v]);
                     const bool exp = vs[v] >= 0 && vs[v] <= 1;
                     c.transitions++;
                     if (!c.expect(s.FitsIntoUnitCube() == exp, cat("control point ", i, " coordinate ", k, " at ", vs[v], " but test says ", s.FitsIntoUnitCube()))) return;
                     if (!corners<PD, P>(c, s, false)) return;
                     for (int wi = 0; wi < 3; wi++) {
                       std::vector<T> w(n);
                       for (int j = 0; j < n; j++) w[j] = wi == 0 ? 1 : wi == 1 ? T((j % 3) + 1) / 2 : j == i ? T(8) : T(0.5);
                       if (wi == 1 && (i % 3) == 2) w[i] = 1;
                       RS<PD, P> r(adeg<PD>(d), s.GetControlPoints(), w);
                       // weights at the marked point are powers of two: exact
                       if (std::fabs(vs[v]) < 1e-30 && vs[v] != 0) continue;
                       if (!c.expect(r.FitsIntoUnitCube() == exp, cat("rational: control point ", i, " coordinate ", k, " at ", vs[v], " but test says ", r.FitsIntoUnitCube()))) return;
                     }
                   }
               });
}
template <std::size_t PD, class P>
void patterns(Ctx &c, const Deg &d) {
  using T = ScalarOf<P>;
  for (int pat = 0; pat < NPAT; pat++) {
    if (sizeof(T) == 4 && (pat == HUGE_ || pat == TINY || pat == MIXED)) continue;
    c.scenario([&] { return cat("pattern/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat)); },
               [&] {
                 const auto s = make<PD, P>(d, pat, 1);
                 see(c, s);
                 if (!corners<PD, P>(c, s, true) || !fit<PD, P>(c, s)) return;
                 for (double b : {0.0, 1.0, -2.5, 1e3})
                   for (double f : {0.0, 1.0, -0.5, 16.0}) shift_scale<PD, P>(c, s, mkpt<P>(b), mkpt<P>(f), cat("shift ", b, " scale ", f));
                 if (s.GetNumberOfControlPoints() <= 12 && pat != HUGE_) shift_scale_own<PD, P>(c, s);
                 if (sizeof(T) == 8)
                   for (int wp = 0; wp < NWPAT; wp++) cornersR<PD, P>(c, makeR<PD, P>(d, pat, wp, 1), wp != WTINY);
                 // fit twice: idempotent up to rounding
                 auto t = s;
                 t.FitIntoUnitCube();
                 const RP a = toRP(t);
                 t.FitIntoUnitCube();
                 const RP b = toRP(t);
                 for (size_t i = 0; i < a.c.size(); i++)
                   if (!c.close(b.c[i], a.c[i], 1, 8 * eps<T>(), [&] { return "fitting again"; })) return;
               });
  }
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
    if (!judged) {
      s.MaximumCorner();
      s.MinimumCorner();
      s.FitsIntoUnitCube();
      return;
    }
    see(c, s);
    if (corners<PD, P>(c, s, true) && fit<PD, P>(c, s)) shift_scale<PD, P>(c, s, mkpt<P>(0.5), mkpt<P>(2), "after history");
  });
  histories<RatHist<PD, P>>(c, cat("R", PD, "D/", VT<P>::name()), depth, [&](const RS<PD, P> &s, bool judged) {
    for (auto w : s.GetWeights())
      if (!(w > 0)) return c.counter("weights_not_positive");
    if (!judged) {
      s.MaximumCorner();
      s.MinimumCorner();
      s.FitsIntoUnitCube();
      return;
    }
    seeR(c, s);
    cornersR<PD, P>(c, s, true);
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  using D2 = bezman::Point<2, double>;
  using D3 = bezman::Point<3, double>;
  const int L = c.level;
  assignments<PD, double>(c, PD == 5 ? (L == 2 ? 6 : 4) : L == 2 ? 8 : L ? 6 : 4);
  assignments<PD, D2>(c, PD == 5 ? 2 : L == 2 ? 6 : 4);
  const int hi = PD == 1 ? (L ? 12 : 6) : PD == 2 ? (L == 2 ? 5 : 3) : PD == 3 ? 2 : 1;
  for_degs(PD, 0, hi, [&](const Deg &d) {
    faces<PD, double>(c, d);
    faces<PD, D3>(c, d);
    if constexpr (PD <= 2) {
      faces<PD, bezman::Point<2, float>>(c, d);
      patterns<PD, bezman::Point<2, float>>(c, d);
      patterns<PD, long double>(c, d);
    }
    patterns<PD, double>(c, d);
    patterns<PD, D2>(c, d);
    patterns<PD, D3>(c, d);
  });
  const int dep = L == 2 && PD < 5 ? 3 : L ? 2 : 1;
  hist<PD, double>(c, dep);
  hist<PD, D2>(c, dep);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  c.scenario([&] { return std::string("huge"); },
             [&] {
               const Deg d{16, 15, 16, 17};
               auto s = make<4, bezman::Point<2, double>>(d, GENERIC);
               const std::size_t n = s.control_points.size();
               for (std::size_t at : {std::size_t(0), std::size_t(65535), std::size_t(65536), n - 1}) {
                 auto t = s;
                 t.control_points[at] = bezman::Point<2, double>(1000., -1000.);
                 if (!corners<4, bezman::Point<2, double>>(c, t, false) || !fit<4, bezman::Point<2, double>>(c, t)) return;
               }
             });
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

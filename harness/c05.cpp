// C05: degree elevation never changes the represented function.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

// polynomial with the degrees of the result: decided on its own grid
template <class S>
bool same_function(Ctx &c, const S &s, const RP &r, const Deg &el, LD tol, const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  const RP q = toRP(s);
  for (std::size_t d = 0; d < PD; d++)
    if (!c.expect(q.deg[d] == r.deg[d] + el[d], cat(what, " degree in direction ", d, " is ", q.deg[d], " instead of ", r.deg[d] + el[d])))
      return false;
  c.expect(static_cast<int>(s.GetNumberOfControlPoints()) == q.n(), cat(what, " number of control points"));
  const Nodes g = nodes(PD, q.deg);
  return cmp_grid(c, grid(q, g), grid(r, g), r.dim, scales(r), tol, g, what);
}
template <class S>
bool same_functionR(Ctx &c, const S &s, const RR &r, const Deg &el, LD tol, const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  const RR q = toRR(s);
  for (std::size_t d = 0; d < PD; d++)
    if (!c.expect(q.w.deg[d] == r.w.deg[d] + el[d] && q.num.deg[d] == q.w.deg[d],
                  cat(what, " degree in direction ", d, " is ", q.num.deg[d], "/", q.w.deg[d], " instead of ", r.w.deg[d] + el[d])))
      return false;
  Deg gd = q.w.deg;
  for (std::size_t d = 0; d < PD; d++) gd[d] = q.w.deg[d] + r.w.deg[d];  // num * w' is of this degree
  const Nodes g = nodes(PD, gd);
  const auto a = grid(q.num, g), b = grid(q.w, g), e = grid(r.num, g), f = grid(r.w, g);
  std::vector<LD> sc(r.num.dim, 0);
  for (int i = 0; i < r.num.n(); i++)
    for (int k = 0; k < r.num.dim; k++) sc[k] = std::max(sc[k], std::fabs(r.num.at(i, k) / r.w.at(i, 0)));
  for (size_t i = 0; i < b.size(); i++)
    for (int k = 0; k < r.num.dim; k++)
      if (!c.close(a[i * r.num.dim + k] / b[i], e[i * r.num.dim + k] / f[i], sc[k], tol,
                   [&] { return cat(what, " coordinate ", k, " at (", lst(gpoint(g, i)), ")"); }))
        return false;
  return true;
}

template <std::size_t PD, class F>
void chains(int len, const F &f) {
  for (int l = 1; l <= len; l++) {
    std::vector<int> q(l, 0);
    while (true) {
      f(q);
      int i = 0;
      while (i < l && ++q[i] == static_cast<int>(PD)) q[i++] = 0;
      if (i == l) break;
    }
  }
}
template <std::size_t PD, class P>
void chain(Ctx &c, const Deg &d, int pat, const std::vector<int> &q, int maxn) {
  const LD tol = sizeof(ScalarOf<P>) == 4 ? 5e-6L : 1e-13L;
    c.scenario(
        [&] { return cat("poly/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/dirs ", lst(q)); }, [&] {
          auto s = make<PD, P>(d, pat);
          const RP r = toRP(s);
          Deg el{};
          for (int dir : q) {
            el[dir]++;
            s.OrderElevateAlongParametricDimension(dir);
            c.transitions++;
          }
          see(c, s);
          if (toRP(s).n() > maxn) return;
          bool in_table = true;  // evaluation needs the binomial table
          for (std::size_t i = 0; i < PD; i++) in_table &= d[i] + el[i] <= 29;
          if (same_function(c, s, r, el, tol * (1 + q.size()), "elevated") && pat == GENERIC && in_table) {
            // usable by the library itself, too
            Pt x{};
            for (std::size_t i = 0; i < PD; i++) x[i] = 0.375;
            const auto e = r.eval(x), v = comps(s.Evaluate(apt<PD, ScalarOf<P>>(x))), w = comps(s.ForwardEvaluate(apt<PD, ScalarOf<P>>(x)));
            for (int k = 0; k < r.dim; k++) {
              c.close(v[k], e[k], r.maxabs(k), tol * 100, [&] { return "Evaluate after elevation"; });
              c.close(w[k], e[k], r.maxabs(k), tol * 100, [&] { return "ForwardEvaluate after elevation"; });
            }
          }
        });
}
template <std::size_t PD, class P>
void shape(Ctx &c, const Deg &d, int pat, int len, int maxn) {
  chains<PD>(len, [&](const std::vector<int> &q) { chain<PD, P>(c, d, pat, q, maxn); });
}
template <std::size_t PD, class P>
void chainR(Ctx &c, const Deg &d, int pat, int wpat, const std::vector<int> &q, int maxn) {
  const LD tol = sizeof(ScalarOf<P>) == 4 ? 5e-5L : 1e-12L;
    c.scenario(
        [&] { return cat("rational/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/", wpatname(wpat), "/dirs ", lst(q)); },
        [&] {
          auto s = makeR<PD, P>(d, pat, wpat);
          const RR r = toRR(s);
          Deg el{};
          for (int dir : q) {
            el[dir]++;
            s.OrderElevateAlongParametricDimension(dir);
            c.transitions++;
          }
          seeR(c, s);
          if (toRR(s).w.n() > maxn) return;
          same_functionR(c, s, r, el, tol, "elevated");
        });
}
template <std::size_t PD, class P>
void shapeR(Ctx &c, const Deg &d, int pat, int wpat, int len, int maxn) {
  chains<PD>(len, [&](const std::vector<int> &q) { chainR<PD, P>(c, d, pat, wpat, q, maxn); });
}
template <std::size_t PD>
void units(Ctx &c, const Deg &d) {
  int n = 1;
  for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
  for (std::size_t dir = 0; dir < PD; dir++)
    c.scenario([&] { return cat("units/", PD, "D/", dstr(PD, d), "/dir ", dir); }, [&] {
      for (int u = 0; u < n && !c.failed_here; u++) {
        BS<PD, double> s(adeg<PD>(d));
        s.GetControlPoints()[u] = 1;
        const RP r = toRP(s);
        s.OrderElevateAlongParametricDimension(dir);
        Deg el{};
        el[dir] = 1;
        same_function(c, s, r, el, 1e-13L, cat("unit ", u));
        c.transitions++;
      }
    });
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
    if (!judged) return;
    see(c, s);
    const RP r = toRP(s);
    Deg el{};
    auto all = s;
    for (std::size_t d = 0; d < PD; d++) {
      auto t = s;
      t.OrderElevateAlongParametricDimension(d);
      Deg e{};
      e[d] = 1;
      if (!same_function(c, t, r, e, 1e-12L, cat("elevated in ", d, " after history"))) return;
      all.OrderElevateAlongParametricDimension(d);
      el[d]++;
    }
    same_function(c, all, r, el, 1e-12L, "elevated in all directions after history");
    c.expect(toRP(s).c == r.c, "source of a copy changed by elevating the copy");
  });
}
template <std::size_t PD, class P>
void histR(Ctx &c, int depth) {
  histories<RatHist<PD, P>>(c, cat("R", PD, "D/", VT<P>::name()), depth, [&](const RS<PD, P> &s, bool judged) {
    if (!judged) return;
    seeR(c, s);
    const RR r = toRR(s);
    for (auto w : r.w.c)
      if (!(w > 0)) return c.counter("weights_not_positive");
    for (std::size_t d = 0; d < PD; d++) {
      auto t = s;
      t.OrderElevateAlongParametricDimension(d);
      Deg e{};
      e[d] = 1;
      if (!same_functionR(c, t, r, e, 1e-11L, cat("elevated in ", d, " after history"))) return;
    }
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? 28 : PD == 2 ? (L == 2 ? 10 : L ? 5 : 2) : PD == 3 ? (L == 2 ? 5 : L ? 3 : 1) : PD == 4 ? (L == 2 ? 3 : L ? 2 : 1) : L ? 2 : 1;
  const int len = PD == 1 ? 8 : PD == 2 ? 4 : 3;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{20, 1}, {1, 20}, {0, 12}, {12, 0}, {9, 7}};
  if (PD == 3) extra = {{0, 0, 9}, {9, 0, 0}, {0, 9, 0}, {6, 1, 4}, {1, 6, 2}};
  if (PD == 4) extra = {{0, 0, 0, 5}, {5, 0, 1, 0}, {0, 4, 0, 2}, {2, 1, 4, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 4}, {3, 0, 1, 0, 0}, {0, 2, 0, 1, 1}, {1, 0, 2, 1, 2}};
  auto each = [&](const Deg &d) {
    const int mx = PD >= 3 ? 400 : 2000;
    for (int pat : {GENERIC, MIXED, EQUAL, ALT, SPARSE, NEAREQ, HUGE_}) {
      shape<PD, double>(c, d, pat, pat == GENERIC ? len : 2, mx);
      if constexpr (PD <= 3) shape<PD, bezman::Point<3, double>>(c, d, pat, 2, mx);
    }
    if constexpr (PD <= 2) {
      shape<PD, bezman::Point<2, double>>(c, d, GENERIC, 2, mx);
      shape<PD, bezman::Point<1, double>>(c, d, GENERIC, 2, mx);
      shape<PD, long double>(c, d, GENERIC, 2, mx);
      shape<PD, bezman::Point<2, float>>(c, d, GENERIC, 2, mx);
    }
    for (int wp : {WGEN, WONE, WRATIO, WDEV, WNEAR, WTINY}) {
      shapeR<PD, double>(c, d, GENERIC, wp, wp == WGEN ? std::min(len, 3) : 1, mx);
      if constexpr (PD <= 3) shapeR<PD, bezman::Point<3, double>>(c, d, GENERIC, wp, 1, mx);
    }
    shapeR<PD, double>(c, d, EQUAL, WGEN, 1, mx);
    shapeR<PD, double>(c, d, SPARSE, WDEV, 1, mx);
    units<PD>(c, d);
  };
  for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  // beyond the binomial table, around powers of two, and long chains
  std::vector<Deg> far;
  if (PD == 1) far = {{31}, {33}, {63}, {64}, {66}, {100}, {127}, {128}, {255}, {256}};
  if (PD == 2) far = {{70, 1}, {1, 130}, {33, 20}};
  if (PD == 3) far = {{0, 0, 66}, {33, 1, 1}, {1, 65, 0}};
  for (auto &d : far) {
    shape<PD, double>(c, d, GENERIC, PD == 1 ? 2 : 1, 2000);
    shape<PD, bezman::Point<2, double>>(c, d, MIXED, 1, 2000);
    shapeR<PD, double>(c, d, GENERIC, WGEN, 1, 2000);
  }
  if constexpr (PD <= 3) {
    for (const std::vector<int> &period : std::vector<std::vector<int>>{{0}, {PD - 1}, {0, PD - 1}, {PD - 1, PD - 1, 0}, {0, 0, 0, PD - 1}}) {
      std::vector<int> q;
      for (int i = 0; i < (PD == 1 ? 40 : PD == 2 ? 16 : 10); i++) q.push_back(period[i % period.size()]);
      chain<PD, double>(c, Deg{1}, GENERIC, q, 3000);
      chain<PD, bezman::Point<2, double>>(c, Deg{2}, GENERIC, q, 3000);
      chainR<PD, double>(c, Deg{1}, GENERIC, WGEN, q, 3000);
    }
  }
  const int dep = L == 2 && PD < 5 ? 3 : L ? 2 : 1;
  hist<PD, double>(c, dep);
  hist<PD, bezman::Point<2, double>>(c, dep);
  histR<PD, double>(c, dep);
  histR<PD, bezman::Point<2, double>>(c, dep);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  shape<4, double>(c, {16, 15, 16, 17}, GENERIC, 1, 1000000);
  shape<4, double>(c, {15, 15, 15, 15}, GENERIC, 1, 1000000);
  shapeR<4, double>(c, {16, 15, 16, 17}, GENERIC, WGEN, 1, 1000000);
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

// C03: polynomial derivatives are the true partial derivatives.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

// scale of the o-th derivative: prod p!/(p-k)! 2^k times the coefficients
inline std::vector<LD> dscale(const RP &r, const Deg &o) {
  LD f = 1;
  for (int d = 0; d < r.pd; d++) f *= std::max<LD>(1, fall(r.deg[d], std::min(o[d], r.deg[d]))) * ipow(2, o[d]);
  std::vector<LD> s = scales(r);
  for (auto &v : s) v *= f;
  return s;
}

template <class S>
void judge(Ctx &c, const S &s, const RP &r, const Deg &o, const Nodes &g, LD tol, const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using P = typename S::PhysicalPointType_;
  using T = ScalarOf<P>;
  const auto ord = adeg<PD>(o);
  bool above = false;
  for (std::size_t d = 0; d < PD; d++) above |= o[d] > r.deg[d];
  const S closed = s.DerivativeWRTParametricDimension(ord);
  const RP rc = toRP(closed);
  if (!above)
    for (std::size_t d = 0; d < PD; d++)
      if (!c.expect(rc.deg[d] == r.deg[d] - o[d], cat(what, " degree of the derivative spline, direction ", d))) return;
  const auto sc = dscale(r, o);
  const std::vector<LD> exp = grid(r, g, o);
  const std::vector<LD> clo = grid(rc, g);
  if (!cmp_grid(c, clo, exp, r.dim, sc, tol, g, cat(what, " derivative spline, orders ", dstr(PD, o)))) return;
  const int n = r.n();
  for (size_t i = 0; i < ngrid(g); i++) {
    const Pt x = gpoint(g, i);
    const auto px = apt<PD, T>(x);
    const P v = s.EvaluateDerivative(px, ord);
    const P w = closed.Evaluate(px);
    for (int k = 0; k < r.dim; k++) {
      c.close(VT<P>::get(v, k), exp[i * r.dim + k], sc[k], tol,
              [&] { return cat(what, " EvaluateDerivative orders ", dstr(PD, o), " coordinate ", k, " at (", lst(x), ")"); });
      c.close(VT<P>::get(w, k), exp[i * r.dim + k], sc[k], tol, [&] {
        return cat(what, " derivative spline evaluated, orders ", dstr(PD, o), " coordinate ", k, " at (", lst(x), ")");
      });
    }
    c.transitions += 2;
    // basis function derivatives
    const auto contr = s.BasisFunctionsDerivativeContributions(px, ord);
    const auto all = s.BasisFunctionsDerivatives(px, ord);
    if (!c.expect(all.size() == size_t(n), cat(what, " number of basis function derivatives"))) return;
    std::vector<LD> full(1, 1), fs(1, 1);
    for (std::size_t d = 0; d < PD; d++) {
      const auto b = bern_d(r.deg[d], x[d], o[d]);
      if (!c.expect(contr[d].size() == b.size(), cat(what, " number of contributions"))) return;
      const LD bs = std::max<LD>(1, fall(r.deg[d], std::min(o[d], r.deg[d]))) * ipow(2, o[d]);
      std::vector<LD> nf;
      for (size_t a = 0; a < b.size(); a++) {
        c.close(contr[d][a], b[a], bs, tol, [&] {
          return cat(what, " contribution ", d, "/", a, " orders ", dstr(PD, o), " at (", lst(x), ")");
        });
        for (auto f : full) nf.push_back(f * b[a]);
      }
      fs[0] *= bs;
      full.swap(nf);
    }
    std::vector<LD> sum(r.dim, 0);
    for (int a = 0; a < n; a++) {
      c.close(all[a], full[a], fs[0], tol,
              [&] { return cat(what, " basis derivative ", a, " orders ", dstr(PD, o), " at (", lst(x), ")"); });
      for (int k = 0; k < r.dim; k++) sum[k] += all[a] * r.at(a, k);
    }
    for (int k = 0; k < r.dim; k++)
      c.close(sum[k], exp[i * r.dim + k], sc[k] * n, tol,
              [&] { return cat(what, " control point sum over basis derivatives, orders ", dstr(PD, o)); });
    c.transitions += 2;
    if (c.failed_here) return;
  }
}

template <std::size_t PD, class P>
void shape(Ctx &c, const Deg &d, int pat, int extra) {
  const bool fl = sizeof(ScalarOf<P>) == 4;
  const LD tol = fl ? 5e-5L : 1e-12L;
  Deg hi{};
  int m = 0;
  for (std::size_t i = 0; i < PD; i++) {
    hi[i] = d[i] + extra;
    m = std::max(m, hi[i]);
  }
  for_degs(PD, 0, m, [&](const Deg &o) {
    for (std::size_t i = 0; i < PD; i++)
      if (o[i] > hi[i]) return;
    c.scenario(
        [&] { return cat("deriv/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/orders ", dstr(PD, o)); },
        [&] {
          const auto s = make<PD, P>(d, pat);
          see(c, s);
          const RP r = toRP(s);
          Deg gd{};
          for (std::size_t i = 0; i < PD; i++) gd[i] = std::min(d[i], PD == 1 ? 12 : PD == 2 ? 5 : 2);
          Nodes g = nodes(PD, gd);
          if (PD == 1) {
            g[0].push_back(0.25);
            g[0].push_back(0.1);
            g[0].push_back(0.75);
          }
          if (fl)
            for (auto &v : g)
              for (auto &t : v) t = static_cast<float>(t);
          judge(c, s, r, o, g, tol, "");
          c.expect(toRP(s).c == r.c, "spline changed by differentiation");
        });
  });
}
template <std::size_t PD>
void units(Ctx &c, const Deg &d) {  // complete basis of the coefficient space, coefficient exact closed form
  int n = 1;
  for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
  for_degs(PD, 0, 2, [&](const Deg &o) {
    c.scenario([&] { return cat("units/", PD, "D/", dstr(PD, d), "/orders ", dstr(PD, o)); }, [&] {
      const Nodes g = nodes(PD, d);
      for (int u = 0; u < n; u++) {
        BS<PD, double> s(adeg<PD>(d));
        s.GetControlPoints()[u] = 1;
        const RP r = toRP(s);
        const RP q = toRP(s.DerivativeWRTParametricDimension(adeg<PD>(o)));
        cmp_grid(c, grid(q, g), grid(r, g, o), 1, dscale(r, o), 1e-12L, g, cat("unit ", u));
        c.transitions++;
      }
    });
  });
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
    Deg one{}, two{}, mixed{};
    one[0] = 1;
    two[PD - 1] = 2;
    for (std::size_t i = 0; i < PD; i++) mixed[i] = 1;
    Pt x{};
    for (std::size_t i = 0; i < PD; i++) x[i] = i % 2 ? 0.75 : 0.25;
    const auto px = apt<PD, double>(x);
    if (!judged) {
      s.EvaluateDerivative(px, adeg<PD>(one));
      s.DerivativeWRTParametricDimension(adeg<PD>(one));
      s.BasisFunctionsDerivatives(px, adeg<PD>(two));
      return;
    }
    see(c, s);
    const RP r = toRP(s);
    Deg gd{};
    for (std::size_t i = 0; i < PD; i++) gd[i] = std::min(r.deg[i], PD == 1 ? 10 : 2);
    Nodes g = nodes(PD, gd);
    for (std::size_t i = 0; i < PD; i++) g[i].push_back(x[i]);
    for (const Deg &o : {one, two, mixed, Deg{}})
      if (!c.failed_here) judge(c, s, r, o, g, 1e-12L, "after history");
  });
}

template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? 29 : PD == 2 ? (L == 2 ? 8 : L ? 4 : 2) : PD == 3 ? (L == 2 ? 4 : L ? 2 : 1) : PD == 4 && L == 2 ? 2 : 1;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{17, 1}, {1, 17}, {9, 5}, {0, 12}};
  if (PD == 3) extra = {{0, 0, 7}, {7, 0, 0}, {0, 7, 0}, {4, 1, 3}, {1, 4, 2}};
  if (PD == 4) extra = {{0, 0, 0, 4}, {4, 0, 1, 0}, {2, 1, 3, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 4}, {3, 0, 1, 0, 0}, {0, 2, 0, 1, 1}, {1, 0, 2, 1, 2}};
  auto each = [&](const Deg &d) {
    const int ex = PD <= 2 ? 2 : 1;
    for (int pat : {GENERIC, ALT, MIXED, EQUAL, NEAREQ, SPARSE, HUGE_, CLOSED}) {
      shape<PD, double>(c, d, pat, ex);
      if (PD > 2 && L < 2 && pat > EQUAL) break;
    }
    if constexpr (PD <= 3) shape<PD, bezman::Point<3, double>>(c, d, GENERIC, ex);
    if constexpr (PD <= 2) {
      shape<PD, bezman::Point<2, double>>(c, d, MIXED, 1);
      shape<PD, bezman::Point<1, double>>(c, d, GENERIC, 1);
      shape<PD, long double>(c, d, GENERIC, 1);
      if (d[0] < 9) shape<PD, bezman::Point<2, float>>(c, d, GENERIC, 1);
    }
    units<PD>(c, d);
  };
  for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  hist<PD, double>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
  hist<PD, bezman::Point<2, double>>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  const Deg d{16, 15, 16, 17};
  for (const Deg &o : {Deg{1, 0, 0, 0}, Deg{0, 0, 0, 1}, Deg{0, 2, 0, 1}, Deg{1, 1, 1, 1}, Deg{0, 16, 0, 0}})
    c.scenario([&] { return cat("huge/", dstr(4, d), "/", dstr(4, o)); },
               [&] {
                 const auto s = make<4, double>(d, GENERIC);
                 judge(c, s, toRP(s), o, Nodes{{.25L, .75L}, {.5L}, {.125L}, {.625L}}, 1e-11L, "huge");
               });
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

// C04: rational derivatives are the true partial derivatives.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

inline std::vector<LD> rscale(const RR &r, const Deg &o) {
  std::vector<LD> s(r.num.dim, 0);
  LD wmin = r.w.at(0, 0), wmax = wmin, f = 1;
  for (int i = 0; i < r.num.n(); i++) {
    wmin = std::min(wmin, r.w.at(i, 0));
    wmax = std::max(wmax, r.w.at(i, 0));
    for (int k = 0; k < r.num.dim; k++) s[k] = std::max(s[k], std::fabs(r.num.at(i, k) / r.w.at(i, 0)));
  }
  for (int d = 0; d < r.num.pd; d++)
    for (int i = 0; i < o[d]; i++) f *= 2 * (i + 1) * std::max<LD>(1, r.num.deg[d]) * std::min<LD>(wmax / wmin, 20);
  for (auto &v : s) v *= f;
  return s;
}
template <class S>
bool closed_ok(const S &s, const Deg &o) {
  int tot = 0;
  long n = 1;
  for (std::size_t d = 0; d < S::kParametricDimensions; d++) tot += o[d];
  if (tot > 4) return false;
  for (std::size_t d = 0; d < S::kParametricDimensions; d++) {
    const long e = static_cast<long>(s.GetDegrees()[d]) << tot;
    if (e > 28) return false;
    n *= e + 1;
  }
  return n <= (S::kParametricDimensions <= 2 ? 300 : 150);
}
template <class S>
void judge(Ctx &c, const S &s, const RR &r, const Deg &o, const Nodes &g, LD tol, const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using P = typename S::PhysicalPointType_;
  using T = ScalarOf<P>;
  const auto ord = adeg<PD>(o);
  const auto sc = rscale(r, o);
  const bool cl = closed_ok(s, o);
  S closed;
  RR rc;
  if (cl) {
    closed = s.DerivativeWRTParametricDimension(ord);
    rc = toRR(closed);
    c.counter("closed_form");
  }
  const int n = r.w.n();
  for (size_t i = 0; i < ngrid(g); i++) {
    const Pt x = gpoint(g, i);
    const auto px = apt<PD, T>(x);
    const auto exp = r.deriv(x, o);
    const P v = s.EvaluateDerivative(px, ord);
    for (int k = 0; k < r.num.dim; k++)
      c.close(VT<P>::get(v, k), exp[k], sc[k], tol,
              [&] { return cat(what, " EvaluateDerivative orders ", dstr(PD, o), " coordinate ", k, " at (", lst(x), ")"); });
    if (cl) {
      const auto a = rc.eval(x);
      const P b = closed.Evaluate(px);
      for (int k = 0; k < r.num.dim; k++) {
        c.close(a[k], exp[k], sc[k], tol,
                [&] { return cat(what, " derivative spline orders ", dstr(PD, o), " coordinate ", k, " at (", lst(x), ")"); });
        c.close(VT<P>::get(b, k), exp[k], sc[k], tol,
                [&] { return cat(what, " evaluated derivative spline orders ", dstr(PD, o), " coordinate ", k, " at (", lst(x), ")"); });
      }
    }
    const auto all = s.BasisFunctionsDerivatives(px, ord);
    if (!c.expect(all.size() == size_t(n), cat(what, " number of basis function derivatives"))) return;
    std::vector<LD> sum(r.num.dim, 0);
    LD tot = 0;
    for (int a = 0; a < n; a++) {
      tot += all[a];
      for (int k = 0; k < r.num.dim; k++) sum[k] += all[a] * (r.num.at(a, k) / r.w.at(a, 0));
    }
    LD bs = 1;
    for (int k = 0; k < r.num.dim; k++) {
      c.close(sum[k], exp[k], sc[k] * n, tol,
              [&] { return cat(what, " unweighted control point sum over basis derivatives, orders ", dstr(PD, o), " at (", lst(x), ")"); });
    }
    RR one = r;  // derivative of the constant one
    one.num = r.w;
    bs = rscale(one, o)[0];
    bool zero = true;
    for (std::size_t d = 0; d < PD; d++) zero &= o[d] == 0;
    c.close(tot, zero ? 1 : 0, bs * n, tol, [&] { return cat(what, " basis derivatives do not sum to a constant's derivative"); });
    // each basis function on its own
    if (i % 3 == 1 || ngrid(g) < 4)
      for (int a = 0; a < n; a++) {
        RR q = r;
        q.num = r.w;
        for (int b = 0; b < n; b++)
          if (b != a) q.num.c[b] = 0;
        c.close(all[a], q.deriv(x, o)[0], bs, tol,
                [&] { return cat(what, " basis function ", a, " derivative orders ", dstr(PD, o), " at (", lst(x), ")"); });
      }
    c.transitions += 3;
    if (c.failed_here) return;
  }
}

template <std::size_t PD, class P>
void shape(Ctx &c, const Deg &d, int pat, int wpat, int maxtot, int least = 0, int each = 99) {
  const bool fl = sizeof(ScalarOf<P>) == 4;
  const LD tol = fl ? 5e-5L : 1e-11L;
  for_degs(PD, 0, std::min(maxtot, each), [&](const Deg &o) {
    int tot = 0;
    for (std::size_t i = 0; i < PD; i++) tot += o[i];
    if (tot > maxtot || tot < least) return;
    c.scenario(
        [&] {
          return cat("deriv/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/", wpatname(wpat), "/orders ",
                     dstr(PD, o));
        },
        [&] {
          const auto s = makeR<PD, P>(d, pat, wpat);
          seeR(c, s);
          const RR r = toRR(s);
          Nodes g;
          for (std::size_t i = 0; i < PD; i++) {
            std::vector<LD> v = PD == 1 ? std::vector<LD>{0, 0.1L, 0.25L, 0.5L, 0.625L, 0.75L, 0.9L, 1}
                                        : PD == 2 ? std::vector<LD>{0, 0.25L, 0.7L, 1} : std::vector<LD>{0, 0.375L, 1};
            if (fl)
              for (auto &t : v) t = static_cast<float>(t);
            else
              for (auto &t : v) t = static_cast<double>(t);
            g.push_back(v);
          }
          judge(c, s, r, o, g, tol, "");
          const RR q = toRR(s);
          c.expect(q.num.c == r.num.c && q.w.c == r.w.c, "spline changed by differentiation");
        });
  });
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<RatHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](const RS<PD, P> &s, bool judged) {
    Deg one{}, two{}, mixed{};
    one[0] = 1;
    two[PD - 1] = 2;
    mixed[0] = 1;
    mixed[PD - 1] += 1;
    Pt x{};
    for (std::size_t i = 0; i < PD; i++) x[i] = i % 2 ? 0.75 : 0.25;
    const auto px = apt<PD, double>(x);
    if (!judged) {
      s.EvaluateDerivative(px, adeg<PD>(one));
      if (closed_ok(s, one)) s.DerivativeWRTParametricDimension(adeg<PD>(one));
      s.BasisFunctionsDerivatives(px, adeg<PD>(two));
      return;
    }
    seeR(c, s);
    const RR r = toRR(s);
    for (auto w : r.w.c)
      if (!(w > 0)) {
        c.counter("weights_not_positive");
        return;
      }
    Nodes g;
    for (std::size_t i = 0; i < PD; i++) {
      if (PD <= 2)
        g.push_back({0, x[i], 0.5L, 1});
      else
        g.push_back({0, x[i]});
    }
    for (const Deg &o : {one, two, mixed, Deg{}})
      if (!c.failed_here) judge(c, s, r, o, g, 1e-10L, "after history");
  });
}

template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? (L == 2 ? 20 : 10) : PD == 2 ? (L == 2 ? 5 : L ? 3 : 2) : PD == 3 ? (L == 2 ? 3 : L ? 2 : 1) : PD == 4 && L == 2 ? 2 : 1;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{8, 1}, {1, 8}, {0, 9}, {5, 3}};
  if (PD == 3) extra = {{0, 0, 5}, {5, 0, 0}, {0, 5, 0}, {3, 1, 2}, {1, 3, 0}};
  if (PD == 4) extra = {{0, 0, 0, 3}, {3, 0, 1, 0}, {0, 2, 0, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 2}, {2, 0, 1, 0, 0}, {0, 1, 0, 2, 0}, {0, 0, 0, 0, 0}, {0, 1, 0, 0, 1}, {0, 0, 1, 0, 1}, {0, 1, 1, 0, 0}};
  auto each = [&](const Deg &d) {
    for (int wp : {WGEN, WONE, WEQ, WRATIO, WDEV, WNEAR, WLAST}) {
      const int mt = wp == WRATIO ? 2 : PD == 1 ? 4 : PD == 2 ? 3 : 2;
      shape<PD, double>(c, d, GENERIC, wp, mt);
      if (PD <= 2 || L == 2) {
        shape<PD, double>(c, d, MIXED, wp, 2);
        shape<PD, double>(c, d, EQUAL, wp, 2);
        shape<PD, double>(c, d, ALT, wp, 2);
        shape<PD, double>(c, d, SPARSE, wp, 2);
      }
      if constexpr (PD <= 3) shape<PD, bezman::Point<3, double>>(c, d, GENERIC, wp, PD == 1 ? 3 : 2);
      if constexpr (PD <= 2) {
        shape<PD, bezman::Point<1, double>>(c, d, GENERIC, wp, 2);
        shape<PD, long double>(c, d, GENERIC, wp, 2);
        if (d[0] + d[1] < 5 && wp != WRATIO) shape<PD, bezman::Point<2, float>>(c, d, GENERIC, wp, 1);
      }
    }
  };
  if (PD < 5 || L == 2) for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  // higher orders: mixed ones of every direction at once, and above the degree
  {
    std::vector<Deg> low;
    int up = 0, base = 0;
    if (PD == 1) low = {{0}, {1}, {2}, {3}, {4}, {6}, {9}}, up = L == 2 ? 10 : 8, base = 5;
    if (PD == 2) low = {{1, 1}, {2, 1}, {1, 2}, {2, 3}, {0, 2}, {3, 3}}, up = L ? 4 : 3, base = 4;
    if (PD == 3) low = {{1, 1, 1}, {2, 1, 0}, {0, 1, 2}, {2, 2, 1}}, up = L ? 2 : 1, base = 3;
    if (PD == 4) low = {{1, 1, 1, 1}, {1, 0, 2, 1}}, up = L == 2 ? 2 : 1, base = 3;
    if (PD == 5) low = {{1, 1, 1, 1, 1}, {0, 1, 1, 1, 0}}, up = 1, base = 3;
    for (auto &d : low)
      for (int wp : {WGEN, WDEV}) {
        shape<PD, double>(c, d, GENERIC, wp, 99, base, up);
        if constexpr (PD <= 3) shape<PD, bezman::Point<3, double>>(c, d, MIXED, wp, 99, base, up);
      }
  }
  hist<PD, double>(c, L == 2 && PD < 4 ? 3 : L ? 2 : 1);
  hist<PD, bezman::Point<2, double>>(c, L == 2 && PD < 4 ? 3 : L ? 2 : 1);
}
void explore(Ctx &c) { explore_<PART>(c); }

// C02: rational evaluation equals the weighted Bernstein quotient.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

inline std::vector<LD> rscale(const RR &r) {
  std::vector<LD> s(r.num.dim, 0);
  for (int i = 0; i < r.num.n(); i++)
    for (int k = 0; k < r.num.dim; k++)
      s[k] = std::max(s[k], std::fabs(r.num.at(i, k) / r.w.at(i, 0)));
  return s;
}

template <class S>
void judge_at(Ctx &c, const S &s, const RR &r, const std::vector<LD> &sc, const Pt &x, LD tol,
              const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using P = typename S::PhysicalPointType_;
  using T = ScalarOf<P>;
  const auto px = apt<PD, T>(x);
  const std::vector<LD> exp = r.eval(x);
  auto cmp = [&](const P &got, const char *name) {
    for (int k = 0; k < r.num.dim; k++)
      c.close(VT<P>::get(got, k), exp[k], sc[k], tol,
              [&] { return cat(what, " ", name, " coordinate ", k, " at (", lst(x), ")"); });
  };
  cmp(s.Evaluate(px), "Evaluate");
  cmp(s.ForwardEvaluate(px), "ForwardEvaluate");
  if constexpr (PD == 1) {
    cmp(s.Evaluate(px[0]), "Evaluate(t)");
    cmp(s.ForwardEvaluate(px[0]), "ForwardEvaluate(t)");
  } else if constexpr (PD == 2) {
    cmp(s.Evaluate(px[0], px[1]), "Evaluate(t,u)");
    cmp(s.ForwardEvaluate(px[0], px[1]), "ForwardEvaluate(t,u)");
  } else if constexpr (PD == 3) {
    cmp(s.Evaluate(px[0], px[1], px[2]), "Evaluate(t,u,v)");
    cmp(s.ForwardEvaluate(px[0], px[1], px[2]), "ForwardEvaluate(t,u,v)");
  }
  c.transitions += 2;
}
template <class S>
void judge_basis(Ctx &c, const S &s, const RR &r, const Pt &x, LD tol) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using P = typename S::PhysicalPointType_;
  using T = ScalarOf<P>;
  const auto px = apt<PD, T>(x);
  const auto contr = s.BasisFunctionContributions(px);
  const auto all = s.BasisFunctions(px);
  const auto un = s.UnweightedBasisFunctions(px);
  std::vector<std::vector<LD>> b;
  for (std::size_t d = 0; d < PD; d++) {
    b.push_back(bern(r.w.deg[d], x[d]));
    if (!c.expect(contr[d].size() == b[d].size(), "contribution list length")) return;
    for (size_t i = 0; i < b[d].size(); i++)
      c.close(contr[d][i], b[d][i], 1, tol,
              [&] { return cat("contribution ", d, "/", i, " at (", lst(x), ")"); });
  }
  const int n = r.w.n();
  if (!c.expect(all.size() == size_t(n) && un.size() == size_t(n), "basis list length")) return;
  const LD W = r.w.eval(x)[0];
  LD sum = 0;
  for (int i = 0; i < n; i++) {
    LD e = 1;
    int id = i;
    for (std::size_t d = 0; d < PD; d++) {
      e *= b[d][id % (r.w.deg[d] + 1)];
      id /= r.w.deg[d] + 1;
    }
    sum += all[i];
    c.expect(all[i] >= 0, "negative rational basis function");
    c.close(all[i], e * r.w.at(i, 0) / W, 1, tol,
            [&] { return cat("basis function ", i, " at (", lst(x), ")"); });
    c.close(un[i], e / W, 1 / r.w.at(i, 0), tol,
            [&] { return cat("unweighted basis function ", i, " at (", lst(x), ")"); });
  }
  c.close(sum, 1, 1, tol, [&] { return std::string("rational basis functions do not sum to one"); });
  // the same through the form that takes one coordinate per argument
  auto same = [&](const auto &got, const auto &exp, const std::string &what) {
    if (!c.expect(got.size() == exp.size(), what + ": length")) return;
    for (size_t i = 0; i < got.size(); i++)
      c.close(got[i], exp[i], 1, tol, [&] { return cat(what, " entry ", i, " at (", lst(x), ")"); });
  };
  auto same_all = [&](const auto &got, const std::string &what) {
    for (std::size_t d = 0; d < PD; d++) same(got[d], contr[d], what);
  };
  if constexpr (PD == 1) {
    same_all(s.BasisFunctionContributions(px[0]), "BasisFunctionContributions(px[0])");
    same(s.BasisFunctions(px[0]), all, "BasisFunctions(px[0])");
    same(s.UnweightedBasisFunctions(px[0]), un, "UnweightedBasisFunctions(px[0])");
  } else if constexpr (PD == 2) {
    same_all(s.BasisFunctionContributions(px[0], px[1]), "BasisFunctionContributions(px[0], px[1])");
    same(s.BasisFunctions(px[0], px[1]), all, "BasisFunctions(px[0], px[1])");
    same(s.UnweightedBasisFunctions(px[0], px[1]), un, "UnweightedBasisFunctions(px[0], px[1])");
  } else if constexpr (PD == 3) {
    same_all(s.BasisFunctionContributions(px[0], px[1], px[2]), "BasisFunctionContributions(px[0], px[1], px[2])");
    same(s.BasisFunctions(px[0], px[1], px[2]), all, "BasisFunctions(px[0], px[1], px[2])");
    same(s.UnweightedBasisFunctions(px[0], px[1], px[2]), un, "UnweightedBasisFunctions(px[0], px[1], px[2])");
  }
  c.transitions += 3;
}

template <std::size_t PD, class P>
void shape(Ctx &c, const Deg &d, int pat, int wpat, bool full) {
  const bool fl = sizeof(ScalarOf<P>) == 4;
  const LD tol = fl ? 2e-5L : 1e-12L;
  c.scenario(
      [&] { return cat("eval/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat), "/", wpatname(wpat)); },
      [&] {
        const auto s = makeR<PD, P>(d, pat, wpat);
        seeR(c, s);
        // reference from the data given to the constructor, not from s
        int n = 1;
        for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
        std::vector<LD> pts, w;
        dataR<P>(n, pat, wpat, 1, pts, w);
        RR r;
        r.num.pd = r.w.pd = PD;
        r.num.dim = VT<P>::dim;
        r.num.deg = r.w.deg = d;
        r.w.c = w;
        for (int i = 0; i < n; i++)
          for (int k = 0; k < r.num.dim; k++) r.num.c.push_back(pts[i * r.num.dim + k] * w[i]);
        const auto sc = rscale(r);
        const RR before = toRR(s);
        // equal weights: the polynomial spline with the same control points
        const bool equal = wpat == WONE || wpat == WEQ;
        const auto poly = make<PD, P>(d, pat);
        const RS<PD, P> conv(poly);
        Nodes g;
        for (std::size_t i = 0; i < PD; i++) {
          std::vector<LD> v = nodes1(d[i]);
          if (d[i] == 0) v = {0, 0.5L, 1};
          if (full)
            for (double t : {1e-300, 5e-324, 1e-17, 1e-9, 1.0 / 3, 0.25, 0.75, 0.1, 0.999999999,
                             1 - 1.1102230246251565e-16, -0.0})
              v.push_back(t);
          if (fl)
            for (auto &t : v) t = static_cast<float>(t);
          g.push_back(v);
        }
        for (size_t i = 0; i < ngrid(g); i++) {
          const Pt x = gpoint(g, i);
          judge_at(c, s, r, sc, x, tol, "");
          if (pat == GENERIC && VT<P>::dim == 1) judge_basis(c, s, r, x, tol);
          if (equal) {
            const auto px = apt<PD, ScalarOf<P>>(x);
            const auto a = comps(poly.Evaluate(px)), b = comps(s.Evaluate(px)),
                       e = comps(conv.Evaluate(px)), f = comps(conv.ForwardEvaluate(px));
            for (int k = 0; k < r.num.dim; k++) {
              c.close(b[k], a[k], sc[k], tol, [&] { return std::string("equal weights differ from polynomial"); });
              c.close(e[k], a[k], sc[k], tol, [&] { return std::string("converted polynomial differs (Evaluate)"); });
              c.close(f[k], a[k], sc[k], tol, [&] { return std::string("converted polynomial differs (ForwardEvaluate)"); });
            }
          }
          if (c.failed_here) return;
        }
        const RR after = toRR(s);
        c.expect(after.num.c == before.num.c && after.w.c == before.w.c, "spline changed by evaluation");
      });
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<RatHist<PD, P>>(
      c, cat(PD, "D/", VT<P>::name()), depth, [&](const RS<PD, P> &s, bool judged) {
        Pt x{};
        for (std::size_t i = 0; i < PD; i++) x[i] = i % 2 ? 0.75 : 0.25;
        if (!judged) {
          const auto px = apt<PD, double>(x);
          s.Evaluate(px);
          s.ForwardEvaluate(px);
          s.BasisFunctions(px);
          return;
        }
        seeR(c, s);
        const RR r = toRR(s);
        for (auto w : r.w.c)
          if (!(w > 0)) {
            c.counter("weights_not_positive");
            return;
          }
        const auto sc = rscale(r);
        judge_at(c, s, r, sc, x, 1e-12L, "same parameters as before");
        judge_basis(c, s, r, x, 1e-12L);
        Deg gd{};
        for (std::size_t i = 0; i < PD; i++) gd[i] = std::min(r.w.deg[i], PD == 1 ? 14 : 3);
        const Nodes g = nodes(PD, gd);
        for (size_t i = 0; i < ngrid(g) && !c.failed_here; i++)
          judge_at(c, s, r, sc, gpoint(g, i), 1e-12L, "after history");
      });
}

template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? 29 : PD == 2 ? (L == 2 ? 10 : L ? 5 : 2) : PD == 3 ? (L == 2 ? 4 : L ? 2 : 1) : PD == 4 && L == 2 ? 2 : 1;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{29, 0}, {0, 29}, {12, 5}, {3, 14}};
  if (PD == 3) extra = {{0, 0, 9}, {9, 0, 0}, {0, 9, 0}, {5, 1, 3}, {1, 4, 2}, {3, 2, 5}};
  if (PD == 4) extra = {{0, 0, 0, 5}, {4, 0, 1, 0}, {0, 3, 0, 2}, {2, 1, 3, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 4}, {3, 0, 1, 0, 0}, {0, 2, 0, 1, 1}, {1, 0, 2, 1, 2}};
  auto each = [&](const Deg &d) {
    for (int wp = 0; wp < NWPAT; wp++) {
      for (int pat : {GENERIC, EQUAL, ALT, MIXED, NEAREQ, SPARSE, HUGE_}) {
        shape<PD, double>(c, d, pat, wp, PD == 1 || L == 2);
        if constexpr (PD <= 3) shape<PD, bezman::Point<3, double>>(c, d, pat, wp, PD == 1);
      }
      if constexpr (PD <= 2) {
        shape<PD, bezman::Point<2, double>>(c, d, GENERIC, wp, false);
        shape<PD, bezman::Point<1, double>>(c, d, GENERIC, wp, false);
        shape<PD, long double>(c, d, GENERIC, wp, false);
        shape<PD, bezman::Point<2, float>>(c, d, GENERIC, wp == WTINY ? WGEN + 0 : wp, false);
      }
    }
  };
  for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  hist<PD, double>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
  hist<PD, bezman::Point<2, double>>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  for (const Deg &d : {Deg{16, 15, 16, 17}})
    for (int w : {WGEN, WDEV})
      c.scenario([&] { return cat("huge/", dstr(4, d), "/", wpatname(w)); },
                 [&] {
                   const auto s = makeR<4, double>(d, GENERIC, w);
                   const RR r = toRR(s);
                   const auto sc = rscale(r);
                   for (const Pt &x : {Pt{.25, .75, .5, .125}, Pt{1, 0, .875, 1}, Pt{1, 1, 1, 1}}) judge_at(c, s, r, sc, x, 1e-11L, "huge");
                 });
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

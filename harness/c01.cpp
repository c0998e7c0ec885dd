// C01: polynomial evaluation equals the Bernstein definition.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

// Evaluate, ForwardEvaluate, BasisFunctions, BasisFunctionContributions of s
// at x, against the definition.
template <class S>
void judge_at(Ctx &c, const S &s, const RP &r, const Pt &x, LD tol,
              const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using P = typename S::PhysicalPointType_;
  using T = ScalarOf<P>;
  const auto px = apt<PD, T>(x);
  const std::vector<LD> exp = r.eval(x);
  auto cmp = [&](const P &got, const char *name) {
    for (int k = 0; k < r.dim; k++)
      c.close(VT<P>::get(got, k), exp[k], r.maxabs(k), tol,
              [&] { return cat(what, " ", name, " coordinate ", k, " at (", lst(x), ")"); });
  };
  cmp(s.Evaluate(px), "Evaluate");
  cmp(s.ForwardEvaluate(px), "ForwardEvaluate");
  if constexpr (PD == 1) {
    cmp(s.Evaluate(px[0]), "Evaluate(t)");
    cmp(s.ForwardEvaluate(px[0]), "ForwardEvaluate(t)");
  } else if constexpr (PD == 2) {
    cmp(s.Evaluate(px[0], px[1]), "Evaluate(t,u)");
    cmp(s.ForwardEvaluate(px[0], px[1]), "ForwardEvaluate(t,u)");
  } else if constexpr (PD == 3) {
    cmp(s.Evaluate(px[0], px[1], px[2]), "Evaluate(t,u,v)");
    cmp(s.ForwardEvaluate(px[0], px[1], px[2]), "ForwardEvaluate(t,u,v)");
  }
  c.transitions += 2;
}
template <class S>
void judge_basis(Ctx &c, const S &s, const RP &r, const Pt &x, LD tol) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using T = ScalarOf<typename S::PhysicalPointType_>;
  const auto px = apt<PD, T>(x);
  const auto contr = s.BasisFunctionContributions(px);
  const auto all = s.BasisFunctions(px);
  std::vector<std::vector<LD>> b;
  for (std::size_t d = 0; d < PD; d++) {
    b.push_back(bern(r.deg[d], x[d]));
    if (!c.expect(contr[d].size() == b[d].size(), "contribution list length"))
      return;
    LD sum = 0;
    for (size_t i = 0; i < b[d].size(); i++) {
      sum += contr[d][i];
      c.expect(contr[d][i] >= 0, "negative basis function contribution");
      c.close(contr[d][i], b[d][i], 1, tol,
              [&] { return cat("contribution ", d, "/", i, " at (", lst(x), ")"); });
    }
    c.close(sum, 1, 1, tol, [&] { return cat("contributions of direction ", d, " do not sum to one"); });
  }
  if (!c.expect(all.size() == static_cast<size_t>(r.n()), "basis function list length"))
    return;
  LD sum = 0;
  for (int i = 0; i < r.n(); i++) {
    LD e = 1;
    int id = i;
    for (std::size_t d = 0; d < PD; d++) {
      e *= b[d][id % (r.deg[d] + 1)];
      id /= r.deg[d] + 1;
    }
    sum += all[i];
    c.expect(all[i] >= 0, "negative basis function");
    c.close(all[i], e, 1, tol,
            [&] { return cat("basis function ", i, " at (", lst(x), ")"); });
  }
  c.close(sum, 1, 1, tol, [&] { return std::string("basis functions do not sum to one"); });
  // the same through the form that takes one coordinate per argument
  auto same = [&](const auto &got, const auto &exp, const std::string &what) {
    if (!c.expect(got.size() == exp.size(), what + ": length")) return;
    for (size_t i = 0; i < got.size(); i++)
      c.close(got[i], exp[i], 1, tol, [&] { return cat(what, " entry ", i, " at (", lst(x), ")"); });
  };
  auto same_all = [&](const auto &got, const std::string &what) {
    for (std::size_t d = 0; d < PD; d++) same(got[d], contr[d], what);
  };
  if constexpr (PD == 1) {
    same_all(s.BasisFunctionContributions(px[0]), "BasisFunctionContributions(px[0])");
    same(s.BasisFunctions(px[0]), all, "BasisFunctions(px[0])");
  } else if constexpr (PD == 2) {
    same_all(s.BasisFunctionContributions(px[0], px[1]), "BasisFunctionContributions(px[0], px[1])");
    same(s.BasisFunctions(px[0], px[1]), all, "BasisFunctions(px[0], px[1])");
  } else if constexpr (PD == 3) {
    same_all(s.BasisFunctionContributions(px[0], px[1], px[2]), "BasisFunctionContributions(px[0], px[1], px[2])");
    same(s.BasisFunctions(px[0], px[1], px[2]), all, "BasisFunctions(px[0], px[1], px[2])");
  }
  c.transitions += 2;
}

// parameters: unisolvent grid + places where a shortcut would branch
std::vector<LD> params(int n, bool full) {
  std::vector<LD> v = nodes1(n);
  auto add = [&](double x) {
    for (auto y : v)
      if (y == x) return;
    v.push_back(x);
  };
  add(0);
  add(1);
  add(0.5);
  if (full) {
    for (double x : {1e-300, 5e-324, 1e-17, 1e-9, 1.0 / 3, 0.25, 0.75, 0.1,
                     0.999999999, 1 - 1.1102230246251565e-16, -0.0})
      v.push_back(x);
  }
  return v;
}

template <std::size_t PD, class P>
void shape(Ctx &c, const Deg &d, int pat, bool full) {
  const LD tol = sizeof(ScalarOf<P>) == 4 ? 2e-5L : 1e-12L;
  c.scenario(
      [&] { return cat("eval/", PD, "D/", VT<P>::name(), "/", dstr(PD, d), "/", patname(pat)); },
      [&] {
        const auto s = make<PD, P>(d, pat);
        const RP r = toRP(s);
        see(c, s);
        Nodes g;
        for (std::size_t i = 0; i < PD; i++) {
          std::vector<LD> v = params(d[i], full);
          if (sizeof(ScalarOf<P>) == 4)
            for (auto &x : v) x = static_cast<float>(x);
          g.push_back(v);
        }
        for (size_t i = 0; i < ngrid(g); i++) {
          const Pt x = gpoint(g, i);
          judge_at(c, s, r, x, tol, "");
          if (pat == GENERIC && (VT<P>::dim == 1)) judge_basis(c, s, r, x, tol);
          if (c.failed_here) return;
        }
        // corner parameters give corner control points
        for (int m = 0; m < (1 << PD); m++) {
          Pt x{};
          int id = 0, st = 1;
          for (std::size_t i = 0; i < PD; i++) {
            x[i] = (m >> i) & 1;
            if (x[i] == 1) id += st * d[i];
            st *= d[i] + 1;
          }
          const auto a = comps(s.Evaluate(apt<PD, ScalarOf<P>>(x)));
          const auto b = comps(s.ForwardEvaluate(apt<PD, ScalarOf<P>>(x)));
          for (int k = 0; k < r.dim; k++) {
            c.close(a[k], r.at(id, k), r.maxabs(k), tol, [&] { return cat("corner ", m, " Evaluate"); });
            c.close(b[k], r.at(id, k), r.maxabs(k), tol, [&] { return cat("corner ", m, " ForwardEvaluate"); });
          }
        }
        c.expect(toRP(s).c == r.c, "spline changed by evaluation");
      });
}
// unit control point vectors: complete by linearity
template <std::size_t PD>
void units(Ctx &c, const Deg &d) {
  int n = 1;
  for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
  c.scenario([&] { return cat("unit/", PD, "D/", dstr(PD, d)); },
             [&] {
               const Nodes g = nodes(PD, d);
               for (int j = 0; j < n; j++) {
                 BS<PD, double> s(adeg<PD>(d));
                 s.GetControlPoints()[j] = 1;
                 const RP r = toRP(s);
                 see(c, s);
                 for (size_t i = 0; i < ngrid(g); i++)
                   judge_at(c, s, r, gpoint(g, i), 1e-12L, cat("unit vector ", j));
                 if (c.failed_here) return;
               }
             });
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(
      c, cat(PD, "D/", VT<P>::name()), depth, [&](const BS<PD, P> &s, bool judged) {
        const RP r = toRP(s);
        Pt x{};
        if (!judged) {  // prime: same parameters as will be judged later
          for (std::size_t i = 0; i < PD; i++) x[i] = i % 2 ? 0.75 : 0.25;
          s.Evaluate(apt<PD, double>(x));
          s.ForwardEvaluate(apt<PD, double>(x));
          s.BasisFunctions(apt<PD, double>(x));
          return;
        }
        see(c, s);
        for (std::size_t i = 0; i < PD; i++) x[i] = i % 2 ? 0.75 : 0.25;
        judge_at(c, s, r, x, 1e-12L, "same parameters as before");
        judge_basis(c, s, r, x, 1e-12L);
        Deg gd{};
        for (std::size_t i = 0; i < PD; i++) gd[i] = std::min(r.deg[i], PD == 1 ? 14 : 3);
        const Nodes g = nodes(PD, gd);
        for (size_t i = 0; i < ngrid(g) && !c.failed_here; i++)
          judge_at(c, s, r, gpoint(g, i), 1e-12L, "after history");
      });
}

template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? 29 : PD == 2 ? (L == 2 ? 12 : L ? 6 : 3) : PD == 3 ? (L == 2 ? 5 : L ? 3 : 1) : PD == 4 ? (L == 2 ? 3 : L ? 2 : 1) : L ? 2 : 1;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{29, 0}, {0, 29}, {1, 29}, {29, 2}, {15, 9}, {9, 20}, {7, 8}};
  if (PD == 2 && L == 2) extra.push_back({29, 29});
  if (PD == 3) extra = {{0, 0, 12}, {12, 0, 0}, {0, 12, 0}, {7, 1, 2}, {1, 7, 3}, {2, 1, 8}, {4, 5, 2}};
  if (PD == 4) extra = {{0, 0, 0, 7}, {5, 0, 1, 0}, {0, 5, 0, 1}, {1, 0, 4, 1}, {3, 1, 2, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 4}, {3, 0, 1, 0, 0}, {0, 2, 0, 1, 1}, {1, 0, 2, 1, 2}};
  auto each = [&](const Deg &d) {
    for (int pat = 0; pat < NPAT; pat++) {
      shape<PD, double>(c, d, pat, PD == 1 || L == 2);
      if constexpr (PD <= 3) {
        shape<PD, bezman::Point<2, double>>(c, d, pat, PD == 1);
        shape<PD, bezman::Point<3, double>>(c, d, pat, false);
      }
    }
    units<PD>(c, d);
    if constexpr (PD <= 2) {
      shape<PD, bezman::Point<1, double>>(c, d, GENERIC, false);
      shape<PD, bezman::Point<4, double>>(c, d, GENERIC, false);
      shape<PD, long double>(c, d, GENERIC, false);
      shape<PD, bezman::Point<2, float>>(c, d, GENERIC, false);
    }
  };
  for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  hist<PD, double>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
  hist<PD, bezman::Point<2, double>>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  for (const Deg &d : {Deg{16, 15, 16, 17}, Deg{29, 3, 29, 29}})
    c.scenario([&] { return cat("huge/", dstr(4, d)); },
               [&] {
                 const auto s = make<4, double>(d, GENERIC);
                 const RP r = toRP(s);
                 for (const Pt &x : {Pt{.25, .75, .5, .125}, Pt{1, 0, .875, 1}, Pt{1, 1, 1, 1}}) {
                   judge_at(c, s, r, x, 1e-12L, "huge");
                   judge_basis(c, s, r, x, 1e-12L);
                 }
               });
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

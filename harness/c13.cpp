// C13: control point addressing in every reachable state.
#include <utility>

#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

template <std::size_t PD>
std::array<std::size_t, PD> tuple_of(const Deg &d, int flat) {
  std::array<std::size_t, PD> r{};
  for (std::size_t i = 0; i < PD; i++) {
    r[i] = static_cast<std::size_t>(flat % (d[i] + 1));
    flat /= d[i] + 1;
  }
  return r;
}
template <std::size_t PD>
bool shape_ok(Ctx &c, const std::array<std::size_t, PD> &deg, std::size_t count, std::size_t len, const std::string &what, Deg &d) {
  std::size_t n = 1;
  for (std::size_t i = 0; i < PD; i++) {
    if (!c.expect(deg[i] < 100000, what + ": nonsensical degree")) return false;
    d[i] = static_cast<int>(deg[i]);
    n *= deg[i] + 1;
  }
  return c.expect(n == count && n == len, cat(what, ": ", n, " control points by degree, ", count, " reported, ", len, " stored"));
}
template <class S, std::size_t PD, std::size_t... I>
auto &vcp(S &s, const std::array<std::size_t, PD> &t, std::index_sequence<I...>) {
  return s.ControlPoint(t[I]...);
}
template <class S, std::size_t PD, std::size_t... I>
auto vcpv(S &s, const std::array<std::size_t, PD> &t, std::index_sequence<I...>) {
  return s.ControlPoint(static_cast<int>(t[I])...);
}
template <class S, std::size_t PD, std::size_t... I>
auto &vwcp(S &s, const std::array<std::size_t, PD> &t, std::index_sequence<I...>) {
  return s.WeightedControlPoint(t[I]...);
}
template <class S, std::size_t PD, std::size_t... I>
auto &vw(S &s, const std::array<std::size_t, PD> &t, std::index_sequence<I...>) {
  return s.Weight(t[I]...);
}
template <std::size_t PD, class P, class T>
bool addressing(Ctx &c, bezman::BezierSpline<PD, P, T> &s, const std::string &what) {
  Deg d{};
  const auto &cs = s;
  if (!shape_ok<PD>(c, cs.GetDegrees(), s.GetNumberOfControlPoints(), s.control_points.size(), what, d)) return false;
  c.expect(s.GetDegrees() == cs.GetDegrees() && &s.GetControlPoints() == &s.control_points && &cs.GetControlPoints() == &s.control_points, what + ": getters");
  const auto seq = std::make_index_sequence<PD>{};
  for (std::size_t i = 0; i < s.control_points.size(); i++) {
    const auto t = tuple_of<PD>(d, static_cast<int>(i));
    const P *at = &s.control_points[i];
    c.transitions++;
    if (!c.expect(s.LocalToGlobalIndex(i) == t, cat(what, ": LocalToGlobalIndex(", i, ") is (", lst(s.LocalToGlobalIndex(i)), ")"))) return false;
    if (!c.expect(s.GlobalToLocalIndex(t) == i, cat(what, ": GlobalToLocalIndex(", lst(t), ") is ", s.GlobalToLocalIndex(t)))) return false;
    if (!c.expect(&s.ControlPoint(t) == at, cat(what, ": ControlPoint(array ", lst(t), ")"))) return false;
    if (!c.expect(&cs.ControlPoint(t) == at, cat(what, ": ControlPoint(array ", lst(t), ") const"))) return false;
    if (!c.expect(&vcp(s, t, seq) == at, cat(what, ": ControlPoint(", lst(t), ")"))) return false;
    if (!c.expect(&vcp(cs, t, seq) == at, cat(what, ": ControlPoint(", lst(t), ") const"))) return false;
  }
  c.state(hcomb(hstr(dstr(PD, d)), PD));
  return true;
}
template <std::size_t PD, class P, class T>
bool addressing(Ctx &c, bezman::RationalBezierSpline<PD, P, T> &s, const std::string &what) {
  Deg d{}, dw{};
  const auto &cs = s;
  if (!shape_ok<PD>(c, s.GetDegrees(), s.GetNumberOfControlPoints(), s.GetWeightedControlPoints().size(), what, d)) return false;
  if (!shape_ok<PD>(c, s.GetWeightFunctionSpline().GetDegrees(), s.GetNumberOfControlPoints(), s.GetWeights().size(), what + " weights", dw)) return false;
  if (!c.expect(d == dw, what + ": degrees of weights differ")) return false;
  c.expect(&s.GetNumeratorSpline().control_points == &s.GetWeightedControlPoints() && &cs.GetWeightedControlPoints() == &s.GetWeightedControlPoints() &&
               &s.GetWeightFunctionSpline().control_points == &s.GetWeights() && &cs.GetWeights() == &s.GetWeights(),
           what + ": getters");
  const auto seq = std::make_index_sequence<PD>{};
  for (std::size_t i = 0; i < s.GetWeights().size(); i++) {
    const auto t = tuple_of<PD>(d, static_cast<int>(i));
    const P *at = &s.GetWeightedControlPoints()[i];
    const T *w = &s.GetWeights()[i];
    c.transitions++;
    if (!c.expect(s.LocalToGlobalIndex(i) == t, cat(what, ": LocalToGlobalIndex(", i, ") is (", lst(s.LocalToGlobalIndex(i)), ")"))) return false;
    if (!c.expect(s.GlobalToLocalIndex(t) == i, cat(what, ": GlobalToLocalIndex(", lst(t), ") is ", s.GlobalToLocalIndex(t)))) return false;
    if (!c.expect(&s.WeightedControlPoint(t) == at && &cs.WeightedControlPoint(t) == at, cat(what, ": WeightedControlPoint(array ", lst(t), ")"))) return false;
    if (!c.expect(&vwcp(s, t, seq) == at && &vwcp(cs, t, seq) == at, cat(what, ": WeightedControlPoint(", lst(t), ")"))) return false;
    if (!c.expect(&s.Weight(t) == w && &cs.Weight(t) == w, cat(what, ": Weight(array ", lst(t), ")"))) return false;
    if (!c.expect(&vw(s, t, seq) == w && &vw(cs, t, seq) == w, cat(what, ": Weight(", lst(t), ")"))) return false;
    if (*w == T{}) continue;
    const auto u = comps(s.ControlPoint(t)), v = comps(vcpv(cs, t, seq));
    const auto n = comps(*at);
    for (size_t k = 0; k < u.size(); k++) {
      const LD e = n[k] / static_cast<LD>(*w), tol = 4 * std::numeric_limits<T>::epsilon();
      if (!c.close(u[k], e, std::fabs(e), tol, [&] { return cat(what, ": ControlPoint(array ", lst(t), ") coordinate ", k); })) return false;
      if (!c.close(v[k], e, std::fabs(e), tol, [&] { return cat(what, ": ControlPoint(", lst(t), ") coordinate ", k); })) return false;
    }
  }
  c.state(hcomb(hstr(dstr(PD, d)), 100 + PD));
  return true;
}
template <std::size_t PD, class P>
void shapes(Ctx &c, const Deg &d) {
  c.scenario([&] { return cat("shape/", PD, "D/", VT<P>::name(), "/", dstr(PD, d)); },
             [&] {
               using S = BS<PD, P>;
               using R = RS<PD, P>;
               S a(adeg<PD>(d));
               addressing(c, a, "constructed from degrees");
               S b(adeg<PD>(d), make<PD, P>(d, GENERIC).GetControlPoints());
               addressing(c, b, "constructed from control points");
               S e(b);
               addressing(c, e, "copied");
               S f;
               c.expect(f.GetNumberOfControlPoints() == 0 && f.control_points.empty(), "default spline is not empty");
               f = b;
               addressing(c, f, "assigned");
               S g;
               g = S(b);
               addressing(c, g, "move assigned");
               S h;
               h.UpdateDegrees(adeg<PD>(d));
               addressing(c, h, "default spline with updated degrees");
               R r(adeg<PD>(d));
               addressing(c, r, "rational constructed from degrees");
               R r2 = makeR<PD, P>(d, GENERIC, WGEN);
               addressing(c, r2, "rational constructed from control points and weights");
               R r3(b);
               addressing(c, r3, "rational constructed from polynomial");
               R r4(r2.GetNumeratorSpline(), r2.GetWeightFunctionSpline());
               addressing(c, r4, "rational constructed from numerator and weights");
               R r5;
               c.expect(r5.GetNumberOfControlPoints() == 0 && r5.GetWeights().empty() && r5.GetWeightedControlPoints().empty(), "default rational is not empty");
               r5 = r2;
               addressing(c, r5, "rational assigned");
               R r6;
               r6.UpdateDegrees(adeg<PD>(d));
               addressing(c, r6, "default rational with updated degrees");
               // results of operations
               auto res = [&](auto &&s, const char *w) {
                 auto t = s;
                 addressing(c, t, w);
               };
               for (std::size_t k = 0; k < PD; k++) {
                 S t(b);
                 t.OrderElevateAlongParametricDimension(k);
                 addressing(c, t, "elevated");
                 R u(r2);
                 u.OrderElevateAlongParametricDimension(k);
                 addressing(c, u, "rational elevated");
                 std::array<std::size_t, PD> o{};
                 o[k] = 1;
                 res(b.DerivativeWRTParametricDimension(o), "derivative");
                 for (auto &x : b.SplitAtPosition(static_cast<ScalarOf<P>>(0.5), k)) res(x, "split");
                 for (auto &x : r2.SplitAtPosition(static_cast<ScalarOf<P>>(0.5), k)) res(x, "rational split");
               }
               bool in = true;
               for (std::size_t k = 0; k < PD; k++) in &= d[k] <= 10;
               if (in) {
                 res(b * b, "product");
                 res(r2 * r2, "rational product");
                 if (r2.GetNumberOfControlPoints() < 30) res(r2 + makeR<PD, P>(d, GENERIC, WDEV), "rational sum");
               }
               res(b.ExtractDimension(0), "extracted");
               res(r2.ExtractDimension(0), "rational extracted");
               res(b + b, "sum");
               res(-b, "negated");
               res(r2 + r2, "rational sum with shared weights");
             });
}
// many control points along one or all directions
template <std::size_t PD>
void bigshapes(Ctx &c) {
  std::vector<std::array<std::size_t, PD>> ds;
  if constexpr (PD == 1) ds = {{126}, {127}, {128}, {254}, {255}, {256}, {300}, {511}, {65534}, {65535}, {65536}, {70000}};
  if constexpr (PD == 2)
    ds = {{255, 1}, {1, 255}, {256, 3}, {300, 2}, {2, 300}, {127, 127}, {15, 15}, {255, 255}, {256, 256}, {1, 32767}, {32767, 1}, {300, 300}, {0, 65536}, {65536, 0}};
  if constexpr (PD == 3) ds = {{15, 15, 1}, {1, 15, 15}, {39, 39, 39}, {2, 255, 1}, {255, 1, 1}, {1, 1, 255}, {40, 40, 40}, {7, 7, 7}, {1, 256, 256}, {0, 300, 1}};
  if constexpr (PD == 4) ds = {{7, 7, 7, 1}, {1, 7, 7, 7}, {15, 15, 15, 15}, {16, 16, 16, 16}, {3, 3, 3, 255}, {255, 0, 1, 1}, {1, 300, 1, 1}};
  if constexpr (PD == 5) ds = {{3, 3, 3, 3, 1}, {7, 7, 7, 7, 3}, {9, 9, 9, 9, 9}, {1, 1, 300, 1, 1}};
  for (const auto &d : ds)
    c.scenario([&] { return cat("bigshape/", PD, "D/", lst(d)); },
               [&] {
                 using S = BS<PD, double>;
                 using R = RS<PD, double>;
                 S a(d);
                 for (std::size_t i = 0; i < a.control_points.size(); i++) a.control_points[i] = 1 + static_cast<double>(mix(i) % 1000);
                 if (!addressing(c, a, "constructed from degrees")) return;
                 S b(d, a.GetControlPoints());
                 addressing(c, b, "constructed from control points");
                 c.expect(b.control_points == a.control_points, "control points differ");
                 S e(b);
                 addressing(c, e, "copied");
                 S h;
                 h.UpdateDegrees(d);
                 addressing(c, h, "default spline with updated degrees");
                 R r(a);
                 addressing(c, r, "rational constructed from polynomial");
                 R r6;
                 r6.UpdateDegrees(d);
                 addressing(c, r6, "default rational with updated degrees");
                 // neighbours of every shape: reached by elevation, derivation, splitting
                 if (a.GetNumberOfControlPoints() > 40000) return;
                 for (std::size_t k = 0; k < PD; k++) {
                   S t(b);
                   t.OrderElevateAlongParametricDimension(k);
                   addressing(c, t, "elevated");
                   if (d[k] > 0) {
                     std::array<std::size_t, PD> o{};
                     o[k] = 1;
                     S x = b.DerivativeWRTParametricDimension(o);
                     addressing(c, x, "derivative");
                   }
                   if (d[k] < 400)
                     for (auto &x : b.SplitAtPosition(0.5, k)) {
                       S y = x;
                       addressing(c, y, "split");
                     }
                 }
                 S n = -b;
                 addressing(c, n, "negated");
                 S m = b + b;
                 addressing(c, m, "sum");
               });
}
// writing through one accessor is visible through every other and leaves all
// other control points alone
template <std::size_t PD>
void writes(Ctx &c, const Deg &d) {
  c.scenario([&] { return cat("write/", PD, "D/", dstr(PD, d)); },
             [&] {
               auto s = make<PD, double>(d, GENERIC);
               auto r = makeR<PD, double>(d, GENERIC, WGEN);
               const auto seq = std::make_index_sequence<PD>{};
               for (std::size_t i = 0; i < s.control_points.size(); i++) {
                 const auto t = tuple_of<PD>(d, static_cast<int>(i));
                 for (int form = 0; form < 2; form++) {
                   auto e = s.control_points;
                   e[i] = 1000 + i + form * 0.5;
                   (form ? vcp(s, t, seq) : s.ControlPoint(t)) = 1000 + i + form * 0.5;
                   if (!c.expect(s.GetControlPoints() == e, cat("write to (", lst(t), ")"))) return;
                   auto ep = r.GetWeightedControlPoints();
                   auto ew = r.GetWeights();
                   ep[i] = 2000 + i + form * 0.5;
                   (form ? vwcp(r, t, seq) : r.WeightedControlPoint(t)) = 2000 + i + form * 0.5;
                   if (!c.expect(r.GetWeightedControlPoints() == ep && r.GetWeights() == ew, cat("rational write to (", lst(t), ")"))) return;
                   ew[i] = 3 + i + form * 0.5;
                   (form ? vw(r, t, seq) : r.Weight(t)) = 3 + i + form * 0.5;
                   if (!c.expect(r.GetWeightedControlPoints() == ep && r.GetWeights() == ew, cat("weight write to (", lst(t), ")"))) return;
                   c.transitions += 3;
                 }
               }
             });
}
// all sequences of degree updates and assignments on one object
template <std::size_t PD>
void updates(Ctx &c, int depth) {
  std::vector<Deg> ds;
  {
    Deg z{}, o{}, a{}, b{};
    for (std::size_t i = 0; i < PD; i++) o[i] = 1, a[i] = i == 0 ? 3 : 0, b[i] = i == PD - 1 ? 2 : static_cast<int>(i % 2);
    ds = {z, o, a, b};
    Deg e = a;
    std::swap(e[0], e[PD - 1]);
    if (PD > 1) ds.push_back(e);  // same number of control points as a
  }
  const int n = static_cast<int>(ds.size());
  enum { ELEV = 0, COPY, MOVE, SPLIT, DERIV, OPS };
  for (int l = 1; l <= depth; l++) {
    std::vector<int> q(l, 0);
    while (true) {
      c.scenario([&] { return cat("updates/", PD, "D/", lst(q)); },
                 [&] {
                   BS<PD, double> s;
                   RS<PD, double> r;
                   for (int x : q) {
                     if (x < n) {
                       s.UpdateDegrees(adeg<PD>(ds[x]));
                       r.UpdateDegrees(adeg<PD>(ds[x]));
                       for (auto &w : r.GetWeights()) w = 1;
                     } else if (s.GetNumberOfControlPoints() == 0) {
                       return c.counter("pruned");
                     } else if (x - n == ELEV) {
                       s.OrderElevateAlongParametricDimension(PD - 1);
                       r.OrderElevateAlongParametricDimension(PD - 1);
                     } else if (x - n == COPY) {
                       BS<PD, double> t;
                       t = s;
                       s = t;
                       RS<PD, double> u;
                       u = r;
                       r = u;
                     } else if (x - n == MOVE) {
                       BS<PD, double> t(s);
                       s = std::move(t);
                       RS<PD, double> u(r);
                       r = std::move(u);
                     } else if (x - n == SPLIT) {
                       s = s.SplitAtPosition(0.5, 0)[1];
                       r = r.SplitAtPosition(0.5, 0)[1];
                     } else {
                       std::array<std::size_t, PD> o{};
                       o[0] = 1;
                       if (s.GetDegrees()[0] == 0) return c.counter("pruned");
                       s = s.DerivativeWRTParametricDimension(o);
                       if (r.GetNumberOfControlPoints() > 100) return c.counter("pruned");
                       r = r.DerivativeWRTParametricDimension(o);
                     }
                     c.transitions++;
                   }
                   addressing(c, s, "after the sequence");
                   addressing(c, r, "rational after the sequence");
                 });
      int i = 0;
      while (i < l && ++q[i] == n + OPS) q[i++] = 0;
      if (i == l) break;
    }
  }
}
template <std::size_t PD, class P>
void hist(Ctx &c, int depth) {
  histories<PolyHist<PD, P>>(c, cat(PD, "D/", VT<P>::name()), depth, [&](BS<PD, P> &s, bool judged) {
    if (judged) addressing(c, s, "after history");
    else if (s.GetNumberOfControlPoints()) s.LocalToGlobalIndex(s.GetNumberOfControlPoints() - 1);
  });
  histories<RatHist<PD, P>>(c, cat("R", PD, "D/", VT<P>::name()), depth, [&](RS<PD, P> &s, bool judged) {
    if (judged) addressing(c, s, "after history");
    else if (s.GetNumberOfControlPoints()) s.LocalToGlobalIndex(s.GetNumberOfControlPoints() - 1);
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  using D2 = bezman::Point<2, double>;
  const int L = c.level;
  const int hi = PD == 1 ? 29 : PD == 2 ? (L ? 8 : 4) : PD == 3 ? (L == 2 ? 6 : L ? 4 : 2) : PD == 4 ? (L == 2 ? 3 : L ? 2 : 1) : 1;
  for_degs(PD, 0, hi, [&](const Deg &d) {
    shapes<PD, double>(c, d);
    if constexpr (PD <= 3) shapes<PD, D2>(c, d);
    writes<PD>(c, d);
  });
  bigshapes<PD>(c);
  updates<PD>(c, L == 2 ? 5 : L ? 4 : 3);
  hist<PD, double>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
  hist<PD, D2>(c, L == 2 && PD < 5 ? 3 : L ? 2 : 1);
}
void explore(Ctx &c) { explore_<PART>(c); }

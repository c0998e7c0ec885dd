// Catalogue of the public operations on constant operands. Every entry reads
// a World and appends everything it observes to an Out.
#pragma once
#include <algorithm>
#include <array>
#include <limits>
#include <sstream>
#include <cassert>
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/point.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/algorithms/bernstein_polynomial.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/fastbinomialcoefficient.hpp"

namespace ct {
using LD = long double;
struct Out {
  std::vector<LD> v;         // numbers
  std::vector<long long> d;  // sizes, degrees, truth values, rejections
  void bit(long long x) { d.push_back(x); }
  template <class S>
  std::enable_if_t<std::is_floating_point_v<S>> put(const S &x) {
    v.push_back(static_cast<LD>(x));
  }
  template <std::size_t D, class S>
  void put(const bezman::Point<D, S> &p) {
    for (const auto &x : p) v.push_back(static_cast<LD>(x));
  }
  template <class S>
  void put(const std::vector<S> &s) {
    bit(static_cast<long long>(s.size()));
    for (const auto &x : s) put(x);
  }
  template <class S, std::size_t N>
  void puta(const std::array<std::vector<S>, N> &s) {
    for (const auto &x : s) put(x);
  }
  template <class D>
  void deg(const D &g) {
    for (auto x : g) bit(static_cast<long long>(x));
  }
  template <std::size_t PD, class P, class S>
  void put(const bezman::BezierSpline<PD, P, S> &s) {
    deg(s.GetDegrees());
    bit(static_cast<long long>(s.GetNumberOfControlPoints()));
    put(s.GetControlPoints());
  }
  template <std::size_t PD, class P, class S>
  void put(const bezman::RationalBezierSpline<PD, P, S> &s) {
    deg(s.GetDegrees());
    bit(static_cast<long long>(s.GetNumberOfControlPoints()));
    put(s.GetWeightedControlPoints());
    put(s.GetWeights());
  }
  template <class F>
  void rejected(const F &f) {  // 1: runtime error, 0: accepted
    try {
      f();
      bit(0);
    } catch (const std::runtime_error &) {
      bit(1);
    }
  }
};
template <std::size_t PD>
using Deg = std::array<std::size_t, PD>;

// numbers that every scalar type represents exactly
inline double val(unsigned seed, std::size_t i, std::size_t k) {
  unsigned h = seed * 2654435761u + static_cast<unsigned>(i) * 40503u + static_cast<unsigned>(k) * 9973u + 77u;
  h ^= h >> 13;
  h *= 1274126177u;
  h ^= h >> 16;
  return (static_cast<int>(h % 65) - 32) / 16.0;
}
inline double unit(unsigned seed, std::size_t i, std::size_t k) { return (static_cast<int>(val(seed, i, k) * 16) + 32) / 64.0; }
inline double weight(unsigned seed, std::size_t i) { return .75 + (static_cast<int>(val(seed, i, 5) * 16) + 32) / 64.0; }

template <std::size_t PD, class T>
struct World {
  using P = bezman::Point<2, T>;
  using Q = bezman::Point<PD, T>;
  using BP = bezman::BezierSpline<PD, P, T>;
  using BT = bezman::BezierSpline<PD, T, T>;
  using BQ = bezman::BezierSpline<PD, Q, T>;
  using RP = bezman::RationalBezierSpline<PD, P, T>;
  using RT = bezman::RationalBezierSpline<PD, T, T>;
  using I1 = bezman::BezierSpline<1, Q, T>;
  using IR = bezman::RationalBezierSpline<1, Q, T>;
  BP a, b;             // degrees g and h
  BT s, u;             // scalar splines, degrees h and g
  RP ra, rb, rc;       // ra and rc share their weights
  RT rs;
  BQ q;                // maps into the unit cube (degree 1)
  I1 in, in2;
  IR rin;
  I1 outside;          // leaves the unit cube
  BP empty;
  std::vector<I1> group;
  std::vector<Q> x;    // parameter points
  P p, p2;
  T c;
  Deg<PD> g, h;
  template <class B>
  static B poly(const Deg<PD> &d, unsigned seed) {
    B r(d);
    fill(r.GetControlPoints(), seed);
    return r;
  }
  static void fill(std::vector<T> &v, unsigned seed) {
    for (std::size_t i = 0; i < v.size(); i++) v[i] = static_cast<T>(val(seed, i, 0));
  }
  template <std::size_t D>
  static void fill(std::vector<bezman::Point<D, T>> &v, unsigned seed) {
    for (std::size_t i = 0; i < v.size(); i++)
      for (std::size_t k = 0; k < D; k++) v[i][k] = static_cast<T>(val(seed, i, k));
  }
  template <class R, class V>
  static R rat(const Deg<PD> &d, unsigned seed, unsigned ws) {
    std::size_t n = 1;
    for (auto z : d) n *= z + 1;
    std::vector<V> c(n);
    fill(c, seed);
    std::vector<T> w;
    for (std::size_t i = 0; i < n; i++) w.push_back(static_cast<T>(weight(ws, i)));
    return R(d, c, w);
  }
  static I1 inner(std::size_t deg, unsigned seed) {
    I1 r(Deg<1>{deg});
    for (std::size_t i = 0; i <= deg; i++)
      for (std::size_t k = 0; k < PD; k++) r.GetControlPoints()[i][k] = static_cast<T>(unit(seed, i, k));
    return r;
  }
  World(const Deg<PD> &g_, const Deg<PD> &h_, unsigned seed = 1) : g(g_), h(h_) {
    a = poly<BP>(g, seed), b = poly<BP>(h, seed + 1);
    s = poly<BT>(h, seed + 2), u = poly<BT>(g, seed + 3);
    ra = rat<RP, P>(g, seed + 4, seed + 10), rb = rat<RP, P>(h, seed + 5, seed + 11), rc = rat<RP, P>(g, seed + 6, seed + 10);
    rs = rat<RT, T>(h, seed + 7, seed + 12);
    Deg<PD> one{};
    one.fill(1);
    q = BQ(one);
    for (std::size_t i = 0; i < q.GetControlPoints().size(); i++)
      for (std::size_t k = 0; k < PD; k++) q.GetControlPoints()[i][k] = static_cast<T>(unit(seed + 8, i, k));
    in = inner(2, seed + 13), in2 = inner(1, seed + 14), outside = inner(1, seed + 15);
    outside.GetControlPoints()[1][PD - 1] = static_cast<T>(1.5);
    {
      const I1 z = inner(1, seed + 16);
      std::vector<T> w{static_cast<T>(1.5), static_cast<T>(.5)};
      rin = IR(Deg<1>{1}, z.GetControlPoints(), w);
    }
    group = {in, in2};
    for (int j = 0; j < 3; j++) {
      Q y;
      for (std::size_t k = 0; k < PD; k++) y[k] = static_cast<T>(j == 0 ? .3125 + .25 * static_cast<double>(k) : j == 1 ? (k % 2 ? 0. : 1.) : .875 - .125 * static_cast<double>(k));
      x.push_back(y);
    }
    p = P(static_cast<T>(.75), static_cast<T>(-1.25));
    p2 = P(static_cast<T>(2), static_cast<T>(.5));
    c = static_cast<T>(-1.5);
  }
  // all numbers of the world, to detect changes of operands
  Out snapshot() const {
    Out o;
    o.put(a), o.put(b), o.put(s), o.put(u), o.put(ra), o.put(rb), o.put(rc), o.put(rs), o.put(q), o.put(in), o.put(in2), o.put(rin), o.put(outside);
    o.put(empty);
    for (const auto &z : group) o.put(z);
    for (const auto &z : x) o.put(z);
    o.put(p), o.put(p2), o.put(c);
    return o;
  }
};

template <std::size_t PD, class T>
struct Entry {
  const char *name;
  void (*f)(const World<PD, T> &, Out &);
};
template <class S, class X>
auto evalv(const S &s, const X &x) {  // the variadic form
  if constexpr (S::kParametricDimensions == 1)
    return s.Evaluate(x[0]);
  else if constexpr (S::kParametricDimensions == 2)
    return s.Evaluate(x[0], x[1]);
  else
    return s.Evaluate(x[0], x[1], x[2]);
}
template <class S, class X>
auto fwdv(const S &s, const X &x) {
  if constexpr (S::kParametricDimensions == 1)
    return s.ForwardEvaluate(x[0]);
  else if constexpr (S::kParametricDimensions == 2)
    return s.ForwardEvaluate(x[0], x[1]);
  else
    return s.ForwardEvaluate(x[0], x[1], x[2]);
}
template <class S, class X>
auto basv(const S &s, const X &x) {
  if constexpr (S::kParametricDimensions == 1)
    return s.BasisFunctions(x[0]);
  else if constexpr (S::kParametricDimensions == 2)
    return s.BasisFunctions(x[0], x[1]);
  else
    return s.BasisFunctions(x[0], x[1], x[2]);
}
// derivative order tuples
template <std::size_t PD>
std::vector<Deg<PD>> orders() {
  std::vector<Deg<PD>> r;
  Deg<PD> o{};
  r.push_back(o);
  for (std::size_t i = 0; i < PD; i++) {
    o = {};
    o[i] = 1;
    r.push_back(o);
    o[i] = 2;
    r.push_back(o);
  }
  o.fill(1);
  r.push_back(o);
  return r;
}

// compositions need double splines of matching types; all scalar types work
template <std::size_t PD, class T>
const std::vector<Entry<PD, T>> &catalogue() {
  using W = World<PD, T>;
  using bezman::Point;
  static const std::vector<Entry<PD, T>> list{
      // --- polynomial, evaluation
      {"Evaluate", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.a.Evaluate(x)), o.put(w.s.Evaluate(x)); }},
      {"Evaluate variadic", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(evalv(w.a, x)), o.put(evalv(w.s, x)); }},
      {"ForwardEvaluate", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.a.ForwardEvaluate(x)), o.put(w.s.ForwardEvaluate(x)), o.put(fwdv(w.b, x)); }},
      {"BasisFunctions", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.a.BasisFunctions(x)), o.put(basv(w.b, x)); }},
      {"BasisFunctionContributions", [](const W &w, Out &o) { for (const auto &x : w.x) o.puta(w.a.BasisFunctionContributions(x)), o.puta(w.s.BasisFunctionContributions(x)); }},
      {"EvaluateDerivative", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.put(w.a.EvaluateDerivative(w.x[0], k)), o.put(w.s.EvaluateDerivative(w.x[1], k)); }},
      {"BasisFunctionsDerivatives", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.put(w.a.BasisFunctionsDerivatives(w.x[0], k)); }},
      {"BasisFunctionsDerivativeContributions", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.puta(w.a.BasisFunctionsDerivativeContributions(w.x[2], k)); }},
      {"beyond the unit cube", [](const W &w, Out &o) {
         for (int k = 0; k < 3; k++) {
           auto x = w.x[0];
           x[0] = static_cast<T>(k == 0 ? 1.25 : k == 1 ? -.25 : 2.);
           if (k == 2) x[PD - 1] = static_cast<T>(-.5);
           o.put(w.a.Evaluate(x)), o.put(w.a.ForwardEvaluate(x)), o.put(w.s.BasisFunctions(x)), o.put(w.rs.Evaluate(w.x[0])), o.put(w.a.EvaluateDerivative(x, orders<PD>()[1]));
         }
       }},
      // --- polynomial, new splines
      {"DerivativeWRT", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.put(w.a.DerivativeWRTParametricDimension(k)), o.put(w.s.DerivativeWRTParametricDimension(k)); }},
      {"Split one", [](const W &w, Out &o) { for (std::size_t d = 0; d < PD; d++) for (double z : {.25, .5}) o.put(w.a.SplitAtPosition(static_cast<T>(z), d)); }},
      {"Split many", [](const W &w, Out &o) {
         for (std::size_t d = 0; d < PD; d++) {
           o.put(w.a.SplitAtPosition(std::vector<T>{static_cast<T>(.25), static_cast<T>(.5), static_cast<T>(.875)}, d));
           o.put(w.s.SplitAtPosition(std::vector<T>{}, d));
         }
       }},
      {"copy elevated", [](const W &w, Out &o) { for (std::size_t d = 0; d < PD; d++) { auto t = w.a; t.OrderElevateAlongParametricDimension(d); o.put(t); auto v = w.s; o.put(v.OrderElevateAlongParametricDimension(d).OrderElevateAlongParametricDimension(PD - 1)); } }},
      {"a+b", [](const W &w, Out &o) { o.put(w.a + w.b), o.put(w.b + w.a), o.put(w.a + w.a); }},
      {"a-b", [](const W &w, Out &o) { o.put(w.a - w.b), o.put(w.b - w.a), o.put(w.a - w.a); }},
      {"copy +=", [](const W &w, Out &o) { auto t = w.a; t += w.b; o.put(t); t += t; o.put(t); auto v = w.s; v += w.u; o.put(v); }},
      {"copy -=", [](const W &w, Out &o) { auto t = w.a; t -= w.b; o.put(t); t -= t; o.put(t); auto v = w.u; v -= w.s; o.put(v); }},
      {"scalar spline * a", [](const W &w, Out &o) { o.put(w.s * w.a), o.put(w.s * w.b); }},
      {"scalar splines", [](const W &w, Out &o) { o.put(w.s * w.u), o.put(w.s + w.u), o.put(w.u - w.s), o.put(w.s * w.s); }},
      {"inner product", [](const W &w, Out &o) { o.put(w.a * w.b), o.put(w.a * w.a); }},
      {"RaisePower", [](const W &w, Out &o) { for (std::size_t k = 0; k < 4; k++) o.put(w.s.RaisePower(k)); }},
      {"scaling", [](const W &w, Out &o) { o.put(w.a * w.c), o.put(w.c * w.a); auto t = w.a; t *= w.c; t *= t.GetControlPoints()[0][1]; o.put(t); }},
      {"shift", [](const W &w, Out &o) { o.put(w.a + w.p), o.put(w.p + w.a), o.put(w.a - w.p), o.put(w.p - w.a), o.put(-w.a); auto t = w.a; t += w.p; t -= w.p2; t += t.GetControlPoints().back(); t -= t.GetControlPoints().front(); o.put(t); }},
      {"equality", [](const W &w, Out &o) { o.bit(w.a == w.a), o.bit(w.a == w.b), o.bit(w.s == w.s), o.bit(w.s == w.u); auto t = w.a; o.bit(t == w.a); t.GetControlPoints().back()[1] += static_cast<T>(.5); o.bit(t == w.a); }},
      {"ExtractDimension", [](const W &w, Out &o) { o.put(w.a.ExtractDimension(0)), o.put(w.a.ExtractDimension(1)); }},
      {"corners", [](const W &w, Out &o) { o.put(w.a.MaximumCorner()), o.put(w.a.MinimumCorner()), o.bit(w.a.FitsIntoUnitCube()), o.bit(w.q.FitsIntoUnitCube()), o.bit(w.outside.FitsIntoUnitCube()); }},
      {"fitting", [](const W &w, Out &o) { auto t = w.a; t.FitIntoUnitCube(); o.put(t); auto v = w.b; v.TransposeAndScale(w.p, w.p2); o.put(v); }},
      {"indices", [](const W &w, Out &o) {
         for (std::size_t i = 0; i < w.a.GetNumberOfControlPoints(); i++) {
           const auto g = w.a.LocalToGlobalIndex(i);
           o.deg(g), o.bit(static_cast<long long>(w.a.GlobalToLocalIndex(g))), o.put(w.a.ControlPoint(g));
           const auto rg = w.ra.LocalToGlobalIndex(i);
           o.deg(rg), o.bit(static_cast<long long>(w.ra.GlobalToLocalIndex(rg))), o.put(w.ra.ControlPoint(rg)), o.put(w.ra.WeightedControlPoint(rg)), o.put(w.ra.Weight(rg));
         }
       }},
      {"resized copy", [](const W &w, Out &o) { auto t = w.a; auto d = w.h; d[0] += 2; t.UpdateDegrees(d); o.deg(t.GetDegrees()), o.bit(static_cast<long long>(t.GetControlPoints().size())); auto r = w.ra; r.UpdateDegrees(d); o.bit(static_cast<long long>(r.GetWeights().size())); }},
      // --- composition
      {"compose poly poly", [](const W &w, Out &o) { o.put(w.a.Compose(w.in)), o.put(w.s.Compose(w.in2)); }},
      {"compose poly cube", [](const W &w, Out &o) { o.put(w.b.Compose(w.q)); }},
      {"compose poly rational", [](const W &w, Out &o) { o.put(w.a.Compose(w.rin)); }},
      {"compose rational poly", [](const W &w, Out &o) { o.put(w.ra.Compose(w.in)); }},
      {"compose rational rational", [](const W &w, Out &o) { o.put(w.ra.Compose(w.rin)); }},
      {"compose group", [](const W &w, Out &o) { o.put(w.a.Compose(w.group)); }},
      {"sensitivity poly poly", [](const W &w, Out &o) { o.put(w.b.ComposeSensitivity(w.in2)); }},
      {"sensitivity poly rational", [](const W &w, Out &o) { o.put(w.b.ComposeSensitivity(w.rin)); }},
      {"sensitivity rational poly", [](const W &w, Out &o) { o.put(w.rb.ComposeSensitivity(w.in2)); }},
      {"sensitivity rational rational", [](const W &w, Out &o) { o.put(w.rb.ComposeSensitivity(w.rin)); }},
      // --- rational
      {"r Evaluate", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.ra.Evaluate(x)), o.put(evalv(w.rs, x)); }},
      {"r ForwardEvaluate", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.ra.ForwardEvaluate(x)), o.put(fwdv(w.rs, x)); }},
      {"r BasisFunctions", [](const W &w, Out &o) { for (const auto &x : w.x) o.put(w.ra.BasisFunctions(x)), o.put(w.ra.UnweightedBasisFunctions(x)), o.put(basv(w.rb, x)), o.puta(w.ra.BasisFunctionContributions(x)); }},
      {"r EvaluateDerivative", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.put(w.ra.EvaluateDerivative(w.x[0], k)), o.put(w.rs.EvaluateDerivative(w.x[2], k)); }},
      {"r BasisFunctionsDerivatives", [](const W &w, Out &o) { for (const auto &k : orders<PD>()) o.put(w.ra.BasisFunctionsDerivatives(w.x[0], k)); }},
      {"r DerivativeWRT", [](const W &w, Out &o) { for (std::size_t i = 0; i < PD; i++) { Deg<PD> k{}; k[i] = 1; o.put(w.rb.DerivativeWRTParametricDimension(k)); } }},
      {"r split", [](const W &w, Out &o) { for (std::size_t d = 0; d < PD; d++) o.put(w.ra.SplitAtPosition(static_cast<T>(.25), d)), o.put(w.rb.SplitAtPosition(std::vector<T>{static_cast<T>(.25), static_cast<T>(.75)}, d)); }},
      {"r copy elevated", [](const W &w, Out &o) { for (std::size_t d = 0; d < PD; d++) { auto t = w.ra; t.OrderElevateAlongParametricDimension(d); o.put(t); } }},
      {"r sum", [](const W &w, Out &o) { o.put(w.ra + w.rb), o.put(w.ra + w.rc), o.put(w.ra + w.ra); }},
      {"r difference", [](const W &w, Out &o) { o.put(w.ra - w.rb), o.put(w.ra - w.rc), o.put(w.rb - w.ra); }},
      {"r in place", [](const W &w, Out &o) { auto t = w.ra; t += w.rc; o.put(t); t -= w.rb; o.put(t); auto v = w.ra; v += v; o.put(v); v -= w.ra; o.put(v); }},
      {"r product", [](const W &w, Out &o) { o.put(w.rs * w.ra), o.put(w.ra * w.rc), o.put(w.rs * w.rs); }},
      {"r scaling", [](const W &w, Out &o) { o.put(w.ra * w.c), o.put(w.c * w.ra); auto t = w.ra; t *= w.c; t *= t.GetWeights()[0]; o.put(t), o.put(-w.ra); }},
      {"r shift", [](const W &w, Out &o) { o.put(w.ra + w.p), o.put(w.p + w.ra), o.put(w.ra - w.p); auto t = w.ra; t += w.p; t -= w.p2; o.put(t); }},
      {"r corners", [](const W &w, Out &o) { o.put(w.ra.MaximumCorner()), o.put(w.ra.MinimumCorner()), o.bit(w.ra.FitsIntoUnitCube()), o.put(w.ra.ExtractDimension(1)); }},
      {"r views", [](const W &w, Out &o) { o.put(w.ra.GetNumeratorSpline()), o.put(w.ra.GetWeightFunctionSpline()), o.put(typename W::RP(w.a)); if (w.a.GetDegrees() == w.u.GetDegrees()) o.put(typename W::RP(w.a, w.u)); }},
      // --- invalid requests
      {"rejections", [](const W &w, Out &o) {
         for (double z : {0., 1., -.25, 1.25})
           for (std::size_t d = 0; d < PD; d++) o.rejected([&] { (void)w.a.SplitAtPosition(static_cast<T>(z), d); }), o.rejected([&] { (void)w.ra.SplitAtPosition(static_cast<T>(z), d); });
         o.rejected([&] { (void)w.a.SplitAtPosition(std::vector<T>{static_cast<T>(.5), static_cast<T>(.5)}, 0); });
         o.rejected([&] { (void)w.ra.SplitAtPosition(std::vector<T>{static_cast<T>(.5), static_cast<T>(.25)}, 0); });
         o.rejected([&] { (void)w.a.Compose(w.outside); });
         o.rejected([&] { (void)w.ra.Compose(w.outside); });
         o.rejected([&] { (void)w.a.ComposeSensitivity(w.outside); });
         o.rejected([&] { (void)w.ra.ComposeSensitivity(w.outside); });
         const typename W::IR ro(w.outside);
         o.rejected([&] { (void)w.a.Compose(ro); });
         o.rejected([&] { (void)w.ra.Compose(ro); });
         o.rejected([&] { (void)w.a.ComposeSensitivity(ro); });
         o.rejected([&] { (void)w.ra.ComposeSensitivity(ro); });
         o.rejected([&] { (void)w.a.ExtractDimension(2); });
         o.rejected([&] { (void)w.a.RaisePower(2); });
         o.rejected([&] { (void)w.empty.MaximumCorner(); });
         o.rejected([&] { (void)w.empty.MinimumCorner(); });
       }},
      // --- utilities
      {"base64", [](const W &w, Out &o) {
         const auto t = bezman::utils::Base64::Encode(w.a.GetControlPoints());
         o.bit(t.size() % 4), o.put(bezman::utils::Base64::template Decode<typename W::P>(t));
         const auto v = bezman::utils::Base64::Encode(w.s.GetControlPoints());
         o.put(bezman::utils::Base64::template Decode<T>(v));
       }},
      {"algorithms", [](const W &w, Out &o) {
         for (auto i : bezman::utils::algorithms::IndexListSort(w.s.GetControlPoints())) o.bit(static_cast<long long>(i));
         o.bit(bezman::utils::algorithms::IntPower(3, 5)), o.bit(static_cast<long long>(bezman::utils::FastBinomialCoefficient::choose(20, 7)));
         const auto cc = w.a.BasisFunctionContributions(w.x[0]);
         o.put(bezman::utils::algorithms::RecursiveCombine(cc));
         for (std::size_t n = 0; n < 6; n++)
           for (std::size_t d = 0; d < 3; d++) o.put(bezman::utils::algorithms::BernsteinPolynomial<T>::EvaluateDerivative(n, w.x[0][0], d));
       }},
      {"differentiation", [](const W &w, Out &o) {
         using A = bezman::utils::computational_differentiation::AlgoDiffType<T, 2>;
         using D = bezman::utils::computational_differentiation::AlgoDiffType<T, 0>;
         const A x(w.x[0][0], std::size_t(0)), y(w.p[0], std::size_t(1));
         const A r = sin(x * y) / exp(y - x) + pow(y, x) * sqrt(y) + log(y) * atan(x) - abs(-y);
         o.put(r.GetValue());
         for (const auto &z : r.GetDerivatives()) o.put(z);
         const D dx(w.x[0][0], 2, 0), dy(w.p[0], 2, 1);
         const D q = tan(dx) * log10(dy) + acos(dx) * asin(dx) + cos(dy);
         o.put(q.GetValue()), o.put(q.GetDerivatives());
         o.bit(x < y), o.bit(dx >= dy);
       }},
      {"points", [](const W &w, Out &o) { o.put(w.p + w.p2), o.put(w.p - w.p2), o.put(-w.p), o.put(w.p * w.c), o.put(w.c * w.p), o.put(w.p / w.c), o.put(w.c / w.p), o.put(w.p * w.p2), o.put(w.p.EuclidianNorm()), o.put(w.p.SquaredEuclidianNorm()); }},
#ifndef MC_VARIANT_MSAN  // the stream library is not instrumented
      {"printing", [](const W &w, Out &o) {
         using A = bezman::utils::computational_differentiation::AlgoDiffType<T, 2>;
         std::ostringstream s;
         s << w.p << w.p2 << A(w.p[0], std::size_t(0));
         for (const auto &t : {w.p.toString(), w.p2.toString(3), s.str()})
           for (char c : t) o.bit(c);
       }},
#endif
  };
  return list;
}
}  // namespace ct

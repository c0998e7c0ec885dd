// Operation histories: all sequences (up to a depth) of state changing
// operations applied in place to one object, simplest first.
#pragma once
#include <utility>

#include "spl.hpp"

namespace mc {

constexpr int kMaxDeg = 14;
constexpr int kMaxN = 400;

template <std::size_t PD>
BS<PD, double> linear_scalar(double a, double b) {
  Deg d{};
  d[0] = 1;
  BS<PD, double> s(adeg<PD>(d));
  s.GetControlPoints()[0] = a;
  s.GetControlPoints()[1] = b;
  return s;
}
template <std::size_t PD>
BS<PD, bezman::Point<PD, double>> inner_map() {
  Deg d{};
  for (std::size_t i = 0; i < PD; i++) d[i] = i == 0 ? 2 : 1;
  BS<PD, bezman::Point<PD, double>> s(adeg<PD>(d));
  for (std::size_t i = 0; i < s.GetControlPoints().size(); i++)
    for (std::size_t k = 0; k < PD; k++)
      s.GetControlPoints()[i][k] =
          patval(UNIT, 1234, static_cast<int>(i), static_cast<int>(k), 1);
  return s;
}

template <class P>
P mkpt(double base) {
  P p{};
  for (int k = 0; k < VT<P>::dim; k++)
    VT<P>::set(p, k, static_cast<ScalarOf<P>>(base + 0.75 * k));
  return p;
}

template <class S>
bool small(const S &s, int add = 1, int mul = 1) {
  std::size_t n = 1;
  for (auto d : s.GetDegrees()) {
    const std::size_t e = d * mul + add;
    if (e > static_cast<std::size_t>(kMaxDeg)) return false;
    n *= e + 1;
  }
  return n <= static_cast<std::size_t>(kMaxN);
}

// Polynomial operations -----------------------------------------------
inline std::vector<Deg> big_degrees(std::size_t pd) {
  if (pd == 1) return {{14}, {29}};
  if (pd == 2) return {{14, 14}, {20, 13}};
  if (pd == 3) return {{6, 7, 6}};
  if (pd == 4) return {{3, 4, 3, 4}};
  return {{2, 3, 1, 3, 2}};
}
template <std::size_t PD, class P>
struct PolyHist {
  using S = BS<PD, P>;
  using T = ScalarOf<P>;
  struct Op {
    std::string name;
    std::function<bool(S &)> f;  // false: not applicable here
  };
  static std::vector<Op> ops() {
    std::vector<Op> o;
    for (std::size_t d = 0; d < PD; d++)
      o.push_back({cat("elev", d), [d](S &s) {
                     if (!small(s)) return false;
                     s.OrderElevateAlongParametricDimension(d);
                     return true;
                   }});
    for (std::size_t d = 0; d < PD; d++)
      o.push_back({cat("deriv", d), [d](S &s) {
                     std::array<std::size_t, PD> k{};
                     k[d] = 1;
                     if (s.GetDegrees()[d] < 1) return false;
                     s = s.DerivativeWRTParametricDimension(k);
                     return true;
                   }});
    o.push_back({"split0b", [](S &s) {
                   auto v = s.SplitAtPosition(static_cast<T>(0.25), 0);
                   s = v[1];
                   return true;
                 }});
    o.push_back({"splitLm", [](S &s) {
                   auto v = s.SplitAtPosition(
                       std::vector<T>{static_cast<T>(0.25),
                                      static_cast<T>(0.75)},
                       PD - 1);
                   s = v[1];
                   return true;
                 }});
    o.push_back({"prod", [](S &s) {
                   if (!small(s)) return false;
                   s = linear_scalar<PD>(2, -0.5) * s;
                   return true;
                 }});
    o.push_back({"add", [](S &s) {
                   Deg d{};
                   d[PD - 1] = 2;
                   if (!small(s, 2)) return false;
                   s += make<PD, P>(d, GENERIC, 71);
                   return true;
                 }});
    o.push_back({"sub", [](S &s) {
                   Deg d{};
                   d[0] = 3;
                   if (!small(s, 3)) return false;
                   s -= make<PD, P>(d, GENERIC, 72);
                   return true;
                 }});
    o.push_back({"addout", [](S &s) {
                   Deg d{};
                   d[0] = 1;
                   if (!small(s, 1)) return false;
                   s = make<PD, P>(d, GENERIC, 73) + s;
                   return true;
                 }});
    o.push_back({"scale", [](S &s) {
                   s *= static_cast<T>(-1.5);
                   return true;
                 }});
    o.push_back({"shift", [](S &s) {
                   s += mkpt<P>(0.375);
                   return true;
                 }});
    o.push_back({"neg", [](S &s) {
                   s = -s;
                   return true;
                 }});
    o.push_back({"poke", [](S &s) {  // mutate through the index accessor
                   std::array<std::size_t, PD> i{};
                   i[0] = s.GetDegrees()[0];
                   s.ControlPoint(i) = mkpt<P>(-2.5);
                   return true;
                 }});
    o.push_back({"pokev", [](S &s) {  // mutate through the vector
                   s.GetControlPoints()[s.GetControlPoints().size() / 2] =
                       mkpt<P>(3.25);
                   return true;
                 }});
    o.push_back({"pokem", [](S &s) {  // mutate through the public member
                   s.control_points.back() = mkpt<P>(1.5);
                   return true;
                 }});
    o.push_back({"update", [](S &s) {  // change the degrees, refill
                   Deg d{};
                   for (std::size_t i = 0; i < PD; i++)
                     d[i] = static_cast<int>((s.GetDegrees()[i] + 1 + i) % 4);
                   s.UpdateDegrees(adeg<PD>(d));
                   s.GetControlPoints() =
                       make<PD, P>(d, GENERIC, 74).GetControlPoints();
                   return true;
                 }});
    o.push_back({"copy", [](S &s) {
                   S t(s);
                   t *= static_cast<T>(3);
                   S u;
                   u = t;
                   t += mkpt<P>(1);
                   s = u;
                   return true;
                 }});
    o.push_back({"swap", [](S &s) {
                   Deg d{};
                   d[0] = 2;
                   S t = make<PD, P>(d, GENERIC, 75);
                   std::swap(s, t);
                   t = S{};
                   return true;
                 }});
    o.push_back({"trsc", [](S &s) {
                   s.TransposeAndScale(mkpt<P>(0.25), mkpt<P>(0.5));
                   return true;
                 }});
    if constexpr (std::is_same_v<T, double>)
      o.push_back({"comp", [](S &s) {
                     std::size_t sum = 0;
                     for (auto d : s.GetDegrees()) sum += d;
                     std::size_t n = 1;
                     const auto in = inner_map<PD>();
                     for (auto d : in.GetDegrees()) {
                       if (d * sum > 10) return false;
                       n *= d * sum + 1;
                     }
                     if (n > 200) return false;
                     s = s.Compose(in);
                     return true;
                   }});
    return o;
  }
  struct Init {
    std::string name;
    std::function<S()> f;
  };
  static std::vector<Init> inits() {
    std::vector<Init> r;
    Deg a{}, b{};
    for (std::size_t i = 0; i < PD; i++) {
      a[i] = 1 + static_cast<int>((i + 1) % 3);
      b[i] = i == PD - 1 ? 1 : 0;
    }
    r.push_back({cat("g", dstr(PD, a)), [a] { return make<PD, P>(a, GENERIC); }});
    r.push_back({cat("u", dstr(PD, b)), [b] { return make<PD, P>(b, UNIT, 3); }});
    return r;
  }
  static std::vector<Init> bigs() {
    std::vector<Init> r;
    for (const Deg &d : big_degrees(PD))
      r.push_back({cat("g", dstr(PD, d)), [d] { return make<PD, P>(d, GENERIC); }});
    return r;
  }
};

// Rational operations ---------------------------------------------------
template <std::size_t PD, class P>
struct RatHist {
  using S = RS<PD, P>;
  using T = ScalarOf<P>;
  struct Op {
    std::string name;
    std::function<bool(S &)> f;
  };
  static std::vector<Op> ops() {
    std::vector<Op> o;
    for (std::size_t d = 0; d < PD; d++)
      o.push_back({cat("elev", d), [d](S &s) {
                     if (!small(s)) return false;
                     s.OrderElevateAlongParametricDimension(d);
                     return true;
                   }});
    for (std::size_t d = 0; d < PD; d++)
      o.push_back({cat("deriv", d), [d](S &s) {
                     std::array<std::size_t, PD> k{};
                     k[d] = 1;
                     if (!small(s, 0, 2)) return false;
                     s = s.DerivativeWRTParametricDimension(k);
                     return true;
                   }});
    o.push_back({"split0b", [](S &s) {
                   auto v = s.SplitAtPosition(static_cast<T>(0.25), 0);
                   s = v[1];
                   return true;
                 }});
    o.push_back({"splitLm", [](S &s) {
                   auto v = s.SplitAtPosition(
                       std::vector<T>{static_cast<T>(0.25),
                                      static_cast<T>(0.75)},
                       PD - 1);
                   s = v[1];
                   return true;
                 }});
    o.push_back({"addsame", [](S &s) {  // shared weight function
                   S t(s);
                   t.GetWeightedControlPoints()[0] = mkpt<P>(2);
                   s += t;
                   return true;
                 }});
    o.push_back({"sub", [](S &s) {
                   Deg d{};
                   d[0] = 1;
                   if (!small(s)) return false;
                   s -= makeR<PD, P>(d, GENERIC, WGEN, 82);
                   return true;
                 }});
    o.push_back({"addout", [](S &s) {
                   Deg d{};
                   d[PD - 1] = 1;
                   if (!small(s)) return false;
                   s = makeR<PD, P>(d, GENERIC, WDEV, 83) + s;
                   return true;
                 }});
    o.push_back({"prod", [](S &s) {
                   Deg d{};
                   d[0] = 1;
                   if (!small(s)) return false;
                   s = makeR<PD, double>(d, GENERIC, WGEN, 84) * s;
                   return true;
                 }});
    o.push_back({"scale", [](S &s) {
                   s *= static_cast<T>(-1.5);
                   return true;
                 }});
    o.push_back({"shift", [](S &s) {
                   s += mkpt<P>(0.375);
                   return true;
                 }});
    o.push_back({"unshift", [](S &s) {
                   s = s - mkpt<P>(-0.5);
                   return true;
                 }});
    o.push_back({"neg", [](S &s) {
                   s = -s;
                   return true;
                 }});
    o.push_back({"poke", [](S &s) {
                   std::array<std::size_t, PD> i{};
                   i[0] = s.GetDegrees()[0];
                   s.WeightedControlPoint(i) = mkpt<P>(-2.5);
                   return true;
                 }});
    o.push_back({"pokew", [](S &s) {
                   std::array<std::size_t, PD> i{};
                   i[PD - 1] = s.GetDegrees()[PD - 1];
                   s.Weight(i) = s.Weight(i) * 2;
                   return true;
                 }});
    o.push_back({"pokewv", [](S &s) {
                   s.GetWeights()[0] = s.GetWeights()[0] / 4;
                   return true;
                 }});
    o.push_back({"update", [](S &s) {
                   Deg d{};
                   for (std::size_t i = 0; i < PD; i++)
                     d[i] = static_cast<int>((s.GetDegrees()[i] + 1 + i) % 4);
                   s.UpdateDegrees(adeg<PD>(d));
                   const S t = makeR<PD, P>(d, GENERIC, WGEN, 85);
                   s.GetWeightedControlPoints() = t.GetWeightedControlPoints();
                   s.GetWeights() = t.GetWeights();
                   return true;
                 }});
    o.push_back({"copy", [](S &s) {
                   S t(s);
                   t *= static_cast<T>(3);
                   S u;
                   u = t;
                   t.GetWeights()[0] = 77;
                   s = u;
                   return true;
                 }});
    o.push_back({"swap", [](S &s) {
                   Deg d{};
                   d[0] = 2;
                   S t = makeR<PD, P>(d, GENERIC, WGEN, 86);
                   std::swap(s, t);
                   t = S{};
                   return true;
                 }});
    o.push_back({"frompoly", [](S &s) {
                   s = S(s.GetNumeratorSpline());
                   return true;
                 }});
    if constexpr (std::is_same_v<T, double>)
      o.push_back({"comp", [](S &s) {
                     std::size_t sum = 0;
                     for (auto d : s.GetDegrees()) sum += d;
                     std::size_t n = 1;
                     const auto in = inner_map<PD>();
                     for (auto d : in.GetDegrees()) {
                       if (d * sum > 8) return false;
                       n *= d * sum + 1;
                     }
                     if (n > 100) return false;
                     s = s.Compose(in);
                     return true;
                   }});
    return o;
  }
  struct Init {
    std::string name;
    std::function<S()> f;
  };
  static std::vector<Init> inits() {
    std::vector<Init> r;
    Deg a{}, b{};
    for (std::size_t i = 0; i < PD; i++) {
      a[i] = 1 + static_cast<int>((i + 1) % 2);
      b[i] = i == PD - 1 ? 1 : 0;
    }
    r.push_back({cat("g", dstr(PD, a)),
                 [a] { return makeR<PD, P>(a, GENERIC, WGEN); }});
    r.push_back({cat("u", dstr(PD, b)),
                 [b] { return makeR<PD, P>(b, UNIT, WONE, 3); }});
    return r;
  }
  static std::vector<Init> bigs() {
    std::vector<Init> r;
    for (const Deg &d : big_degrees(PD))
      r.push_back({cat("g", dstr(PD, d)), [d] { return makeR<PD, P>(d, GENERIC, WGEN); }});
    return r;
  }
};

// All histories of exactly 0..depth operations.  observe(object) is called on
// the same object before and after every operation, so results that depend on
// earlier calls are exposed.  Only the last call is judged (shorter prefixes
// are scenarios of their own): observe(obj, judged).
template <class H, class Obs>
void histories(Ctx &c, const std::string &prefix, int depth, const Obs &observe,
               int only_init = -1) {
  const auto ops = H::ops();
  const auto inits = H::inits();
  // states with more than 255 control points (or results that have), judged
  // without any operation before
  if (c.level >= 1 && only_init < 0)
    for (const auto &b : H::bigs())
      c.scenario([&] { return prefix + "/big/" + b.name; },
                 [&] {
                   auto s = b.f();
                   observe(s, false);
                   observe(s, true);
                 });
  for (size_t in = 0; in < inits.size(); in++) {
    if (only_init >= 0 && static_cast<int>(in) != only_init) continue;
    for (int d = 0; d <= depth; d++) {
      std::vector<size_t> seq(d, 0);
      while (true) {
        c.scenario(
            [&] {
              std::string id = prefix + "/hist/" + inits[in].name;
              for (auto o : seq) id += "." + ops[o].name;
              return id;
            },
            [&] {
              auto s = inits[in].f();
              for (auto o : seq) {
                observe(s, false);
                if (!ops[o].f(s)) {
                  c.counter("histories_pruned");
                  return;
                }
                c.transitions++;
              }
              c.counter("histories");
              observe(s, true);
            });
        int i = 0;
        while (i < d && ++seq[i] == ops.size()) seq[i++] = 0;
        if (i == d) break;
      }
    }
  }
}
}  // namespace mc

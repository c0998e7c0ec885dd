// State changing operations on a World, to reach the operands of the catalogue
// through histories.
#pragma once
#include "cat.hpp"

namespace ct {
template <class S>
bool small(const S &s, std::size_t add, std::size_t mul, std::size_t limit, std::size_t count) {
  std::size_t n = 1;
  for (auto d : s.GetDegrees()) {
    const std::size_t e = d * mul + add;
    if (e > limit) return false;
    n *= e + 1;
  }
  return n <= count;
}
template <std::size_t PD, class T>
struct Mutation {
  const char *name;
  bool (*f)(World<PD, T> &);  // false: not applicable (depends on degrees only)
};
template <std::size_t PD, class T>
const std::vector<Mutation<PD, T>> &mutations() {
  using W = World<PD, T>;
  constexpr std::size_t L = PD == 1 ? 7 : PD == 2 ? 4 : 3, N = 64;
  static const std::vector<Mutation<PD, T>> list{
      {"a elevate first", [](W &w) { if (!small(w.a, 1, 1, L, N)) return false; w.a.OrderElevateAlongParametricDimension(0); return true; }},
      {"a elevate last", [](W &w) { if (!small(w.a, 1, 1, L, N)) return false; w.a.OrderElevateAlongParametricDimension(PD - 1); return true; }},
      {"a derivative", [](W &w) { Deg<PD> k{}; k[PD - 1] = 1; w.a = w.a.DerivativeWRTParametricDimension(k); return true; }},
      {"a right piece", [](W &w) { w.a = w.a.SplitAtPosition(static_cast<T>(.375), 0)[1]; return true; }},
      {"a middle piece", [](W &w) { w.a = w.a.SplitAtPosition(std::vector<T>{static_cast<T>(.25), static_cast<T>(.75)}, PD - 1)[1]; return true; }},
      {"a += b", [](W &w) { w.a += w.b; return true; }},
      {"a -= b", [](W &w) { w.a -= w.b; return true; }},
      {"b = a", [](W &w) { w.b = w.a; return true; }},
      {"a *= c", [](W &w) { w.a *= w.c; return true; }},
      {"a += p", [](W &w) { w.a += w.p; return true; }},
      {"a = -a", [](W &w) { w.a = -w.a; return true; }},
      {"a = linear * a", [](W &w) {
         if (!small(w.a, 1, 1, L, N)) return false;
         Deg<PD> k{};
         k[0] = 1;
         typename W::BT l(k);
         l.GetControlPoints()[0] = static_cast<T>(2), l.GetControlPoints()[1] = static_cast<T>(-.5);
         w.a = l * w.a;
         return true;
       }},
      {"a swapped with b", [](W &w) { std::swap(w.a, w.b); return true; }},
      {"a moved", [](W &w) { auto t = std::move(w.a); w.a = std::move(t); return true; }},
      {"a scaled", [](W &w) { w.a.TransposeAndScale(w.p, w.p2); return true; }},
      {"a resized", [](W &w) {
         auto g = w.a.GetDegrees();
         for (std::size_t i = 0; i < PD; i++) g[i] = (g[i] + 1 + i) % 3;
         w.a.UpdateDegrees(g);
         W::fill(w.a.GetControlPoints(), 91);
         return true;
       }},
      {"a shrunk, grown", [](W &w) {
         auto g = w.a.GetDegrees();
         auto z = g;
         z.fill(0);
         w.a.UpdateDegrees(z);
         w.a.UpdateDegrees(g);
         W::fill(w.a.GetControlPoints(), 92);
         return true;
       }},
      {"a written", [](W &w) {
         Deg<PD> i{};
         i[0] = w.a.GetDegrees()[0];
         w.a.ControlPoint(i) = w.p;
         w.a.GetControlPoints().back() = w.p2;
         return true;
       }},
      {"a composed", [](W &w) {
         std::size_t s = 0;
         for (auto d : w.a.GetDegrees()) s += d;
         if (s > (PD == 1 ? 6 : PD == 2 ? 3 : 2)) return false;
         w.a = w.a.Compose(w.q);
         return true;
       }},
      {"s = s + u", [](W &w) { w.s = w.s + w.u; return true; }},
      {"s power", [](W &w) { if (!small(w.s, 0, 2, L, N)) return false; w.s = w.s.RaisePower(2); return true; }},
      {"in elevated", [](W &w) { if (w.in.GetDegrees()[0] > 3) return false; w.in.OrderElevateAlongParametricDimension(0); return true; }},
      {"in split", [](W &w) { const auto v = w.in.SplitAtPosition(static_cast<T>(.5), 0); w.in = v[0], w.in2 = v[1]; w.group = v; return true; }},
      {"ra elevate", [](W &w) { if (!small(w.ra, 1, 1, L, N)) return false; w.ra.OrderElevateAlongParametricDimension(PD - 1); return true; }},
      {"ra piece", [](W &w) { w.ra = w.ra.SplitAtPosition(static_cast<T>(.375), PD - 1)[0]; return true; }},
      {"ra += rc", [](W &w) { if (!small(w.ra, 2, 2, L, N)) return false; w.ra += w.rc; return true; }},
      {"ra -= rb", [](W &w) { if (!small(w.ra, 3, 1, L + 2, N)) return false; w.ra -= w.rb; return true; }},
      {"ra *= c", [](W &w) { w.ra *= w.c; return true; }},
      {"ra += p", [](W &w) { w.ra += w.p; return true; }},
      {"ra derivative", [](W &w) {
         if (!small(w.ra, 1, 2, L + 2, N)) return false;
         Deg<PD> k{};
         k[0] = 1;
         w.ra = w.ra.DerivativeWRTParametricDimension(k);
         return true;
       }},
      {"ra from a", [](W &w) { w.ra = typename W::RP(w.a), w.rc = w.ra; return true; }},
      {"ra swapped with rb", [](W &w) { std::swap(w.ra, w.rb); return true; }},
      {"ra resized", [](W &w) {
         auto g = w.ra.GetDegrees();
         for (std::size_t i = 0; i < PD; i++) g[i] = (g[i] + 1) % 3;
         w.ra.UpdateDegrees(g);
         w.ra = W::template rat<typename W::RP, typename W::P>(g, 93, 94);
         return true;
       }},
      {"rb written", [](W &w) {
         w.rb.GetWeights().back() = static_cast<T>(1.25);
         w.rb.GetWeightedControlPoints().front() = w.p;
         return true;
       }},
      {"ra composed", [](W &w) {
         std::size_t s = 0;
         for (auto d : w.ra.GetDegrees()) s += d;
         if (s > (PD == 1 ? 6 : PD == 2 ? 3 : 2)) return false;
         w.ra = w.ra.Compose(w.q);
         return true;
       }},
      {"p assigned", [](W &w) { w.p *= w.p[0]; w.p += w.p2; w.p /= w.c; return true; }},
  };
  return list;
}
// bounds of the cost of the expensive entries
template <std::size_t PD, class T>
bool cheap(const World<PD, T> &w) {
  std::size_t s = 0, r = 0, in = w.in.GetDegrees()[0], n = 1;
  for (auto d : w.a.GetDegrees()) s += d, n *= d + 1;
  for (auto d : w.b.GetDegrees()) s = std::max<std::size_t>(s, d * PD), n = std::max<std::size_t>(n, d + 1);
  for (auto d : w.ra.GetDegrees()) r += d;
  for (auto d : w.rb.GetDegrees()) r = std::max<std::size_t>(r, d * PD);
  return std::max(s, r) * in <= (PD == 1 ? 16 : PD == 2 ? 12 : 8) && n <= 40;
}
inline bool expensive(const std::string &n) {
  return n.rfind("compose", 0) == 0 || n.rfind("sensitivity", 0) == 0 || n == "RaisePower" || n == "r product" || n == "r DerivativeWRT";
}
}  // namespace ct

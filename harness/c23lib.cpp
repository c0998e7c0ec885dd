// One build configuration of the library behind a C interface.
#include <cstddef>
#include <string>

#include "cat_hist.hpp"
#include "bezman/src/utils/logger.hpp"

#define API extern "C" __attribute__((visibility("default")))
using T = CFG_T;
using LD = long double;
struct Result {
  const LD *v;
  std::size_t nv;
  const long long *d;
  std::size_t nd;
  LD scale;  // magnitude of the operands
  int ran;   // 0: history not applicable, -1: unexpected exception
  const char *what;
};
API int c23_entries() { return static_cast<int>(ct::catalogue<PART, T>().size()); }
API const char *c23_entry(int i) { return ct::catalogue<PART, T>()[i].name; }
API int c23_mutations() { return static_cast<int>(ct::mutations<PART, T>().size()); }
API const char *c23_mutation(int i) { return ct::mutations<PART, T>()[i].name; }
API void c23_level(unsigned l) { bezman::utils::Logger::SetOutputLevel(l); }
API int c23_table() { return static_cast<int>(MAX_BINOMIAL_DEGREE); }
API std::size_t c23_choose(unsigned n, unsigned i) { return bezman::utils::FastBinomialCoefficient::choose(n, i); }
// values and derivatives of all Bernstein polynomials of a degree
API Result c23_bernstein(std::size_t n, LD x, int der) {
  static ct::Out o;
  o = ct::Out{};
  o.put(der < 0 ? bezman::utils::algorithms::BernsteinPolynomial<T>::Evaluate(n, static_cast<T>(x)) : bezman::utils::algorithms::BernsteinPolynomial<T>::EvaluateDerivative(n, static_cast<T>(x), static_cast<std::size_t>(der)));
  return {o.v.data(), o.v.size(), o.d.data(), o.d.size(), 1, 1, ""};
}
// a spline of high degree: values, halves, product with a linear spline
API Result c23_high(std::size_t n, LD x) {
  static ct::Out o;
  o = ct::Out{};
  bezman::BezierSpline<1, T, T> s(ct::Deg<1>{n}), l(ct::Deg<1>{1});
  for (std::size_t i = 0; i <= n; i++) s.GetControlPoints()[i] = static_cast<T>(ct::val(3, i, 0));
  l.GetControlPoints()[0] = T(1), l.GetControlPoints()[1] = T(2);
  o.put(s.Evaluate(static_cast<T>(x)));
  o.put(s.ForwardEvaluate(static_cast<T>(x)));
  const auto v = s.SplitAtPosition(T(.5), 0);
  o.put(v[0].Evaluate(static_cast<T>(x))), o.put(v[1].Evaluate(static_cast<T>(x)));
  if (n + 1 < MAX_BINOMIAL_DEGREE) o.put((l * s).Evaluate(static_cast<T>(x)));
  return {o.v.data(), o.v.size(), o.d.data(), o.d.size(), 1, 1, ""};
}
API Result c23_run(const std::size_t *g, const std::size_t *h, unsigned seed, const int *hist, int nhist, int entry) {
  static ct::Out o;
  static std::string what;
  using W = ct::World<PART, T>;
  ct::Deg<PART> gg, hh;
  for (std::size_t i = 0; i < PART; i++) gg[i] = g[i], hh[i] = h[i];
  o = ct::Out{};
  LD scale = 1;
  try {
    W w(gg, hh, seed);
    for (int i = 0; i < nhist; i++)
      if (!ct::mutations<PART, T>()[hist[i]].f(w)) return {nullptr, 0, nullptr, 0, 1, 0, ""};
    const ct::Out s = w.snapshot();
    for (const auto x : s.v) scale = std::max(scale, std::fabs(x));
    if (entry < 0) {
      o = s;
      for (int i : {0, 2, 3, 26, 38, 39})
        ct::catalogue<PART, T>()[i].f(w, o);
    } else {
      const auto &e = ct::catalogue<PART, T>()[entry];
      if (nhist && ct::expensive(e.name) && !ct::cheap(w)) return {nullptr, 0, nullptr, 0, 1, 0, ""};
      e.f(w, o);
    }
  } catch (const std::exception &e) {
    what = e.what();
    return {nullptr, 0, nullptr, 0, 1, -1, what.c_str()};
  }
  return {o.v.data(), o.v.size(), o.d.data(), o.d.size(), scale, 1, ""};
}

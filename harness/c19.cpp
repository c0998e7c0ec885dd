// C19: binomial tables of every size, Bernstein polynomials of every degree.
#ifndef PART
#define PART 30
#endif
#define MAX_BINOMIAL_DEGREE PART
#include <array>
#include <limits>
#include <cmath>
#include <cassert>
#include <vector>
#include <algorithm>

#include "bezman/src/utils/algorithms/bernstein_polynomial.hpp"
#include "bezman/src/utils/binomialcoefficientlookuptablecreator.hpp"
#include "bezman/src/utils/fastbinomialcoefficient.hpp"
#include "mc/core.hpp"
using namespace mc;
using U = unsigned __int128;
// n over k by multiplication (exact), independent of Pascal's triangle
U choose(unsigned n, unsigned k) {
  if (k > n) return 0;
  U r = 1;
  for (unsigned j = 1; j <= k; j++) r = r * (n - k + j) / j;
  return r;
}
template <class S, unsigned N>
void table(Ctx &c, const char *nm) {
  c.scenario([&] { return cat("table/", nm, "/", N); },
             [&] {
               using T = bezman::utils::BinomialCoefficientLookupTableCreator<S, N>;
               const auto t = T::calculate_table();
               if (!c.expect(t.size() == N * (N + 1) / 2 && T::n_values == t.size(), "size of the table")) return;
               std::size_t at = 0;
               for (unsigned n = 0; n < N; n++)
                 for (unsigned k = 0; k <= n; k++, at++) {
                   const U e = choose(n, k);
                   c.transitions++;
                   bool ok;
                   if constexpr (std::is_floating_point_v<S>) {
                     // exact as long as the integer is representable
                     const LD l = static_cast<LD>(e);
                     ok = e <= (U(1) << std::numeric_limits<S>::digits) ? LD(t[at]) == l : std::fabs(LD(t[at]) - l) <= LD(N) * std::numeric_limits<S>::epsilon() * l;
                   } else if (e > U(std::numeric_limits<S>::max()))
                     ok = true;  // not representable in the table
                   else
                     ok = U(t[at]) == e;
                   if (!c.expect(ok, cat("binomial ", n, " over ", k, " is ", t[at]))) return;
                 }
               c.state(hcomb(hstr(nm), N));
             });
}
template <class S, unsigned... N>
void tables(Ctx &c, const char *nm, std::integer_sequence<unsigned, N...>) {
  (table<S, N + 1>(c, nm), ...);
}
template <class S>
void bernstein(Ctx &c, const char *nm) {
  using B = bezman::utils::algorithms::BernsteinPolynomial<S>;
  const int L = c.level;
  std::vector<LD> xs{0, 1, .5L, .25L, .0009765625L, .9990234375L, 1e-9L, -.25L, 1.5L, -1, 2};
  for (int i = 1; i < (L == 2 ? 64 : L ? 20 : 7); i++) xs.push_back(i / LD(L == 2 ? 64 : L ? 20 : 7));
  const LD eps = std::numeric_limits<S>::epsilon();
  for (unsigned n = 0; n < MAX_BINOMIAL_DEGREE; n++)
    for (std::size_t d = 0; d <= n + 3; d++)
      c.scenario([&] { return cat("bernstein/", nm, "/", n, "/", d); },
                 [&] {
                   for (LD xl : xs) {
                     const S x = static_cast<S>(xl);
                     const LD t = x, u = 1 - t;
                     const std::size_t deg = n;
                     const S xc = x;
                     const std::vector<S> v = B::EvaluateDerivative(deg, xc, d);
                     c.transitions++;
                     if (!c.expect(v.size() == n + 1, cat(v.size(), " values"))) return;
                     std::vector<S> w;
                     if (d == 0) {
                       w = B::Evaluate(deg, xc);
                       if (!c.expect(w.size() == n + 1, cat(w.size(), " values"))) return;
                     }
                     // definition
                     std::vector<LD> e(n + 1, 0), sc(n + 1, 0);
                     LD f = 1;
                     for (std::size_t i = 0; i < d && i <= n; i++) f *= LD(n - i);
                     if (d <= n)
                       for (unsigned i = 0; i <= n; i++)
                         for (unsigned j = 0; j <= d && j <= i; j++) {
                           const unsigned m = n - static_cast<unsigned>(d), b = i - j;
                           if (b > m) continue;
                           const LD q = f * LD(choose(static_cast<unsigned>(d), j)) * LD(choose(m, b)) * std::pow(t, LD(b)) * std::pow(u, LD(m - b));
                           e[i] += ((d - j) & 1) ? -q : q;
                           sc[i] += std::fabs(q);
                         }
                     // powers of the parameter may lose digits near underflow
                     LD tiny = LD(std::numeric_limits<S>::min()) * 1e3L;
                     if (d <= n) tiny += 64 * LD(std::numeric_limits<S>::denorm_min()) * LD(choose(n, n / 2)) * LD(choose(static_cast<unsigned>(d), static_cast<unsigned>(d) / 2));
                     LD sum = 0, ssum = 0;
                     for (unsigned i = 0; i <= n; i++) {
                       sum += v[i];
                       ssum += sc[i];
                       if (sc[i] > LD(std::numeric_limits<S>::max()) / 1e6L || f * 1e3L > LD(std::numeric_limits<S>::max())) return;  // overflows the precision
                       const LD tol = (6 * LD(n) + 8 * LD(d) + 16) * eps;
                       if (d > n && !c.expect(v[i] == 0, cat("derivative above the degree: value ", i, " is ", LD(v[i])))) return;
                       const auto what = [&] { return cat("value ", i, " at ", xl); };
                       if (!c.close(v[i], e[i], 1, tol * sc[i] + tiny * std::max(LD(1), f), what)) return;
                       if (d == 0 && !c.close(w[i], e[i], 1, tol * sc[i] + tiny, what)) return;
                       if (d == 0 && t >= 0 && t <= 1 && !c.expect(v[i] >= 0 && w[i] >= 0, cat("negative value ", i, " at ", xl))) return;
                     }
                     if (!c.close(sum, d == 0 ? 1 : 0, 1, (8 * LD(n) + 8 * LD(d) + 16) * eps * ssum + tiny * std::max(LD(1), f), [&] { return cat("sum at ", xl); })) return;
                   }
                   c.state(hcomb(hstr(nm), n * 1000 + d));
                 });
}
void explore(Ctx &c) {
  // the table the library looks values up in
  c.scenario([&] { return std::string("choose"); },
             [&] {
               for (unsigned n = 0; n < MAX_BINOMIAL_DEGREE; n++)
                 for (unsigned k = 0; k <= n; k++) {
                   c.transitions++;
                   if (!c.expect(U(bezman::utils::FastBinomialCoefficient::choose(n, k)) == choose(n, k), cat(n, " over ", k))) return;
                 }
             });
  bernstein<double>(c, "double");
  bernstein<float>(c, "float");
  bernstein<long double>(c, "long double");
  if constexpr (PART == 30) {
    tables<std::size_t>(c, "size_t", std::make_integer_sequence<unsigned, 68>{});
    tables<unsigned>(c, "unsigned", std::make_integer_sequence<unsigned, 34>{});
    tables<double>(c, "double", std::make_integer_sequence<unsigned, 57>{});
    tables<long double>(c, "long double", std::make_integer_sequence<unsigned, 67>{});
    tables<int>(c, "int", std::make_integer_sequence<unsigned, 33>{});
  }
}

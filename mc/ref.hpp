// Reference model of (rational) tensor product Bezier splines in long double.
// Deliberately naive and written from the mathematical definition only; shares
// no code with bezman.
#pragma once
#include <array>
#include <functional>
#include <map>

#include "core.hpp"

namespace mc {
constexpr int MAXD = 5;
using Deg = std::array<int, MAXD>;
using Pt = std::array<LD, MAXD>;

inline LD fall(int p, int k) {  // p (p-1) ... (p-k+1)
  LD r = 1;
  for (int i = 0; i < k; i++) r *= (p - i);
  return r;
}
inline LD binom(int n, int k) {
  if (k < 0 || k > n) return 0;
  if (k > n - k) k = n - k;
  LD r = 1;
  for (int i = 1; i <= k; i++) r = r * (n - k + i) / i;
  return std::round(r);
}
inline LD ipow(LD x, int n) {
  LD r = 1;
  for (int i = 0; i < n; i++) r *= x;
  return r;
}
// B_{i,n}(x) for all i
inline std::vector<LD> bern(int n, LD x) {
  std::vector<LD> b(n + 1);
  for (int i = 0; i <= n; i++)
    b[i] = binom(n, i) * ipow(x, i) * ipow(1 - x, n - i);
  return b;
}
// k-th derivative of every B_{i,n} at x
inline std::vector<LD> bern_d(int n, LD x, int k) {
  if (k == 0) return bern(n, x);
  std::vector<LD> r(n + 1, 0);
  if (k > n) return r;
  const std::vector<LD> lo = bern_d(n - 1, x, k - 1);
  for (int i = 0; i <= n; i++) {
    LD a = i > 0 ? lo[i - 1] : 0, b = i <= n - 1 ? lo[i] : 0;
    r[i] = n * (a - b);
  }
  return r;
}

// polynomial tensor spline; coefficients: ctp index (first direction fastest)
// times dim + coordinate
struct RP {
  int pd = 1, dim = 1;
  Deg deg{};
  std::vector<LD> c;
  int n() const {
    int r = 1;
    for (int i = 0; i < pd; i++) r *= deg[i] + 1;
    return r;
  }
  LD at(int i, int k) const { return c[static_cast<size_t>(i) * dim + k]; }
  LD maxabs(int k) const {
    LD m = 0;
    for (int i = 0; i < n(); i++) m = std::max(m, std::fabs(at(i, k)));
    return m;
  }
  LD minval(int k) const {
    LD m = at(0, k);
    for (int i = 0; i < n(); i++) m = std::min(m, at(i, k));
    return m;
  }
  // contraction with given per-direction coefficient vectors
  std::vector<LD> contract(const std::vector<std::vector<LD>> &b) const {
    std::vector<LD> cur(c);
    int total = n();
    for (int d = 0; d < pd; d++) {
      const int m = deg[d] + 1;
      const int rest = total / m;
      std::vector<LD> nx(static_cast<size_t>(rest) * dim, 0);
      for (int r = 0; r < rest; r++)
        for (int i = 0; i < m; i++) {
          const LD w = b[d][i];
          if (w == 0) continue;
          for (int k = 0; k < dim; k++)
            nx[static_cast<size_t>(r) * dim + k] +=
                w * cur[(static_cast<size_t>(r) * m + i) * dim + k];
        }
      cur.swap(nx);
      total = rest;
    }
    return cur;
  }
  std::vector<LD> eval(const Pt &x) const {
    std::vector<std::vector<LD>> b;
    for (int d = 0; d < pd; d++) b.push_back(bern(deg[d], x[d]));
    return contract(b);
  }
  std::vector<LD> deriv(const Pt &x, const Deg &o) const {
    std::vector<std::vector<LD>> b;
    for (int d = 0; d < pd; d++) b.push_back(bern_d(deg[d], x[d], o[d]));
    return contract(b);
  }
};

// nodes of a tensor grid and function values on it
using Nodes = std::vector<std::vector<LD>>;

// n+1 distinct nodes that decide a polynomial of degree n, exactly
// representable as double, including 0 and 1
inline std::vector<LD> nodes1(int n) {
  if (n <= 0) return {0.5L};
  std::vector<LD> r;
  for (int j = 0; j <= n; j++) {
    if (j == 0)
      r.push_back(0);
    else if (j == n)
      r.push_back(1);
    else
      r.push_back(static_cast<LD>(static_cast<double>(
          0.5 * (1 - std::cos(3.14159265358979323846 * j / n)))));
  }
  return r;
}
inline Nodes nodes(int pd, const Deg &deg) {
  Nodes r;
  for (int d = 0; d < pd; d++) r.push_back(nodes1(deg[d]));
  return r;
}
inline size_t ngrid(const Nodes &g) {
  size_t n = 1;
  for (auto &v : g) n *= v.size();
  return n;
}
inline Pt gpoint(const Nodes &g, size_t i) {
  Pt x{};
  for (size_t d = 0; d < g.size(); d++) {
    x[d] = g[d][i % g[d].size()];
    i /= g[d].size();
  }
  return x;
}
// values of p on the whole grid (first direction fastest), by successive
// contraction
inline std::vector<LD> grid(const RP &p, const Nodes &g,
                            const Deg &o = Deg{}) {
  std::vector<LD> cur(p.c);
  // layout: [.. dims ..][coordinate]; contract direction d in place
  std::vector<int> sz(p.pd);
  for (int d = 0; d < p.pd; d++) sz[d] = p.deg[d] + 1;
  for (int d = 0; d < p.pd; d++) {
    size_t inner = p.dim, outer = 1;
    for (int e = 0; e < d; e++) inner *= sz[e];
    for (int e = d + 1; e < p.pd; e++) outer *= sz[e];
    const size_t m = sz[d], gm = g[d].size();
    std::vector<LD> nx(inner * gm * outer, 0);
    for (size_t q = 0; q < gm; q++) {
      const std::vector<LD> b = bern_d(p.deg[d], g[d][q], o[d]);
      for (size_t ou = 0; ou < outer; ou++)
        for (size_t i = 0; i < m; i++) {
          const LD w = b[i];
          if (w == 0) continue;
          const LD *src = &cur[(ou * m + i) * inner];
          LD *dst = &nx[(ou * gm + q) * inner];
          for (size_t t = 0; t < inner; t++) dst[t] += w * src[t];
        }
    }
    cur.swap(nx);
    sz[d] = static_cast<int>(gm);
  }
  return cur;
}

// rational: numerator (weighted) and weight function
struct RR {
  RP num, w;
  std::vector<LD> eval(const Pt &x) const {
    std::vector<LD> a = num.eval(x);
    const LD b = w.eval(x)[0];
    for (auto &v : a) v /= b;
    return a;
  }
  // mixed partial derivative through division of truncated Taylor series
  std::vector<LD> deriv(const Pt &x, const Deg &o) const {
    const int pd = num.pd;
    int total = 1;
    Deg ext{};
    for (int d = 0; d < pd; d++) {
      ext[d] = o[d] + 1;
      total *= ext[d];
    }
    auto un = [&](int id) {
      Deg r{};
      for (int d = 0; d < pd; d++) {
        r[d] = id % ext[d];
        id /= ext[d];
      }
      return r;
    };
    auto fl = [&](const Deg &m) {
      int id = 0, st = 1;
      for (int d = 0; d < pd; d++) {
        id += st * m[d];
        st *= ext[d];
      }
      return id;
    };
    std::vector<std::vector<LD>> a(total), q(total);
    std::vector<LD> b(total);
    for (int t = 0; t < total; t++) {
      const Deg m = un(t);
      LD f = 1;
      for (int d = 0; d < pd; d++)
        for (int i = 2; i <= m[d]; i++) f *= i;
      a[t] = num.deriv(x, m);
      for (auto &v : a[t]) v /= f;
      b[t] = w.deriv(x, m)[0] / f;
    }
    for (int t = 0; t < total; t++) {
      const Deg m = un(t);
      q[t] = a[t];
      for (int s = 0; s < t; s++) {  // q_s * b_{m-s}
        const Deg ms = un(s);
        bool ok = true;
        Deg df{};
        for (int d = 0; d < pd; d++) {
          df[d] = m[d] - ms[d];
          if (df[d] < 0) ok = false;
        }
        if (!ok) continue;
        const LD bb = b[fl(df)];
        for (size_t k = 0; k < q[t].size(); k++) q[t][k] -= q[s][k] * bb;
      }
      for (auto &v : q[t]) v /= b[0];
    }
    LD f = 1;
    for (int d = 0; d < pd; d++)
      for (int i = 2; i <= o[d]; i++) f *= i;
    std::vector<LD> r = q[total - 1];
    for (auto &v : r) v *= f;
    return r;
  }
};

inline uint64_t hashRP(const RP &p, uint64_t h = 7) {
  h = hcomb(h, p.pd * 64 + p.dim);
  for (int d = 0; d < p.pd; d++) h = hcomb(h, p.deg[d]);
  for (auto v : p.c) h = hcomb(h, hreal(v));
  return h;
}

// all degree tuples with lo <= deg[d] <= hi
template <class F>
void for_degs(int pd, int lo, int hi, const F &f) {
  Deg d{};
  for (int i = 0; i < pd; i++) d[i] = lo;
  while (true) {
    f(static_cast<const Deg &>(d));
    int i = 0;
    while (i < pd && ++d[i] > hi) d[i++] = lo;
    if (i == pd) return;
  }
}
inline std::string dstr(int pd, const Deg &d) {
  std::string s;
  for (int i = 0; i < pd; i++) s += (i ? "x" : "") + std::to_string(d[i]);
  return s;
}
}  // namespace mc

// Register programs over automatic-differentiation types, judged against
// truncated Taylor series in long double that carry a running error bound.
#pragma once
#include <array>
#include <limits>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/point.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "mc/core.hpp"

namespace ad {
using mc::LD;
template <class S, std::size_t N = 0>
using AD = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;

// --- value with a bound on the rounding error of a computation in precision
inline LD &eps() {
  static LD e = std::numeric_limits<double>::epsilon();
  return e;
}
struct E {
  LD v = 0, e = 0;
  E() = default;
  E(LD x, LD y = 0) : v(x), e(y) {}
};
inline E rnd(LD v, LD e) { return {v, e + eps() * std::fabs(v)}; }
inline E operator+(E a, E b) { return rnd(a.v + b.v, a.e + b.e); }
inline E operator-(E a, E b) { return rnd(a.v - b.v, a.e + b.e); }
inline E operator-(E a) { return {-a.v, a.e}; }
inline E operator*(E a, E b) { return rnd(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e); }
// f(u): slope bounds |f'| near u
inline E fn(LD f, LD slope, E u) { return {f, 2 * std::fabs(slope) * u.e + 4 * eps() * std::fabs(f)}; }
inline E inv(E u) { return fn(1 / u.v, 1 / (u.v * u.v), u); }
inline E ex(E u) { return fn(std::exp(u.v), std::exp(u.v), u); }
inline E lg(E u) { return fn(std::log(u.v), 1 / u.v, u); }
inline E sn(E u) { return fn(std::sin(u.v), 1, u); }
inline E cs(E u) { return fn(std::cos(u.v), 1, u); }
inline E pw(E u, LD c) {
  const LD s = c == 0 ? 0 : std::fabs(c * std::pow(u.v, c - 1));
  return fn(std::pow(u.v, c), std::isfinite(s) ? s : 0, u);
}

template <class S>
void precision();
// wide range: values of any magnitude, judged by relative accuracy alone
struct Wide {
  bool on = false;
  LD lo = 1e-270L, hi = 1e270L, exponent = 200;
};
inline Wide &wide() {
  static Wide w;
  return w;
}
constexpr int NV = 3;  // number of active variables
struct J {             // value, gradient, Hessian
  E v;
  std::array<E, NV> g{};
  std::array<std::array<E, NV>, NV> h{};
};
inline bool &second() {
  static bool s = false;
  return s;
}
inline J con(LD c) {
  J j;
  j.v = {c, 0};
  return j;
}
inline J var(LD x, int i) {
  J j = con(x);
  j.g[i] = {1, 0};
  return j;
}
inline J lin(const J &a, const J &b, int s) {
  J r;
  const auto c = [&](E x, E y) { return s > 0 ? x + y : x - y; };
  r.v = c(a.v, b.v);
  for (int i = 0; i < NV; i++) r.g[i] = c(a.g[i], b.g[i]);
  if (second())
    for (int i = 0; i < NV; i++)
      for (int j = 0; j < NV; j++) r.h[i][j] = c(a.h[i][j], b.h[i][j]);
  return r;
}
inline J mul(const J &a, const J &b) {
  J r;
  r.v = a.v * b.v;
  for (int i = 0; i < NV; i++) r.g[i] = a.v * b.g[i] + b.v * a.g[i];
  if (second())
    for (int i = 0; i < NV; i++)
      for (int j = 0; j < NV; j++) r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + (a.g[i] * b.g[j] + a.g[j] * b.g[i]);
  return r;
}
inline J lift(const J &u, E f, E f1, E f2) {
  J r;
  r.v = f;
  for (int i = 0; i < NV; i++) r.g[i] = f1 * u.g[i];
  if (second())
    for (int i = 0; i < NV; i++)
      for (int j = 0; j < NV; j++) r.h[i][j] = f2 * (u.g[i] * u.g[j]) + f1 * u.h[i][j];
  return r;
}
inline J recip(const J &u) {
  const E i = inv(u.v), i2 = i * i;
  return lift(u, i, -i2, E(2) * (i2 * i));
}

// --- instructions -----------------------------------------------------------
enum Op {
  EXP, LOG, LOG10, SQRT, ABS, SIN, COS, TAN, ASIN, ACOS, ATAN, NEG, POWC,   // r = f(r)
  ADC, CAD, SUC, CSU, MUC, CMU, DIC, CDI, IADC, ISUC, IMUC, IDIC, SETC,     // with a scalar
  ADD, SUB, MUL, DIV, POW, IADD, ISUB, IMUL, IDIV, CPY                      // r op q
};
inline const char *name(Op o) {
  static const char *n[] = {"exp", "log", "log10", "sqrt", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "neg", "powc",
                            "r+c", "c+r", "r-c", "c-r", "r*c", "c*r", "r/c", "c/r", "r+=c", "r-=c", "r*=c", "r/=c", "r=c",
                            "+", "-", "*", "/", "pow", "+=", "-=", "*=", "/=", "="};
  return n[o];
}
struct Ins {
  Op o;
  int i, j;
  double c;
};
inline std::string str(const Ins &x) {
  if (x.o >= ADD) return mc::cat("r", x.i, name(x.o), "r", x.j);
  if (x.o >= POWC) return mc::cat("r", x.i, ":", name(x.o), "(", x.c, ")");
  return mc::cat("r", x.i, ":", name(x.o));
}
// can the scalar be assigned / nested types take another scalar
constexpr int NR = 3;
inline std::vector<Ins> alphabet(int size) {  // 0 short, 1 full
  std::vector<Ins> v;
  for (int i = 0; i < NR; i++) {
    for (int o = EXP; o <= NEG; o++) v.push_back({Op(o), i, 0, 0});
    for (double c : size ? std::vector<double>{-2, -1, -.5, 0, .5, 1, 2, 3, 2.5} : std::vector<double>{-1, 2, 2.5}) v.push_back({POWC, i, 0, c});
    for (int o = ADC; o <= SETC; o++)
      for (double c : size ? std::vector<double>{2, -.75, 0} : std::vector<double>{-.75}) v.push_back({Op(o), i, 0, c});
    for (int j = 0; j < NR; j++)
      for (int o = ADD; o <= CPY; o++) v.push_back({Op(o), i, j, 0});
  }
  return v;
}
// reference step; false: outside of the domain of differentiability (or too
// close to its border for the precision)
inline bool step(const Ins &x, std::array<J, NR> &r) {
  J &a = r[x.i];
  const J b = r[x.j];
  const Wide &W = wide();
  const LD tiny = 4 * std::numeric_limits<LD>::min();
  const LD v = a.v.v, m = W.on ? tiny : 1e-2L + 1e3L * a.v.e;
  const LD c = x.c;
  const auto ok = [&](const J &j) {
    a = j;
    // whatever formula is used, it may round at the size of the components
    LD m = std::fabs(j.v.v);
    for (int i = 0; i < NV; i++) {
      m = std::max(m, std::fabs(j.g[i].v));
      if (second())
        for (int k = 0; k < NV; k++) m = std::max(m, std::fabs(j.h[i][k].v));
    }
    if (!W.on && x.o != CPY && x.o != SETC) {
      m *= eps();
      a.v.e += m;
      for (int i = 0; i < NV; i++) {
        a.g[i].e += m;
        if (second())
          for (int k = 0; k < NV; k++) a.h[i][k].e += m;
      }
    }
    const auto fine = [&](const E &e) {
      if (W.on) return std::isfinite(e.v) && (e.v == 0 ? e.e == 0 : std::fabs(e.v) < W.hi && std::fabs(e.v) > W.lo && e.e < 1e-3L * std::fabs(e.v));
      return std::isfinite(e.v) && std::fabs(e.v) < 1e9L && e.e < 1e-3L;
    };
    if (!fine(j.v)) return false;
    for (int i = 0; i < NV; i++) {
      if (!fine(j.g[i])) return false;
      if (second())
        for (int k = 0; k < NV; k++)
          if (!fine(j.h[i][k])) return false;
    }
    return true;
  };
  switch (x.o) {
    case EXP: { if (W.on ? std::fabs(v) > W.exponent : v > 20) return false; const E f = ex(a.v); return ok(lift(a, f, f, f)); }
    case LOG: { if (v < m) return false; const E i = inv(a.v); return ok(lift(a, lg(a.v), i, -(i * i))); }
    case LOG10: {
      if (v < m) return false;
      const E i = inv(a.v), k = {1 / std::log(10.0L), 0};
      return ok(lift(a, lg(a.v) * k, i * k, -(i * i) * k));
    }
    case SQRT: { if (v < m) return false; return ok(lift(a, pw(a.v, .5L), E(.5L) * pw(a.v, -.5L), E(-.25L) * pw(a.v, -1.5L))); }
    case ABS: { if (std::fabs(v) < m) return false; const LD s = v < 0 ? -1 : 1; return ok(lift(a, E(s) * a.v, E(s), E(0))); }
    case SIN: { const E s = sn(a.v), k = cs(a.v); return ok(lift(a, s, k, -s)); }
    case COS: { const E s = sn(a.v), k = cs(a.v); return ok(lift(a, k, -s, -k)); }
    case TAN: {
      const E s = sn(a.v), k = cs(a.v);
      if (std::fabs(k.v) < m * 5) return false;
      const E i = inv(k), t = s * i, f1 = i * i;
      return ok(lift(a, t, f1, E(2) * (t * f1)));
    }
    case ASIN:
    case ACOS: {
      if (std::fabs(v) > 1 - m * 5) return false;
      const E q = E(1) - a.v * a.v, f1 = pw(q, -.5L), f2 = a.v * pw(q, -1.5L);
      const E f = x.o == ASIN ? fn(std::asin(v), f1.v, a.v) : fn(std::acos(v), f1.v, a.v);
      return ok(x.o == ASIN ? lift(a, f, f1, f2) : lift(a, f, -f1, -f2));
    }
    case ATAN: {
      const E f1 = inv(E(1) + a.v * a.v);
      return ok(lift(a, fn(std::atan(v), f1.v, a.v), f1, E(-2) * (a.v * (f1 * f1))));
    }
    case NEG: return ok(lift(a, -a.v, E(-1), E(0)));
    case POWC: {
      const bool integer = c == std::floor(c);
      if (v == 0) {
        if (second() || c < 1) return false;  // nested powers need log(base)
      } else if (v < m && (second() || !integer || v > -m))
        return false;
      E f1 = c == 0 ? E(0) : E(c) * pw(a.v, c - 1), f2 = c == 0 || c == 1 ? E(0) : E(c * (c - 1)) * pw(a.v, c - 2);
      if (!second()) f2 = E(0);
      else {
        f1.e += 4 * eps() * (1 + std::fabs(c)) * std::fabs(std::pow(v, c - 1));
        f2.e += 8 * eps() * (1 + c * c) * std::fabs(std::pow(v, c - 2));
      }
      E f0 = pw(a.v, c);
      if (W.on && v != 0) {  // formulae with logarithm and exponential
        const LD k = eps() * (1 + std::fabs(c * std::log(std::fabs(v))));
        f0.e += k * std::fabs(f0.v);
        f1.e += k * std::fabs(f1.v);
        f2.e += k * std::fabs(f2.v);
      }
      return ok(lift(a, f0, f1, f2));
    }
    case ADC: case CAD: case IADC: return ok(lin(a, con(c), 1));
    case SUC: case ISUC: return ok(lin(a, con(c), -1));
    case CSU: return ok(lin(con(c), a, -1));
    case MUC: case CMU: case IMUC: return ok(mul(a, con(c)));
    case DIC: case IDIC: return c != 0 && ok(mul(a, con(1 / c)));
    case CDI: return std::fabs(v) >= m && ok(mul(con(c), recip(a)));
    case SETC: return ok(con(c));
    case ADD: case IADD: return ok(lin(a, b, 1));
    case SUB: case ISUB: return ok(lin(a, b, -1));
    case MUL: case IMUL: return ok(mul(a, b));
    case DIV: case IDIV: return std::fabs(b.v.v) >= (W.on ? tiny : 1e-2L + 1e3L * b.v.e) && ok(mul(a, recip(b)));
    case POW: {
      if (v < m) return false;
      const E i = inv(a.v);
      const J l = lift(a, lg(a.v), i, -(i * i)), p = mul(l, b);
      if (W.on ? std::fabs(p.v.v) > W.exponent : p.v.v > 20) return false;
      const E f = ex(p.v);
      return ok(lift(p, f, f, f));
    }
    case CPY: return ok(b);
  }
  return false;
}
// the same instruction on the implementation; S: its scalar type
template <class S, class X, class SET>
void run(const Ins &x, std::array<X, NR> &r, const SET &set) {
  X &a = r[x.i];
  const S c(x.c);
  switch (x.o) {
    case EXP: a = exp(a); break;
    case LOG: a = log(a); break;
    case LOG10: a = log10(a); break;
    case SQRT: a = sqrt(a); break;
    case ABS: a = abs(a); break;
    case SIN: a = sin(a); break;
    case COS: a = cos(a); break;
    case TAN: a = tan(a); break;
    case ASIN: a = asin(a); break;
    case ACOS: a = acos(a); break;
    case ATAN: a = atan(a); break;
    case NEG: a = -a; break;
    case POWC: a = pow(a, c); break;
    case ADC: a = a + c; break;
    case CAD: a = c + a; break;
    case SUC: a = a - c; break;
    case CSU: a = c - a; break;
    case MUC: a = a * c; break;
    case CMU: a = c * a; break;
    case DIC: a = a / c; break;
    case CDI: a = c / a; break;
    case IADC: a += c; break;
    case ISUC: a -= c; break;
    case IMUC: a *= c; break;
    case IDIC: a /= c; break;
    case SETC: set(a, x.c); break;
    case ADD: a = a + r[x.j]; break;
    case SUB: a = a - r[x.j]; break;
    case MUL: a = a * r[x.j]; break;
    case DIV: a = a / r[x.j]; break;
    case POW: a = pow(a, r[x.j]); break;
    case IADD: a += r[x.j]; break;
    case ISUB: a -= r[x.j]; break;
    case IMUL: a *= r[x.j]; break;
    case IDIV: a /= r[x.j]; break;
    case CPY: a = r[x.j]; break;
  }
}
// input points: values of the two active registers and the constant one
inline const std::vector<std::array<double, NR>> &points() {
  static const std::vector<std::array<double, NR>> p{{.5, .25, 2},   {-.5, 1.5, .75},  {0, .625, -1.25}, {1.25, -.75, 0},
                                                     {1, 1, 1},      {-.25, -.25, .5}, {3, .125, -2},    {-2, -1.5, 3}};
  return p;
}
// magnitudes up to the border of the range (linear operations) or as far as
// intermediate results of any formula stay in range
template <class S>
void widen(bool linear) {
  Wide &w = wide();
  w.on = true;
  using L = std::numeric_limits<S>;
  const LD top = std::pow(10.0L, std::min(L::max_exponent10, 308) - 2);
  w.hi = linear ? top : std::pow(top, .3L);
  w.lo = 1 / w.hi;
  if (linear) w.lo = static_cast<LD>(L::min()) * 1e3L;
  w.exponent = std::log(w.hi);
}
// magnitudes: decimal exponents, neighbourhoods of special arguments
template <class S>
std::vector<double> magnitudes(bool linear, bool fine) {
  using L = std::numeric_limits<S>;
  const int e = std::min(L::max_exponent10, 308) - 3, m = linear ? e : static_cast<int>(.29 * e);
  std::vector<double> v;
  const auto add = [&](double x) {
    x = static_cast<double>(static_cast<S>(x));
    v.push_back(x), v.push_back(-x);
  };
  const int st = std::max(1, m / (fine ? 24 : 5));
  for (int k = -m; k <= m; k += st) add(std::pow(10., k) * 1.375);
  if (m > 9)
    for (int k : {-20, -17, -16, -15, -13, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 6, 8, 10, 12, 16}) add(std::pow(10., k) * (fine ? 1.25 : 1));
  const double ep = static_cast<double>(L::epsilon());
  for (double x : fine ? std::vector<double>{1, 2, 3, .5, .1, 1.5707963267948966, 3.141592653589793, .7853981633974483, 1 + ep, 1 - ep, 1 + 1e3 * ep, 1 - 1e3 * ep, 1 + 1e-5, 1 - 1e-5, .99, .9, 1.1, 7, 100}
                       : std::vector<double>{1, 2, .5, 1 + 1e-5})
    add(x);
  return v;
}
constexpr LD SLACK = 64;
// far above the smallest normal number of the precision: no relative
// accuracy is claimed around underflow
inline LD &floor_() {
  static LD f = 1e-280L;
  return f;
}
inline bool near(LD got, const E &e) { return std::fabs(got - e.v) <= SLACK * e.e + 8 * eps() * std::fabs(e.v) + floor_(); }
template <class S>
void precision() {
  eps() = std::numeric_limits<S>::epsilon();
  wide().on = false;
  floor_() = static_cast<LD>(std::numeric_limits<S>::min()) * 1e8L;
}
}  // namespace ad

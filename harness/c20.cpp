// C20: points follow their component-wise definition.
#include "harness/ad.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
using ad::E;

template <class T>
constexpr bool isint = std::is_integral_v<T>;
// model of one component: exact integers, or reals with rounding error bounds
template <class T>
using M = std::conditional_t<isint<T>, long long, E>;
template <class T>
M<T> from(T v) {
  if constexpr (isint<T>)
    return static_cast<long long>(v);
  else
    return E(v, 0);
}
template <class T>
bool same(T got, const M<T> &m) {
  if constexpr (isint<T>)
    return static_cast<long long>(got) == m;
  else
    return ad::near(got, m);
}
template <class T>
bool valid(const M<T> &m) {  // representable with room, far from trouble
  if constexpr (isint<T>)
    return m >= (std::is_unsigned_v<T> ? 0 : -(1LL << (sizeof(T) == 2 ? 14 : 28))) && m <= 1LL << (sizeof(T) == 2 ? 14 : 28);
  else
    return std::isfinite(m.v) && std::fabs(m.v) < 1e12L && m.e < 1e-2L;
}
template <class T>
bool divisor(const M<T> &m) {
  if constexpr (isint<T>)
    return m != 0;
  else
    return std::fabs(m.v) > 1e-6L + 1e4L * m.e;
}
template <class T>
M<T> quot(const M<T> &a, const M<T> &b) {
  if constexpr (isint<T>)
    return a / b;
  else
    return a * ad::inv(b);
}
template <class T>
LD num(const M<T> &m) {
  if constexpr (isint<T>)
    return static_cast<LD>(m);
  else
    return m.v;
}
template <std::size_t D, class T>
struct Mach {
  using P = bezman::Point<D, T>;
  using A = std::array<M<T>, D>;
  Ctx &c;
  std::vector<std::string> hist;
  struct St {
    P p, q;
    A mp, mq;
  };
  bool bad(const std::string &w) {
    std::string s = w + " after";
    for (const auto &h : hist) s += " " + h;
    return c.expect(false, s);
  }
  bool eq(const P &p, const A &m, const char *w) {
    for (std::size_t i = 0; i < D; i++)
      if (!same<T>(p[i], m[i])) return bad(cat(w, " component ", i, " is ", LD(p[i]), " instead of ", num<T>(m[i])));
    return true;
  }
  static bool fine(const A &m) {
    for (const auto &x : m)
      if (!valid<T>(x)) return false;
    return true;
  }
  // observers: everything that does not change the points
  bool observe(const St &s) {
    const P p = s.p, q = s.q;
    A sum, dif, neg;
    M<T> in{}, sq{};
    for (std::size_t i = 0; i < D; i++) {
      sum[i] = s.mp[i] + s.mq[i];
      dif[i] = s.mp[i] - s.mq[i];
      neg[i] = M<T>(0) - s.mp[i];
      in = in + s.mp[i] * s.mq[i];
      sq = sq + s.mp[i] * s.mp[i];
    }
    c.transitions += 6;
    if (fine(sum) && !eq(p + q, sum, "p+q")) return false;
    if (fine(dif) && !eq(p - q, dif, "p-q")) return false;
    if (fine(neg) && !eq(-p, neg, "-p")) return false;
    bool room = valid<T>(sq) && valid<T>(in);
    if constexpr (isint<T>)
      for (std::size_t i = 0; i < D; i++)
        if (std::llabs(s.mp[i]) > 90 || std::llabs(s.mq[i]) > 90) room = false;
    if (room) {
      if (!same<T>(static_cast<T>(p * q), in)) return bad(cat("inner product ", LD(p * q), " instead of ", num<T>(in)));
      if (!same<T>(static_cast<T>(p * p), sq)) return bad("inner product with itself");
      if (!same<T>(p.SquaredEuclidianNorm(), sq)) return bad(cat("squared norm ", LD(p.SquaredEuclidianNorm()), " instead of ", num<T>(sq)));
      const LD r = std::sqrt(num<T>(sq)), g = static_cast<LD>(p.EuclidianNorm());
      if constexpr (isint<T>) {
        if (!(std::fabs(g - r) < 1)) return bad(cat("norm ", g, " instead of ", r));
      } else if (!(std::fabs(g - r) <= 64 * (sq.e / (r > 0 ? r : 1) + ad::eps() * r) || (sq.e > 0 && g * g <= 128 * sq.e && r * r <= 128 * sq.e)))
        return bad(cat("norm ", g, " instead of ", r));
    }
    if (!(p == s.p) || !(q == s.q)) return bad("operand changed");
    return true;
  }
  static constexpr int kOps = 19;
  // false: outside domain; err: violation found
  bool apply(int op, St &s, bool &err) {
    const P p0 = s.p, q0 = s.q;
    const A mp = s.mp, mq = s.mq;
    const std::size_t last = D - 1;
    static const T cs[] = {static_cast<T>(2), isint<T> ? static_cast<T>(-3) : static_cast<T>(-.375)};
    if (std::is_unsigned_v<T> && (op == 5 || op == 7 || op == 16)) return false;
    const auto each = [&](const auto &f) {
      A r;
      for (std::size_t i = 0; i < D; i++) r[i] = f(i);
      s.mp = r;
      return fine(r);
    };
    const auto alldiv = [&](const A &m) {
      for (const auto &x : m)
        if (!divisor<T>(x)) return false;
      return true;
    };
    switch (op) {
      case 0: if (!each([&](auto i) { return mp[i] + mq[i]; })) return false; s.p += s.q; break;
      case 1: if (!each([&](auto i) { return mp[i] - mq[i]; })) return false; s.p -= s.q; break;
      case 2: if (!each([&](auto i) { return mp[i] + mp[i]; })) return false; s.p += s.p; break;
      case 3: if (!each([&](auto i) { return mp[i] - mp[i]; })) return false; s.p -= s.p; break;
      case 4:
      case 5: { const auto m = from<T>(cs[op - 4]); if (!each([&](auto i) { return mp[i] * m; })) return false; s.p *= cs[op - 4]; break; }
      case 6:
      case 7: { const auto m = from<T>(cs[op - 6]); if (!each([&](auto i) { return quot<T>(mp[i], m); })) return false; s.p /= cs[op - 6]; break; }
      case 8: if (!each([&](auto i) { return mp[i] * mp[0]; })) return false; s.p *= s.p[0]; break;
      case 9: if (!each([&](auto i) { return mp[i] * mp[last]; })) return false; s.p *= s.p[last]; break;
      case 10: if (!divisor<T>(mp[0]) || !each([&](auto i) { return quot<T>(mp[i], mp[0]); })) return false; s.p /= s.p[0]; break;
      case 11: if (!divisor<T>(mp[last]) || !each([&](auto i) { return quot<T>(mp[i], mp[last]); })) return false; s.p /= s.p[last]; break;
      case 12: if (!alldiv(mp) || !each([&](auto i) { return quot<T>(mq[0], mp[i]); })) return false; s.p = s.q[0] / s.p; break;
      case 13: if (!alldiv(mp) || !each([&](auto i) { return quot<T>(mp[last], mp[i]); })) return false; s.p = s.p[last] / s.p; break;
      case 14: if (!each([&](auto i) { return mq[last] * mp[i]; })) return false; s.p = s.q[last] * s.p; break;
      case 15: if (!divisor<T>(mq[0]) || !each([&](auto i) { return quot<T>(mp[i], mq[0]); })) return false; s.p = s.p / s.q[0]; break;
      case 16: if (!each([&](auto i) { return M<T>(0) - mp[i]; })) return false; s.p = -s.p; break;
      case 17: { std::swap(s.p, s.q); std::swap(s.mp, s.mq); return true; }
      case 18: {  // scale by an inner product
        M<T> in{};
        for (std::size_t i = 0; i < D; i++) in = in + mp[i] * mq[i];
        if (!valid<T>(in) || !each([&](auto i) { return mp[i] * in; })) return false;
        s.p = s.p * static_cast<T>(s.p * s.q);
        break;
      }
    }
    c.transitions++;
    err = !eq(s.p, s.mp, "p") || !eq(s.q, s.mq, "q");
    (void)p0;
    (void)q0;
    return true;
  }
  bool dfs(const St &s, int depth) {
    if (!observe(s)) return false;
    uint64_t h = D;
    for (std::size_t i = 0; i < D; i++) h = hcomb(hcomb(h, hreal(LD(s.p[i]))), hreal(LD(s.q[i])));
    c.state(h);
    if (!depth) return true;
    for (int op = 0; op < kOps; op++) {
      St n = s;
      bool err = false;
      hist.push_back(cat("op", op));
      const bool in = apply(op, n, err);
      const bool ok = !in || (!err && dfs(n, depth - 1));
      hist.pop_back();
      if (!in) c.counter("outside domain");
      if (!ok) return false;
    }
    return true;
  }
};
template <class T>
std::vector<T> values() {
  if constexpr (std::is_unsigned_v<T>)
    return {0, 1, 2, 7};
  else if constexpr (isint<T>)
    return {0, 1, -2, 5};
  else
    return {0, 1, static_cast<T>(-2.5), static_cast<T>(1) / 3};
}
template <std::size_t D, class T>
void machine(Ctx &c, const char *nm, int depth, bool full) {
  const auto v = values<T>();
  std::size_t tot = 1;
  for (std::size_t i = 0; i < 2 * D; i++) tot *= v.size();
  // all values of all components up to D = 2; beyond, a stride through them
  // that meets every pair of values in every pair of components
  const std::size_t stride = full || D <= 2 ? 1 : D == 3 ? 7 : D == 4 ? 61 : 1021;
  for (std::size_t a = 0; a < tot; a += stride)
    c.scenario([&] { return cat(nm, "/", D, "/", a, "/depth", depth); },
               [&] {
                 ad::precision<std::conditional_t<isint<T>, double, T>>();
                 typename Mach<D, T>::St s{};
                 std::size_t r = a;
                 for (std::size_t i = 0; i < D; i++) s.p[i] = v[r % v.size()], s.mp[i] = from<T>(s.p[i]), r /= v.size();
                 for (std::size_t i = 0; i < D; i++) s.q[i] = v[r % v.size()], s.mq[i] = from<T>(s.q[i]), r /= v.size();
                 Mach<D, T> m{c, {}};
                 m.dfs(s, depth);
               });
}
// special values: component-wise results in the component type itself
template <std::size_t D, class T>
void specials(Ctx &c, const char *nm) {
  const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(), mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
  const std::vector<T> v{0, static_cast<T>(-.0), 1, -3, mx, -mx, mn, std::numeric_limits<T>::denorm_min(), inf, -inf, nan};
  const auto eq = [](T a, T b) {
    if (std::isnan(b)) return std::isnan(a);
    if (!std::isfinite(b) || !std::isfinite(a)) return a == b;
    return std::fabs(LD(a) - LD(b)) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(LD(b)) + 2 * LD(std::numeric_limits<T>::denorm_min());
  };
  for (std::size_t a = 0; a < v.size(); a++)
    c.scenario([&] { return cat(nm, "/specials/", D, "/", a); },
               [&] {
                 for (T y : v)
                   for (T z : v) {
                     using P = bezman::Point<D, T>;
                     P p, q;
                     for (std::size_t i = 0; i < D; i++) p[i] = i % 2 ? y : v[a], q[i] = i % 2 ? v[a] : y;
                     P add = p, sub = p, mul = p, div = p;
                     add += q, sub -= q, mul *= z, div /= z;
                     const P r[9] = {p + q, add, p - q, sub, p * z, mul, p / z, div, z / p};
                     const P l = z * p, n = -p;
                     c.transitions += 11;
                     for (std::size_t i = 0; i < D; i++) {
                       const T e[9] = {T(p[i] + q[i]), T(p[i] + q[i]), T(p[i] - q[i]), T(p[i] - q[i]), T(p[i] * z), T(p[i] * z), T(p[i] / z), T(p[i] / z), T(z / p[i])};
                       for (int k = 0; k < 9; k++)
                         if (!c.expect(eq(r[k][i], e[k]), cat("form ", k, " component ", i, " of ", LD(p[i]), " ", LD(q[i]), " ", LD(z), " is ", LD(r[k][i]), " instead of ", LD(e[k])))) return;
                       if (!c.expect(eq(l[i], T(z * p[i])) && eq(n[i], -p[i]), cat("left scalar or negation of ", LD(p[i])))) return;
                     }
                   }
               });
}
// inner products of different component types
template <std::size_t D, class T, class U>
void mixed(Ctx &c, const char *nm) {
  const auto a = values<T>();
  const auto b = values<U>();
  c.scenario([&] { return cat(nm, "/mixed/", D); },
             [&] {
               std::size_t tot = 1;
               for (std::size_t i = 0; i < D; i++) tot *= a.size() * b.size();
               for (std::size_t k = 0; k < tot; k++) {
                 bezman::Point<D, T> p;
                 bezman::Point<D, U> q;
                 std::size_t r = k;
                 LD e = 0, sc = 0;
                 for (std::size_t i = 0; i < D; i++) {
                   p[i] = a[r % a.size()], r /= a.size();
                   q[i] = b[r % b.size()], r /= b.size();
                   e += LD(p[i]) * LD(q[i]), sc += std::fabs(LD(p[i]) * LD(q[i]));
                 }
                 using R = decltype(T{} * U{});
                 static_assert(std::is_same_v<decltype(p * q), R>, "type of the inner product");
                 const LD eps = isint<R> ? 0 : LD(std::numeric_limits<R>::epsilon());
                 c.transitions += 2;
                 if (!c.close(LD(p * q), e, sc, 8 * eps, [&] { return cat("inner product ", lst(p), " ", lst(q)); })) return;
                 if (!c.close(LD(q * p), e, sc, 8 * eps, [&] { return cat("inner product ", lst(q), " ", lst(p)); })) return;
               }
             });
}
// differentiable components: all forms equal component-wise operations
template <std::size_t D, class X, class MK>
void differentiable(Ctx &c, const char *nm, const MK &mk) {
  c.scenario([&] { return cat(nm, "/", D); },
             [&] {
               for (int k = 0; k < 64; k++) {
                 bezman::Point<D, X> p, q;
                 for (std::size_t i = 0; i < D; i++) p[i] = mk(1.25 + .5 * ((k >> i) % 3), static_cast<int>(i % 3)), q[i] = mk(-.75 + .25 * ((k >> (i + 1)) % 3), static_cast<int>((i + k) % 3));
                 const X z = mk(1.5, k % 3);
                 const auto eq = [&](const X &a, const X &b, const char *w) {
                   const auto da = a.GetDerivatives(), db = b.GetDerivatives();
                   bool ok = std::fabs(a.GetValue() - b.GetValue()) <= 1e-13 && da.size() == db.size();
                   for (std::size_t i = 0; ok && i < da.size(); i++) ok = std::fabs(da[i] - db[i]) <= 1e-13;
                   c.transitions++;
                   return c.expect(ok, cat(w, " of differentiable components"));
                 };
                 for (std::size_t al = 0; al < D; al++) {
                   auto a = p, b = p, d = p, e = p, f = p, g = p;
                   a += q, b -= q, d *= z, e /= z, f *= f[al], g /= g[al];
                   const auto h = z * p, l = z / p;
                   X in = p[0] * q[0], sq = p[0] * p[0];
                   for (std::size_t i = 1; i < D; i++) in = in + p[i] * q[i], sq = sq + p[i] * p[i];
                   for (std::size_t i = 0; i < D; i++)
                     if (!eq(a[i], p[i] + q[i], "+=") || !eq(b[i], p[i] - q[i], "-=") || !eq(d[i], p[i] * z, "*=") || !eq(e[i], p[i] / z, "/=") ||
                         !eq(f[i], p[i] * p[al], "*= own component") || !eq(g[i], p[i] / p[al], "/= own component") || !eq(h[i], z * p[i], "scalar *") || !eq(l[i], z / p[i], "scalar /"))
                       return;
                   if (!eq(p * q, in, "inner product")) return;
                   if (!eq(p.SquaredEuclidianNorm(), sq, "squared norm")) return;
                 }
               }
             });
}
template <class T>
void type(Ctx &c, const char *nm) {
  const int L = c.level;
  machine<1, T>(c, nm, L ? 3 : 2, true);
  machine<2, T>(c, nm, L == 2 ? 4 : L ? 3 : 1, false);
  machine<3, T>(c, nm, L == 2 ? 3 : 2 * (L > 0), L == 2);
  machine<4, T>(c, nm, L ? 2 : 1, false);
  machine<6, T>(c, nm, 1, false);
}
void explore(Ctx &c) {
  if constexpr (PART == 1) {
    type<double>(c, "double");
    type<float>(c, "float");
    type<long double>(c, "long double");
    specials<1, double>(c, "double");
    specials<3, double>(c, "double");
    specials<2, float>(c, "float");
    specials<4, long double>(c, "long double");
  } else {
    type<int>(c, "int");
    type<unsigned>(c, "unsigned");
    type<long long>(c, "long long");
    mixed<2, int, double>(c, "int double");
    mixed<3, float, double>(c, "float double");
    mixed<3, int, long long>(c, "int long long");
    mixed<1, double, long double>(c, "double long double");
    using F = ad::AD<double, 3>;
    using Dy = ad::AD<double, 0>;
    differentiable<1, F>(c, "fixed", [](double v, int i) { return F(v, static_cast<std::size_t>(i)); });
    differentiable<3, F>(c, "fixed", [](double v, int i) { return F(v, static_cast<std::size_t>(i)); });
    differentiable<3, Dy>(c, "run-time", [](double v, int i) { return Dy(v, std::size_t(3), static_cast<std::size_t>(i)); });
  }
}

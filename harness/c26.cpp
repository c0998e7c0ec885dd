// C26: utility algorithms against their definitions.
#include <algorithm>
#include <array>
#include <limits>
#include <type_traits>
#include <functional>
#include <map>

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/type_traits/is_bezier_spline.hpp"
#include "bezman/src/utils/type_traits/is_point.hpp"
#include "bezman/src/utils/type_traits/is_rational_bezier_spline.hpp"
#include "mc/core.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
namespace al = bezman::utils::algorithms;

// --- sort -------------------------------------------------------------------
template <class T>
bool sorted(Ctx &c, const std::vector<T> &v) {
  const std::vector<T> copy = v;
  const auto idx = al::IndexListSort(v);
  c.transitions++;
  bool ok = idx.size() == v.size();
  std::vector<char> seen(v.size(), 0);
  for (std::size_t i = 0; ok && i < idx.size(); i++) {
    ok = idx[i] < v.size() && !seen[idx[i]];
    if (ok) seen[idx[i]] = 1;
  }
  for (std::size_t i = 1; ok && i < idx.size(); i++) {
    const T &a = v[idx[i - 1]], &b = v[idx[i]];
    ok = a < b || (!(b < a) && idx[i - 1] < idx[i]);
  }
  for (std::size_t i = 0; i < v.size(); i++)
    if (v[i] < copy[i] || copy[i] < v[i]) return c.expect(false, "input changed");
  if (!ok) return c.expect(false, cat("indices ", lst(idx), " for list of ", v.size()));
  return true;
}
struct Less {  // only has operator<, keeps an identity
  int key, id;
  bool operator<(const Less &o) const { return key < o.key; }
};
template <class T, class F>
void words(Ctx &c, const char *nm, int k, int maxlen, const F &make) {
  for (int n = 0; n <= maxlen; n++) {
    std::size_t tot = 1;
    for (int i = 0; i < n; i++) tot *= static_cast<std::size_t>(k);
    const std::size_t blk = 4096;
    for (std::size_t b = 0; b * blk < tot; b++)
      c.scenario([&] { return cat("sort/", nm, "/", k, "/", n, "/", b); },
                 [&] {
                   for (std::size_t a = b * blk; a < tot && a < (b + 1) * blk; a++) {
                     std::vector<T> v;
                     std::size_t r = a;
                     for (int i = 0; i < n; i++) v.push_back(make(static_cast<int>(r % static_cast<std::size_t>(k)), i)), r /= static_cast<std::size_t>(k);
                     if (!sorted(c, v)) return;
                   }
                   c.state(hcomb(hstr(nm), static_cast<uint64_t>(n) * 4096 + b));
                 });
  }
}
void sorts(Ctx &c) {
  const int L = c.level;
  words<int>(c, "int", 2, L == 2 ? 20 : L ? 17 : 11, [](int x, int) { return 1 - 2 * x; });
  words<int>(c, "int", 3, L == 2 ? 12 : L ? 10 : 7, [](int x, int) { return x == 0 ? std::numeric_limits<int>::min() : x == 1 ? 0 : std::numeric_limits<int>::max(); });
  words<double>(c, "double", 5, L == 2 ? 8 : L ? 7 : 5, [](int x, int) { return std::array<double, 5>{-std::numeric_limits<double>::infinity(), -.0, 0., 1e-300, 2.}[static_cast<std::size_t>(x)]; });
  words<unsigned char>(c, "uchar", 3, L ? 8 : 6, [](int x, int) { return static_cast<unsigned char>(x * 127); });
  words<std::string>(c, "string", 4, L ? 6 : 4, [](int x, int) { return std::array<std::string, 4>{"", "a", "ab", "b"}[static_cast<std::size_t>(x)]; });
  words<Less>(c, "custom", 3, L ? 8 : 6, [](int x, int i) { return Less{x, i}; });
  // all permutations
  const int N = L == 2 ? 10 : L ? 9 : 7;
  for (int n = 1; n <= N; n++)
    for (int f = 0; f < n; f++)
      c.scenario([&] { return cat("sort/permutation/", n, "/", f); },
                 [&] {
                   std::vector<int> p;
                   for (int i = 0; i < n; i++)
                     if (i != f) p.push_back(i);
                   do {
                     std::vector<int> v{f};
                     v.insert(v.end(), p.begin(), p.end());
                     if (!sorted(c, v)) return;
                   } while (std::next_permutation(p.begin(), p.end()));
                   c.state(hcomb(7, static_cast<uint64_t>(n * 100 + f)));
                 });
  // every length, periodic lists (keys i * a mod m)
  for (int n = 0; n <= (L == 2 ? 1200 : L ? 400 : 80); n += n < 70 ? 1 : 37)
    c.scenario([&] { return cat("sort/periodic/", n); },
               [&] {
                 for (int m = 1; m <= 12; m++)
                   for (int a = 0; a < m; a++)
                     for (int s = 0; s < 2; s++) {
                       std::vector<Less> v;
                       for (int i = 0; i < n; i++) v.push_back({(s ? -1 : 1) * ((i * a) % m + (i > n / 2 ? m / 2 : 0)), i});
                       if (!sorted(c, v)) return;
                     }
                 c.state(hcomb(8, static_cast<uint64_t>(n)));
               });
}
// --- tensor combination -----------------------------------------------------
struct Mat {  // products do not commute: records which factors were used
  std::array<long long, 2> v{{1, 0}};
  Mat() = default;
  explicit Mat(int x) : v{{x, 0}} {}
  Mat(long long a, long long b) : v{{a, b}} {}
  friend Mat operator*(const Mat &a, const Mat &b) { return {a.v[0] * b.v[0] % 1000003, (a.v[0] * b.v[1] + a.v[1] * b.v[0]) % 1000003}; }
  Mat &operator*=(const Mat &b) { return *this = *this * b; }
  bool operator==(const Mat &o) const { return v == o.v; }
};
template <std::size_t D, class T, class F>
void combine(Ctx &c, const char *nm, std::size_t maxlen, const F &make) {
  std::array<std::size_t, D> len{};
  for (;;) {
    c.scenario([&] { return cat("combine/", nm, "/", lst(len)); },
               [&] {
                 std::array<std::vector<T>, D> f;
                 std::size_t tot = 1;
                 int k = 0;
                 for (std::size_t d = 0; d < D; d++) {
                   tot *= len[d];
                   for (std::size_t i = 0; i < len[d]; i++) f[d].push_back(make(k++));
                 }
                 const auto copy = f;
                 const std::vector<T> r = al::RecursiveCombine(f);
                 c.transitions++;
                 c.state(hcomb(hstr(nm), hstr(lst(len))));
                 if (!c.expect(f == copy, "factors changed")) return;
                 if (!c.expect(r.size() == tot, cat(r.size(), " entries instead of ", tot))) return;
                 for (std::size_t a = 0; a < tot; a++) {
                   std::size_t q = a;
                   T e = static_cast<T>(1);
                   for (std::size_t d = 0; d < D; d++) e = e * f[d][q % len[d]], q /= len[d];
                   bool ok;
                   if constexpr (std::is_floating_point_v<T>)
                     ok = std::fabs(LD(r[a]) - LD(e)) <= 16 * std::numeric_limits<T>::epsilon() * std::fabs(LD(e));
                   else
                     ok = r[a] == e;
                   if (!c.expect(ok, cat("entry ", a))) return;
                 }
               });
    std::size_t d = 0;
    while (d < D && ++len[d] > maxlen) len[d++] = 0;
    if (d == D) break;
  }
}
// every assignment of special values (zero, one, minus one, other) to the factors
template <std::size_t D, class T>
void special(Ctx &c, const char *nm, std::size_t total) {
  std::array<std::size_t, D> len;
  len.fill(1);
  for (;;) {
    std::size_t k = 0;
    for (auto x : len) k += x;
    if (k <= total)
      c.scenario([&] { return cat("special/", nm, "/", lst(len)); },
                 [&] {
                   for (std::size_t q = 0; q < std::size_t(1) << (2 * k); q++) {
                     std::array<std::vector<T>, D> f;
                     std::size_t tot = 1, n = 0;
                     for (std::size_t d = 0; d < D; d++) {
                       tot *= len[d];
                       for (std::size_t i = 0; i < len[d]; i++, n++) f[d].push_back(static_cast<T>((q >> (2 * n) & 3) == 0 ? 0 : (q >> (2 * n) & 3) == 1 ? 1 : (q >> (2 * n) & 3) == 2 ? -1 : 2 + static_cast<int>(n)));
                     }
                     const std::vector<T> r = al::RecursiveCombine(f);
                     c.transitions++;
                     if (!c.expect(r.size() == tot, cat(r.size(), " entries instead of ", tot, " for assignment ", q))) return;
                     for (std::size_t a = 0; a < tot; a++) {
                       std::size_t z = a;
                       T e = static_cast<T>(1);
                       for (std::size_t d = 0; d < D; d++) e = e * f[d][z % len[d]], z /= len[d];
                       if (!c.expect(r[a] == e, cat("entry ", a, " for assignment ", q))) return;
                     }
                   }
                   c.state(hcomb(hstr(nm), hstr(lst(len))));
                 });
    std::size_t d = 0;
    while (d < D && ++len[d] > total) len[d++] = 1;
    if (d == D) break;
  }
}
void combines(Ctx &c) {
  const int L = c.level;
  special<2, double>(c, "double2", L == 2 ? 8 : 6);
  special<3, double>(c, "double3", L == 2 ? 9 : 7);
  special<4, long long>(c, "integer4", L == 2 ? 9 : 7);
  special<5, float>(c, "float5", L == 2 ? 8 : 7);
  static const long long pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173};
  const auto i = [](int k) { return pr[k % 40]; };
  const auto f = [](int k) { return (k % 3 ? 1 : -1) * (static_cast<double>(pr[k % 40]) / 16); };
  const auto m = [](int k) { return Mat(pr[k % 40], k + 1); };
  combine<1, long long>(c, "integer1", L ? 40 : 12, i);
  combine<2, long long>(c, "integer2", L == 2 ? 20 : L ? 12 : 5, i);
  combine<3, long long>(c, "integer3", L == 2 ? 9 : L ? 6 : 3, i);
  combine<4, long long>(c, "integer4", L == 2 ? 6 : L ? 4 : 2, i);
  combine<5, long long>(c, "integer5", L == 2 ? 4 : L ? 3 : 1, i);
  combine<6, long long>(c, "integer6", L == 2 ? 3 : L ? 2 : 1, i);
  combine<1, double>(c, "double1", L ? 30 : 10, f);
  combine<3, double>(c, "double3", L ? 5 : 2, f);
  combine<2, float>(c, "float2", L ? 8 : 3, [&](int k) { return static_cast<float>(f(k)); });
  combine<4, long double>(c, "ld4", L ? 3 : 2, [&](int k) { return static_cast<LD>(f(k)); });
  combine<3, Mat>(c, "ring3", L ? 5 : 2, m);
}
// --- integer power ----------------------------------------------------------
template <class T>
bool power(Ctx &c, T b, unsigned long long maxp) {
  using W = __int128;
  W e = 1;
  const W lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  for (unsigned long long p = 0; p <= maxp && W(p) <= hi; p++) {
    if (e < lo || e > hi) break;
    const T g = al::IntPower<T>(b, static_cast<T>(p));
    c.transitions++;
    if (W(g) != e) return c.expect(false, cat(static_cast<long long>(b), " to the power ", p, " is ", static_cast<long long>(g), " instead of ", static_cast<long long>(e)));
    const W ab = b < 0 ? -W(b) : W(b), ae = e < 0 ? -e : e;
    if (ab > 1 && ae > (W(1) << 120) / ab) break;
    e *= W(b);
  }
  return true;
}
template <class T>
void powers(Ctx &c, const char *nm, long long span) {
  const long long lo = std::max<long long>(-span, std::is_signed_v<T> ? static_cast<long long>(std::numeric_limits<T>::min()) : 0);
  const long long hi = sizeof(T) == 8 ? span : std::min<long long>(span, static_cast<long long>(std::numeric_limits<T>::max()));
  const long long blk = 16384;
  for (long long b = lo; b <= hi; b += blk)
    c.scenario([&] { return cat("power/", nm, "/", b); },
               [&] {
                 for (long long x = b; x <= hi && x < b + blk; x++)
                   if (!power<T>(c, static_cast<T>(x), 70)) return;
                 c.state(hcomb(hstr(nm), static_cast<uint64_t>(b)));
               });
  // bases whose power stays representable for every exponent
  c.scenario([&] { return cat("power/", nm, "/unit"); },
             [&] {
               for (int x = -1; x <= 1; x++) {
                 if (!std::is_signed_v<T> && x < 0) continue;
                 const int bits = std::numeric_limits<T>::digits;
                 for (int s = 0; s < bits; s++)
                   for (int t = 0; t <= s; t++)
                     for (int d = -1; d <= 1; d++) {
                       __int128 p = (__int128(1) << s) + (t < s ? __int128(1) << t : 0) + d;
                       if (p < 0 || p > std::numeric_limits<T>::max()) continue;
                       const T g = al::IntPower<T>(static_cast<T>(x), static_cast<T>(p));
                       c.transitions++;
                       const int e = p == 0 ? 1 : x == 0 ? 0 : x == 1 ? 1 : (p % 2 ? -1 : 1);
                       if (!c.expect(g == static_cast<T>(e), cat(x, " to the power ", static_cast<unsigned long long>(p), " is ", static_cast<long long>(g)))) return;
                     }
               }
             });
  // squares, cubes, ... at the limits of the type
  c.scenario([&] { return cat("power/", nm, "/limits"); },
             [&] {
               for (int k = 1; k <= 64; k++) {
                 const LD r = std::pow(LD(std::numeric_limits<T>::max()), 1 / LD(k));
                 for (int d = -3; d <= 3; d++) {
                   const LD q = std::floor(r) + d;
                   for (int s = -1; s <= 1; s += 2) {
                     const LD z = s * q;
                     if (z > LD(std::numeric_limits<T>::max()) || z < LD(std::numeric_limits<T>::min())) continue;
                     if (z >= 18446744073709551615.0L) continue;
                     if (!power<T>(c, static_cast<T>(z), static_cast<unsigned long long>(k) + 1)) return;
                   }
                 }
               }
               if (!power<T>(c, std::numeric_limits<T>::max(), 2)) return;
               power<T>(c, std::numeric_limits<T>::min(), 2);
             });
}

// --- type traits ------------------------------------------------------------
// what: 0 neither, 1 point, 2 polynomial spline, 3 rational spline
using Types = std::map<std::string, std::pair<int, int>>;  // name: expected, reported
[[gnu::noinline]] void add(Types &c, int what, int got, const char *kind, std::size_t d, const char *of, std::size_t e) {
  c[cat(kind, "/", d, "/", of, e)] = {what == 0 ? 0 : 9 << (what - 1), got};
}
template <class T>
void trait(Types &c, int what, const char *kind, std::size_t d = 0, const char *of = "", std::size_t e = 0) {
  namespace tt = bezman::utils::type_traits;
  constexpr int got = (tt::isPoint<T>::value ? 1 : 0) + (tt::isBezierSpline<T>::value ? 2 : 0) + (tt::isRationalBezierSpline<T>::value ? 4 : 0) +
                      (tt::isPoint_v<T> ? 8 : 0) + (tt::isBezierSpline_v<T> ? 16 : 0) + (tt::isRationalBezierSpline_v<T> ? 32 : 0);
  add(c, what, got, kind, d, of, e);
}
template <std::size_t PD, class P, class S>
void spline_traits(Types &c, const char *nm, std::size_t e = 0) {
  using B = bezman::BezierSpline<PD, P, S>;
  using R = bezman::RationalBezierSpline<PD, P, S>;
  trait<B>(c, 2, "spline", PD, nm, e);
  trait<R>(c, 3, "rational", PD, nm, e);
  trait<std::vector<B>>(c, 0, "vector of splines", PD, nm, e);
  trait<std::vector<R>>(c, 0, "vector of rationals", PD, nm, e);
  trait<B *>(c, 0, "pointer to spline", PD, nm, e);
  trait<R *>(c, 0, "pointer to rational", PD, nm, e);
}
template <std::size_t D, class S>
void point_traits(Types &c, const char *nm) {
  using P = bezman::Point<D, S>;
  trait<P>(c, 1, "point", D, nm);
  trait<std::array<S, D>>(c, 0, "array", D, nm);
  trait<std::vector<P>>(c, 0, "vector of points", D, nm);
  trait<P *>(c, 0, "pointer to point", D, nm);
  spline_traits<1, P, S>(c, nm, D);
  spline_traits<2, P, S>(c, nm, D);
  spline_traits<3, P, S>(c, nm, D);
  spline_traits<5, P, S>(c, nm, D);
}
template <class S>
void scalar_traits(Types &c, const char *nm) {
  trait<S>(c, 0, nm);
  trait<std::vector<S>>(c, 0, "vector", 0, nm);
  point_traits<1, S>(c, nm);
  point_traits<2, S>(c, nm);
  point_traits<3, S>(c, nm);
  point_traits<4, S>(c, nm);
  point_traits<7, S>(c, nm);
  spline_traits<1, S, S>(c, nm);
  spline_traits<2, S, S>(c, nm);
  spline_traits<4, S, S>(c, nm);
}
void traits(Ctx &ctx) {
  Types c;
  using bezman::utils::computational_differentiation::AlgoDiffType;
  scalar_traits<float>(c, "float");
  scalar_traits<double>(c, "double");
  scalar_traits<long double>(c, "long double");
  scalar_traits<int>(c, "int");
  scalar_traits<unsigned char>(c, "unsigned char");
  scalar_traits<long long>(c, "long long");
  scalar_traits<AlgoDiffType<double>>(c, "AD");
  scalar_traits<AlgoDiffType<double, 3>>(c, "AD3");
  scalar_traits<AlgoDiffType<float, 1>>(c, "ADf1");
  // control points and scalars of different types
  spline_traits<1, bezman::Point<2, float>, double>(c, "float2,double");
  spline_traits<2, bezman::Point<3, double>, float>(c, "double3,float");
  spline_traits<3, bezman::Point<2, AlgoDiffType<double, 2>>, double>(c, "AD2,double");
  spline_traits<2, float, long double>(c, "float,long double");
  trait<void>(c, 0, "void");
  trait<std::string>(c, 0, "string");
  trait<bezman::Point<2>[2]>(c, 0, "array of points");
  for (const auto &t : c)
    ctx.scenario([&] { return "type/" + t.first; },
                 [&] {
                   ctx.transitions += 6;
                   ctx.state(hcomb(hstr(t.first), static_cast<uint64_t>(t.second.second)));
                   ctx.expect(t.second.first == t.second.second,
                              cat("point, polynomial and rational trait of ", t.first, " say ", t.second.second, " instead of ", t.second.first));
                 });
}

void explore(Ctx &c) {
  const int L = c.level;
  if constexpr (PART == 1) {
    traits(c);
    sorts(c);
    combines(c);
  } else {
    powers<signed char>(c, "int8", 128);
    powers<unsigned char>(c, "uint8", 256);
    powers<short>(c, "int16", 32768);
    powers<unsigned short>(c, "uint16", 65536);
    powers<int>(c, "int32", L ? 70000 : 3000);
    powers<unsigned>(c, "uint32", L ? 70000 : 3000);
    powers<long long>(c, "int64", L == 2 ? 2200000 : L ? 400000 : 3000);
    powers<unsigned long long>(c, "uint64", L == 2 ? 2700000 : L ? 400000 : 3000);
    powers<long>(c, "long", L ? 70000 : 300);
  }
}

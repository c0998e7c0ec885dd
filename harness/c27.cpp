// C27: text of points and of differentiable numbers.
#include <iomanip>
#include <limits>
#include <sstream>

#include "bezman/src/point.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "mc/core.hpp"
using namespace mc;

// numbers between the brackets, separated by commas; false: other text
bool parse(const std::string &s, std::vector<LD> &r) {
  const auto sp = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n'; };
  std::size_t i = 0, n = s.size();
  while (i < n && sp(s[i])) i++;
  while (n > i && sp(s[n - 1])) n--;
  if (n - i < 2 || s[i] != '[' || s[n - 1] != ']') return false;
  std::stringstream in(s.substr(i + 1, n - i - 2));
  std::string t;
  while (std::getline(in, t, ',')) {
    char *e = nullptr;
    r.push_back(std::strtold(t.c_str(), &e));
    if (e == t.c_str()) return false;
    while (*e && sp(*e)) e++;
    if (*e) return false;
  }
  return true;
}
// the number with the given count of significant digits
template <class T>
LD rounded(T x, int precision) {
  if constexpr (std::is_floating_point_v<T>) {
    char b[6000];
    std::snprintf(b, sizeof b, "%.*Lg", precision, static_cast<LD>(x));
    return std::strtold(b, nullptr);
  } else
    return static_cast<LD>(x);
}
inline bool same(LD a, LD b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b && std::signbit(a) == std::signbit(b);
}
template <class T>
std::vector<T> values(int level) {
  using L = std::numeric_limits<T>;
  std::vector<T> v{T(0), T(1), T(-1), T(2), T(9), T(10), T(99), T(100), T(127), L::max(), L::lowest(), L::min()};
  if constexpr (std::is_floating_point_v<T>) {
    for (T x : {-T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), L::epsilon(), T(1) / 3, T(-2) / 3, T(.5), T(.25), T(.1), T(.7), T(999999), T(999999.5), T(9999995), T(1e-5), T(1.5e-5), T(.0001), T(123456789)})
      v.push_back(x);
    const int e = std::min(L::max_exponent10 - 1, level == 2 ? 300 : 80);
    for (int k = -e; k <= e; k += level == 2 ? 3 : 7)
      for (T m : {T(1), T(-1.5), T(9.9999995), T(1.23456789012345678L), T(-9.5)}) v.push_back(static_cast<T>(m * std::pow(T(10), T(k))));
  } else {
    for (int k = 0; k < L::digits; k++) {
      v.push_back(static_cast<T>(T(1) << k));
      v.push_back(static_cast<T>((T(1) << k) - 1));
      if (L::is_signed) v.push_back(static_cast<T>(-(T(1) << k)));
    }
  }
  return v;
}
template <std::size_t D, class T>
bool judge(Ctx &c, const bezman::Point<D, T> &p, int precision, const std::string &text, const char *what) {
  std::vector<LD> r;
  c.transitions++;
  if (!c.expect(parse(text, r), cat(what, ": ", text))) return false;
  if (!c.expect(r.size() == D, cat(what, ": ", r.size(), " numbers in ", text))) return false;
  for (std::size_t i = 0; i < D; i++)
    if (!c.expect(same(r[i], rounded(p[i], precision)), cat(what, ": coordinate ", i, " (", static_cast<LD>(p[i]), ") with ", precision, " digits: ", text))) return false;
  c.state(hstr(text));
  return true;
}
// what the surrounding stream looks like
void dress(std::ostream &o, int k) {
  switch (k) {
    case 1: o << std::fixed << std::setprecision(1); break;
    case 2: o << std::scientific << std::setprecision(3) << std::showpos; break;
    case 3: o << std::hex << std::uppercase << std::setprecision(17) << std::setfill('*'); break;
    case 4: o << std::showpoint << std::left << std::setprecision(0); break;
    case 5: o << std::boolalpha << std::internal << std::setfill('0') << std::hexfloat; break;
    default: break;
  }
}
template <std::size_t D, class T>
void points(Ctx &c, const char *nm) {
  const auto vs = values<T>(c.level);
  for (std::size_t a = 0; a < vs.size(); a++)
    c.scenario([&] { return cat("point/", nm, "/", D, "/", a); },
               [&] {
                 for (std::size_t b = 0; b < vs.size(); b += a < 40 || c.level == 2 ? 1 : 7) {
                   bezman::Point<D, T> p;
                   for (std::size_t i = 0; i < D; i++) p[i] = i == (a + b) % D ? vs[a] : vs[(b + i * 5) % vs.size()];
                   const auto keep = p;
                   if (!judge(c, p, 6, p.toString(), "default digits")) return;
                   for (int q : {0, 1, 2, 3, 6, 7, 9, 12, 15, 16, 17, 18, 21, 25})
                     if (!judge(c, p, q, p.toString(q), "toString")) return;
                   for (int k = 0; k < 6; k++) {
                     std::ostringstream o;
                     dress(o, k);
                     const auto fl = o.flags();
                     const auto pr = o.precision();
                     const auto fi = o.fill();
                     std::ostream &ret = (o << p);
                     if (!c.expect(&ret == static_cast<std::ostream *>(&o) && o.flags() == fl && o.precision() == pr && o.fill() == fi, cat("formatting of the stream changed, style ", k))) return;
                     if (!judge(c, p, 6, o.str(), "printed")) return;
                     // several in a row, text around them
                     o.str("");
                     o << "a" << p << "b" << p;
                     const std::string t = p.toString();
                     if (!c.expect(o.str() == "a" + t + "b" + t, cat("printed in a row: ", o.str()))) return;
                   }
                   for (std::size_t i = 0; i < D; i++)
                     if (!c.expect(std::memcmp(&p[i], &keep[i], sizeof(T) > 8 ? 10 : sizeof(T)) == 0, "printing changes the point")) return;
                 }
               });
}
template <class S, std::size_t N>
void numbers(Ctx &c, const char *nm) {
  using X = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;
  const auto vs = values<S>(c.level);
  c.scenario([&] { return cat("number/", nm, "/", N); },
             [&] {
               for (S v : vs)
                 for (int k = 0; k < 6; k++)
                   for (int act = 0; act < 3; act++) {
                     X x = [&] {
                       if constexpr (N == 0)
                         return act == 2 ? X(v, std::size_t(2)) : X(v, std::size_t(2), std::size_t(act));
                       else
                         return act == 2 ? X(v) : X(v, std::size_t(act) % N);
                     }();
                     std::ostringstream o, e;
                     dress(o, k);
                     dress(e, k);
                     const auto fl = o.flags();
                     o << x << ";" << x;
                     e << v << ";" << v;
                     c.transitions++;
                     if (!c.expect(o.str() == e.str() && o.flags() == fl && o.precision() == e.precision(), cat("printed ", o.str(), " instead of ", e.str()))) return;
                     c.state(hstr(o.str()));
                   }
             });
}
template <class T>
void dims(Ctx &c, const char *nm) {
  points<1, T>(c, nm);
  points<2, T>(c, nm);
  points<3, T>(c, nm);
  points<4, T>(c, nm);
  points<5, T>(c, nm);
}
void explore(Ctx &c) {
  dims<double>(c, "double");
  dims<float>(c, "float");
  dims<int>(c, "int");
  dims<unsigned long>(c, "unsigned long");
  points<3, long double>(c, "long double");
  points<3, short>(c, "short");
  points<7, double>(c, "double");
  numbers<double, 0>(c, "double");
  numbers<double, 1>(c, "double");
  numbers<double, 4>(c, "double");
  numbers<float, 2>(c, "float");
  numbers<long double, 2>(c, "long double");
}

// C15: values and gradients of all programs over the AD type.
#include "harness/ad.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
using namespace ad;

// representation: how to make variables and constants, and to read them
template <class S, std::size_t N>
struct Fix {
  using X = AD<S, N>;
  static constexpr std::size_t n = N;
  static X var(double v, int i) { return X(static_cast<S>(v), static_cast<std::size_t>(i)); }
  static X con(double v) { return X(static_cast<S>(v)); }
  static void set(X &x, double v) { x = static_cast<S>(v); }
};
template <class S, std::size_t N>
struct Dyn {
  using X = AD<S, 0>;
  static constexpr std::size_t n = N;
  static X var(double v, int i) { return X(static_cast<S>(v), N, static_cast<std::size_t>(i)); }
  static X con(double v) { return X(static_cast<S>(v), N); }
  static void set(X &x, double v) { x = con(v); }
};
// registers: variable, variable, constant. Variable k is active in component k
// (mod n); further components stay zero.
template <class S, class... R>
struct Prog {
  Ctx &c;
  std::vector<Ins> al;
  int depth;
  using Impl = std::tuple<std::array<typename R::X, NR>...>;
  template <class T>
  bool see(const std::array<typename T::X, NR> &r, const std::array<J, NR> &ref, int which, const char *when) {
    for (int i = 0; i < NR; i++) {
      if (which >= 0 && i != which) continue;
      const LD got = static_cast<LD>(r[i].GetValue());
      const auto d = r[i].GetDerivatives();
      if (!c.expect(d.size() == T::n && r[i].GetNumberOfDerivatives() == T::n, cat(when, ": ", d.size(), " derivatives"))) return false;
      if (!near(got, ref[i].v)) {
        c.fail(cat(when, ": r", i, " is ", got, " instead of ", ref[i].v.v, " ", path()));
        return false;
      }
      for (std::size_t k = 0; k < T::n; k++) {
        // seeds: variable 0 -> component 0, variable 1 -> last component
        E e = E(0);
        if (T::n == 1)
          e = ref[i].g[0] + ref[i].g[1];
        else if (k == 0)
          e = ref[i].g[0];
        else if (k + 1 == T::n)
          e = ref[i].g[1];
        if (!near(static_cast<LD>(d[k]), e)) {
          c.fail(cat(when, ": derivative ", k, " of r", i, " is ", static_cast<LD>(d[k]), " instead of ", e.v, " ", path()));
          return false;
        }
      }
    }
    return true;
  }
  std::vector<Ins> hist;
  std::string path() const {
    std::string s = "after";
    for (const auto &x : hist) s += " " + str(x);
    return s;
  }
  template <std::size_t... K>
  bool advance(std::index_sequence<K...>, const Ins &x, Impl &im, const std::array<J, NR> &ref) {
    bool ok = true;
    ((ok = ok && (run<S>(x, std::get<K>(im), [](auto &a, double v) { std::tuple_element_t<K, std::tuple<R...>>::set(a, v); }),
                  see<std::tuple_element_t<K, std::tuple<R...>>>(std::get<K>(im), ref, hist.size() < 2 ? -1 : x.i, "program"))),
     ...);
    return ok;
  }
  template <std::size_t... K>
  bool all(std::index_sequence<K...>, Impl &im, const std::array<J, NR> &ref) {
    bool ok = true;
    ((ok = ok && see<std::tuple_element_t<K, std::tuple<R...>>>(std::get<K>(im), ref, -1, "all registers")), ...);
    return ok;
  }
  bool dfs(const Impl &im, const std::array<J, NR> &ref, int d) {
    for (const auto &x : al) {
      if (!one(im, ref, x, d)) return false;
    }
    return true;
  }
  bool one(const Impl &im, const std::array<J, NR> &ref, const Ins &x, int d) {
    std::array<J, NR> r2 = ref;
    if (!step(x, r2)) {
      c.counter("outside domain");
      return true;
    }
    Impl i2 = im;
    hist.push_back(x);
    bool ok = advance(std::index_sequence_for<R...>{}, x, i2, r2);
    c.transitions += sizeof...(R);
    if (ok && d > 1) {
      uint64_t h = 1;
      for (const auto &j : r2) {
        h = hcomb(h, hreal(j.v.v));
        for (const auto &g : j.g) h = hcomb(h, hreal(g.v));
      }
      c.state(h);
      ok = dfs(i2, r2, d - 1) && all(std::index_sequence_for<R...>{}, i2, r2);
    }
    hist.pop_back();
    return ok;
  }
  void start(const std::array<double, NR> &p, const Ins &first) {
    precision<S>();
    second() = false;
    std::array<J, NR> ref{var(p[0], 0), var(p[1], 1), con(p[2])};
    Impl im{std::array<typename R::X, NR>{R::var(p[0], 0), R::var(p[1], static_cast<int>(R::n) - 1), R::con(p[2])}...};
    if (!all(std::index_sequence_for<R...>{}, im, ref)) return;
    one(im, ref, first, depth);
  }
};
template <class S, class... R>
void programs(Ctx &c, const char *nm, int depth, size_t np, int size) {
  const auto al = alphabet(size);
  for (size_t p = 0; p < np && p < points().size(); p++)
    for (const auto &x : al)
      c.scenario([&] { return cat(nm, "/d", depth, "/a", size, "/p", p, "/", str(x)); },
                 [&] {
                   Prog<S, R...> g{c, al, depth, {}};
                   g.start(points()[p], x);
                 });
}

// single operations (and one constant operation before them) on arguments of
// all magnitudes, to relative accuracy
inline bool linear(Op o) {
  switch (o) {
    case ABS: case NEG: case ADC: case CAD: case SUC: case CSU: case IADC: case ISUC: case SETC: case ADD: case SUB: case IADD: case ISUB: case CPY: return true;
    default: return false;
  }
}
template <class S, class... R>
void sweep(Ctx &c, const char *nm, int level) {
  const double big = sizeof(S) == 4 ? 1e7 : 1e60;
  for (int o = EXP; o <= CPY; o++) {
    const Op op = Op(o);
    c.scenario([&] { return cat(nm, "/sweep/", name(op)); },
               [&] {
                 Prog<S, R...> g{c, {}, 1, {}};
                 const auto start = [&](double x, double y, double z) {
                   precision<S>();
                   widen<S>(linear(op));
                   second() = false;
                   std::array<J, NR> ref{var(x, 0), var(y, 1), con(z)};
                   typename Prog<S, R...>::Impl im{std::array<typename R::X, NR>{R::var(x, 0), R::var(y, static_cast<int>(R::n) - 1), R::con(z)}...};
                   std::vector<Ins> todo;
                   if (o < POWC) todo = {{op, 0, 0, 0}};
                   else if (o == POWC)
                     for (double e : {-3.5, -2., -1., -.5, 0., .001, .5, 1., 1.5, 2., 2.5, 3., 7.}) todo.push_back({op, 0, 0, e});
                   else if (o < ADD)
                     for (double e : {y, -y, 1., 0., 2.5}) todo.push_back({op, 0, 0, e});
                   else
                     todo = {{op, 0, 1, 0}, {op, 0, 2, 0}, {op, 2, 0, 0}, {op, 0, 0, 0}};
                   for (const auto &t : todo) {
                     if (!g.one(im, ref, t, 1)) return false;
                     c.state(hcomb(hreal(x), hcomb(hreal(y), o)));
                     // small and large gradients
                     for (double k : {big, 1 / big, -1e-5}) {
                       if (o >= POWC && level < 1) break;
                       auto r2 = ref;
                       auto i2 = im;
                       const Ins pre{MUC, 0, 0, k};
                       if (!step(pre, r2)) continue;
                       g.hist.push_back(pre);
                       bool ok = g.advance(std::index_sequence_for<R...>{}, pre, i2, r2) && g.one(i2, r2, t, 1);
                       g.hist.pop_back();
                       if (!ok) return false;
                     }
                   }
                   return true;
                 };
                 if (o <= POWC) {
                   for (double x : magnitudes<S>(linear(op), true))
                     if (!start(x, 1, 2)) break;
                 } else {
                   const auto m = magnitudes<S>(linear(op), level > 1);
                   for (double x : m)
                     for (double y : m)
                       if (!start(x, y, 1.5 * y)) return void(wide().on = false);
                 }
                 wide().on = false;
               });
  }
}

// comparisons: by value alone, scalars on either side
template <class X, class S, class MK>
void compare(Ctx &c, const char *nm, const MK &mk) {
  using Lim = std::numeric_limits<S>;
  const std::vector<S> vs{-Lim::infinity(), Lim::lowest(), -2, -1, -Lim::denorm_min(), static_cast<S>(-.0), 0, Lim::denorm_min(), static_cast<S>(.5), 1, std::nextafter(S(1), S(2)), 2, std::nextafter(S(2), S(1)), Lim::max(), Lim::infinity(), Lim::quiet_NaN()};
  for (S x : vs)
    c.scenario([&] { return cat(nm, "/compare/", x); },
               [&] {
                 for (S y : vs)
                   for (int sa = 0; sa < 3; sa++)
                     for (int sb = 0; sb < 3; sb++) {
                       const X a = mk(x, sa), b = mk(y, sb);
                       const S u = x, v = y;
                       const bool e[6] = {u > v, u >= v, u < v, u <= v, u == v, u != v};
                       const bool aa[6] = {a > b, a >= b, a < b, a <= b, a == b, a != b};
                       const bool as[6] = {a > v, a >= v, a < v, a <= v, a == v, a != v};
                       const bool sa_[6] = {u > b, u >= b, u < b, u <= b, u == b, u != b};
                       c.transitions += 18;
                       for (int k = 0; k < 6; k++)
                         if (!c.expect(aa[k] == e[k] && as[k] == e[k] && sa_[k] == e[k], cat("comparison ", k, " of ", x, " and ", y, ": ", aa[k], as[k], sa_[k]))) return;
                     }
               });
}
// construction, copies, assignments, set active, output
template <class R>
void object(Ctx &c, const char *nm) {
  using X = typename R::X;
  c.scenario([&] { return cat(nm, "/object"); },
             [&] {
               for (std::size_t i = 0; i < R::n; i++)
                 for (std::size_t j = 0; j < R::n; j++) {
                   X a = R::var(1.5, static_cast<int>(i));
                   const auto unit = [&](const X &x, double v, std::size_t k) {
                     const auto d = x.GetDerivatives();
                     if (static_cast<LD>(x.GetValue()) != v || d.size() != R::n) return false;
                     for (std::size_t q = 0; q < d.size(); q++)
                       if (static_cast<LD>(d[q]) != (q == k ? 1 : 0)) return false;
                     return true;
                   };
                   c.transitions += 5;
                   c.expect(unit(a, 1.5, i), "constructed");
                   X b(a);
                   b.SetActiveComponent(j);
                   c.expect(unit(b, 1.5, j) && unit(a, 1.5, i), "active component");
                   X d = R::con(0);
                   c.expect(unit(d, 0, R::n), "constant");
                   d = a;
                   a *= 3;
                   c.expect(unit(d, 1.5, i), "copy is independent");
                   X m(std::move(d));
                   c.expect(unit(m, 1.5, i), "moved");
                   X &self = m;
                   m = self;
                   c.expect(unit(m, 1.5, i), "self-assigned");
                   std::ostringstream o;
                   o << m;
                   c.expect(o.str() == "1.5", cat("printed ", o.str()));
                 }
             });
}
void explore(Ctx &c) {
  const int L = c.level;
  if constexpr (PART == 1) {
    // fixed and dynamic size in lock-step
    programs<double, Fix<double, 3>, Dyn<double, 3>>(c, "double", 2, 8, L > 0);
    programs<double, Fix<double, 1>, Dyn<double, 1>, Fix<double, 6>, Dyn<double, 6>>(c, "sizes", 2, L ? 8 : 2, L > 0);
    // many components
    programs<double, Fix<double, 127>, Dyn<double, 128>, Fix<double, 255>, Dyn<double, 255>, Fix<double, 256>, Dyn<double, 257>, Fix<double, 300>>(c, "many", 1, 1, L > 0);
    programs<double, Dyn<double, 32768>, Dyn<double, 65535>, Dyn<double, 65536>, Dyn<double, 70000>>(c, "thousands", 1, 1, false);
    object<Fix<double, 300>>(c, "fixed300");
    object<Dyn<double, 300>>(c, "dynamic300");
    if (L) programs<double, Fix<double, 3>, Dyn<double, 3>>(c, "deep", 3, L == 2 ? 8 : 5, L == 2);
    if (L == 2) programs<double, Fix<double, 2>>(c, "deeper", 4, 1, 0);
    sweep<double, Fix<double, 3>, Dyn<double, 3>>(c, "double", L);
    const auto mf = [](double v, int s) {
      auto x = s == 2 ? Fix<double, 2>::con(v) : Fix<double, 2>::var(v, s);
      return x;
    };
    compare<AD<double, 2>, double>(c, "fixed", mf);
    compare<AD<double, 0>, double>(c, "dynamic", [](double v, int s) { return s == 2 ? AD<double, 0>(v, std::size_t(2)) : AD<double, 0>(v, std::size_t(2), std::size_t(s)); });
    object<Fix<double, 1>>(c, "fixed1");
    object<Fix<double, 4>>(c, "fixed4");
    object<Dyn<double, 1>>(c, "dynamic1");
    object<Dyn<double, 4>>(c, "dynamic4");
  } else {
    programs<float, Fix<float, 2>, Dyn<float, 2>>(c, "float", 2, L ? 8 : 2, L > 0);
    programs<long double, Fix<long double, 2>, Dyn<long double, 2>>(c, "long double", 2, L ? 8 : 2, L > 0);
    sweep<float, Fix<float, 2>, Dyn<float, 2>>(c, "float", L);
    sweep<long double, Fix<long double, 2>, Dyn<long double, 2>>(c, "long double", L);
    compare<AD<float, 2>, float>(c, "float", [](float v, int s) { return s == 2 ? AD<float, 2>(v) : AD<float, 2>(v, std::size_t(s)); });
    compare<AD<long double, 2>, long double>(c, "long double", [](LD v, int s) { return s == 2 ? AD<LD, 2>(v) : AD<LD, 2>(v, std::size_t(s)); });
    if (L == 2) programs<long double, Fix<long double, 2>>(c, "ld deep", 3, 2, 0);
  }
}

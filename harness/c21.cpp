// C21: splines are values. All sequences of assignments, moves, swaps, in-place
// and out-of-place operations and writes through accessors over five variables
// are run twice: on the variables themselves and, step by step, on independent
// objects rebuilt from plain data whose arguments share nothing. Both have to
// agree after every step. Equality is tried with every single number changed.
#include <functional>
#include <utility>

#include "cat.hpp"
#include "bezman/src/utils/logger.hpp"
#include "mc/core.hpp"

using mc::cat;
using mc::LD;
namespace {
template <std::size_t PD, class V, class T>
bezman::BezierSpline<PD, V, T> rebuilt(const bezman::BezierSpline<PD, V, T> &s) {
  const std::array<std::size_t, PD> g = s.GetDegrees();
  std::vector<V> c;
  for (const auto &x : s.GetControlPoints()) c.push_back(x);
  bezman::BezierSpline<PD, V, T> r(g);
  if (c.size() != r.GetControlPoints().size()) throw std::runtime_error("number of control points does not match the degrees");
  for (std::size_t i = 0; i < c.size(); i++) r.GetControlPoints()[i] = c[i];
  return r;
}
template <std::size_t PD, class V, class T>
bezman::RationalBezierSpline<PD, V, T> rebuilt(const bezman::RationalBezierSpline<PD, V, T> &s) {
  return bezman::RationalBezierSpline<PD, V, T>(rebuilt(s.GetNumeratorSpline()), rebuilt(s.GetWeightFunctionSpline()));
}
template <class T>
std::enable_if_t<std::is_floating_point_v<T>, T> rebuilt(const T &x) {
  return x;
}
template <std::size_t D, class T>
bezman::Point<D, T> rebuilt(const bezman::Point<D, T> &x) {
  bezman::Point<D, T> r;
  for (std::size_t i = 0; i < D; i++) r[i] = x[i];
  return r;
}
struct Own {  // arguments as they are
  template <class X>
  const X &operator()(const X &x) const {
    return x;
  }
};
struct Copied {  // arguments that share nothing with anything
  template <class X>
  X operator()(const X &x) const {
    return rebuilt(x);
  }
};

template <std::size_t PD>
struct H {
  using T = double;
  using W = ct::World<PD, T>;
  using P = typename W::P;
  using BP = typename W::BP;
  using BT = typename W::BT;
  using RP = typename W::RP;
  struct Vars {
    BP a, b;
    BT s;
    RP r, q;
  };
  static Vars copied(const Vars &v) { return Vars{rebuilt(v.a), rebuilt(v.b), rebuilt(v.s), rebuilt(v.r), rebuilt(v.q)}; }
  template <class S>
  static std::size_t sum(const S &s) {
    std::size_t n = 0;
    for (auto d : s.GetDegrees()) n += d;
    return n;
  }
  template <class S>
  static bool small(const S &s, std::size_t k = 7) {
    return sum(s) <= k;
  }
  enum Touch { A = 1, B = 2, S = 4, R = 8, Q = 16 };
  struct Op {
    const char *name;
    int touch;
    std::function<bool(Vars &)> own, copied;  // false: not in this state
  };
  template <class F>
  static Op op(const char *n, int t, F f) {
    return Op{n, t, [f](Vars &v) { return f(v, Own{}); }, [f](Vars &v) { return f(v, Copied{}); }};
  }
  static std::vector<Op> ops() {
    const T c = -1.5, c2 = .5;
    const P p(.75, -1.25);
    std::vector<Op> o;
#define OP(n, t, ...) o.push_back(op(n, t, [=](Vars &v, auto own) -> bool { (void)own; (void)c; (void)c2; (void)p; __VA_ARGS__ return true; }))
#define IF(x) if (!(x)) return false
    // assignments
    OP("a=b", A, v.a = own(v.b););
    OP("b=a", B, v.b = own(v.a););
    OP("a=a", A, v.a = own(v.a););
    OP("a=move(b)", A | B, v.a = std::move(v.b); v.b = BP(ct::Deg<PD>{}); v.b.GetControlPoints()[0] = p;);
    OP("swap a b", A | B, std::swap(v.a, v.b););
    OP("a=BP(b)", A, BP t(own(v.b)); v.a = t; t += p;);
    OP("r=q", R, v.r = own(v.q););
    OP("q=r", Q, v.q = own(v.r););
    OP("r=r", R, v.r = own(v.r););
    OP("swap r q", R | Q, std::swap(v.r, v.q););
    OP("r=RP(a)", R, v.r = RP(own(v.a)););
    OP("r=RP(r parts)", R, v.r = RP(own(v.r.GetNumeratorSpline()), own(v.r.GetWeightFunctionSpline())););
    OP("a=numerator r", A, v.a = own(v.r.GetNumeratorSpline()););
    OP("s=weights r", S, v.s = own(v.r.GetWeightFunctionSpline()););
    OP("copy of a while its control points are held", A | B, auto &z = v.a.GetControlPoints(); v.b = own(v.a); z[0] += p; z.back() -= p;);
    OP("copy of r while its weights are held", R | Q, auto &z = v.r.GetWeights(); auto &y = v.r.GetWeightedControlPoints(); v.q = own(v.r); z[0] += .25; y.back() += p;);
    // writes
    OP("a[0]+=p", A, v.a.GetControlPoints()[0] += p;);
    OP("a.last+=p", A, auto g = v.a.GetDegrees(); v.a.ControlPoint(g) += p;);
    OP("s[0]=2", S, v.s.GetControlPoints()[0] = 2;);
    OP("r.w[0]=2", R, v.r.GetWeights()[0] = 2;);
    OP("q.cp.last-=p", Q, v.q.WeightedControlPoint(v.q.GetDegrees()) -= p;);
    OP("a resize", A, IF(small(v.a, 4)); auto g = v.a.GetDegrees(); g[0] += 1; const auto t = v.a; v.a.UpdateDegrees(g);
       for (std::size_t i = 0; i < v.a.GetControlPoints().size(); i++) v.a.GetControlPoints()[i] = t.GetControlPoints()[i % t.GetControlPoints().size()];);
    // polynomial, in place
    OP("a+=b", A, IF(small(v.a) && small(v.b)); return &(v.a += own(v.b)) == &v.a;);
    OP("a-=b", A, IF(small(v.a) && small(v.b)); return &(v.a -= own(v.b)) == &v.a;);
    OP("b-=a", B, IF(small(v.a) && small(v.b)); v.b -= own(v.a););
    OP("a+=a", A, v.a += own(v.a););
    OP("a-=a", A, v.a -= own(v.a););
    OP("a*=c", A, return &(v.a *= c) == &v.a;);
    OP("a*=a[0].x", A, v.a *= own(v.a.GetControlPoints()[0][0]););
    OP("a*=a.last.y", A, v.a *= own(v.a.GetControlPoints().back()[1]););
    OP("a*=b[0].x", A, v.a *= own(v.b.GetControlPoints()[0][0]););
    OP("a+=p", A, return &(v.a += p) == &v.a;);
    OP("a+=a[0]", A, v.a += own(v.a.GetControlPoints()[0]););
    OP("a+=a.last", A, v.a += own(v.a.GetControlPoints().back()););
    OP("a-=a[0]", A, v.a -= own(v.a.GetControlPoints()[0]););
    OP("a-=a.last", A, v.a -= own(v.a.GetControlPoints().back()););
    OP("s+=s", S, v.s += own(v.s););
    OP("s*=s[0]", S, v.s *= own(v.s.GetControlPoints()[0]););
    OP("s-=s.last", S, v.s -= own(v.s.GetControlPoints().back()););
    OP("s+=s[0]", S, v.s += own(v.s.GetControlPoints()[0]););
    OP("elevate a", A, IF(small(v.a)); v.a.OrderElevateAlongParametricDimension(0););
    OP("elevate b last", B, IF(small(v.b)); v.b.OrderElevateAlongParametricDimension(PD - 1););
    OP("elevate s", S, IF(small(v.s)); v.s.OrderElevateAlongParametricDimension(PD - 1););
    OP("shift+scale a by own", A, v.a.TransposeAndScale(own(v.a.GetControlPoints()[0]), own(v.a.GetControlPoints().back())););
    // polynomial, results
    OP("a=a+b", A, IF(small(v.a) && small(v.b)); v.a = own(v.a) + own(v.b););
    OP("b=a-b", B, IF(small(v.a) && small(v.b)); v.b = own(v.a) - own(v.b););
    OP("a=-a", A, v.a = -own(v.a););
    OP("b=a*c", B, v.b = own(v.a) * c;);
    OP("b=a-p", B, v.b = own(v.a) - p;);
    OP("a=s*a", A, IF(sum(v.a) + sum(v.s) <= 7); v.a = own(v.s) * own(v.a););
    OP("s=s*s", S, IF(small(v.s, 3)); v.s = own(v.s) * own(v.s););
    OP("s=a*b", S, IF(sum(v.a) + sum(v.b) <= 7); v.s = own(v.a) * own(v.b););
    OP("s=s^2", S, IF(small(v.s, 3)); v.s = own(v.s).RaisePower(2););
    OP("s=s^1", S, v.s = own(v.s).RaisePower(1););
    OP("s=a.x", S, v.s = own(v.a).ExtractDimension(0););
    OP("b=split a", A | B, auto z = own(v.a).SplitAtPosition(.5, 0); v.b = z[0]; v.a = z[1]; z[0] += p; z[1] *= c;);
    OP("b=split a at nothing", B, auto z = own(v.a).SplitAtPosition(std::vector<T>{}, 0); v.b = z[0]; z[0] += p;);
    OP("b=derivative a", B, ct::Deg<PD> k{}; k[0] = 1; v.b = own(v.a).DerivativeWRTParametricDimension(k););
    OP("b=derivative a of order 0", B, ct::Deg<PD> k{}; v.b = own(v.a).DerivativeWRTParametricDimension(k););
    // rational
    OP("r+=q", R, IF(sum(v.r) + sum(v.q) <= 6); return &(v.r += own(v.q)) == &v.r;);
    OP("r-=q", R, IF(sum(v.r) + sum(v.q) <= 6); return &(v.r -= own(v.q)) == &v.r;);
    OP("r+=r", R, IF(small(v.r, 4)); v.r += own(v.r););
    OP("r-=r", R, IF(small(v.r, 4)); v.r -= own(v.r););
    OP("r*=c", R, return &(v.r *= c) == &v.r;);
    OP("r*=r.w[0]", R, v.r *= own(v.r.GetWeights()[0]););
    OP("r*=r.w.last", R, v.r *= own(v.r.GetWeights().back()););
    OP("r*=r.cp[0].x", R, v.r *= own(v.r.GetWeightedControlPoints()[0][0]););
    OP("r+=p", R, return &(v.r += p) == &v.r;);
    OP("r+=r.cp[0]", R, v.r += own(v.r.GetWeightedControlPoints()[0]););
    OP("r-=r.cp.last", R, v.r -= own(v.r.GetWeightedControlPoints().back()););
    OP("q=r+q", Q, IF(sum(v.r) + sum(v.q) <= 6); v.q = own(v.r) + own(v.q););
    OP("r=r*c", R, v.r = own(v.r) * c2;);
    OP("q=-r", Q, v.q = -own(v.r););
    OP("elevate r", R, IF(small(v.r, 5)); v.r.OrderElevateAlongParametricDimension(0););
    OP("elevate q last", Q, IF(small(v.q, 5)); v.q.OrderElevateAlongParametricDimension(PD - 1););
    OP("q=split r", R | Q, auto z = own(v.r).SplitAtPosition(.25, PD - 1); v.q = z[0]; v.r = z[1]; z[0] += p; z[1].GetWeights()[0] = 9;);
    OP("q=split r at nothing", Q, auto z = own(v.r).SplitAtPosition(std::vector<T>{}, PD - 1); v.q = z[0]; z[0].GetWeights()[0] = 9;);
    return o;
  }
  // ---- comparison
  // size of the operands: what cancels is as inexact as what it came from
  static LD &magnitude() {
    static LD m = 0;
    return m;
  }
  static void magnitude_of(const Vars &v) {
    ct::Out o;
    o.put(v.a), o.put(v.b), o.put(v.s), o.put(v.r), o.put(v.q);
    LD m = 0;
    for (auto z : o.v)
      if (std::isfinite(z)) m = std::max(m, std::fabs(z));
    magnitude() = std::max(m, m * m);
  }
  template <class V, class X>
  static std::string diff(const bezman::BezierSpline<PD, V, X> &x, const bezman::BezierSpline<PD, V, X> &y, bool exact) {
    if (x.GetDegrees() != y.GetDegrees()) return "degrees";
    if (x.GetNumberOfControlPoints() != y.GetNumberOfControlPoints()) return "number of control points";
    if (x.GetControlPoints().size() != y.GetControlPoints().size()) return "size of the list of control points";
    ct::Out ox, oy;
    ox.put(x), oy.put(y);
    return diff(ox, oy, exact);
  }
  static std::string diff(const ct::Out &x, const ct::Out &y, bool exact) {
    if (x.d != y.d || x.v.size() != y.v.size()) return "sizes";
    LD big = magnitude();
    for (auto z : y.v) big = std::max(big, std::fabs(z));
    for (std::size_t i = 0; i < x.v.size(); i++)
      if (exact ? !(x.v[i] == y.v[i]) : !(std::fabs(x.v[i] - y.v[i]) <= 1e-11L * big)) return cat("number ", i, ": ", x.v[i], " instead of ", y.v[i]);
    return "";
  }
  static std::string diff(const RP &x, const RP &y, bool exact) {
    auto d = diff(x.GetNumeratorSpline(), y.GetNumeratorSpline(), exact);
    if (!d.empty()) return "numerator: " + d;
    d = diff(x.GetWeightFunctionSpline(), y.GetWeightFunctionSpline(), exact);
    return d.empty() ? d : "weights: " + d;
  }
  template <class X>
  static std::string differ(const X &x, const X &y, bool exact) {
    return diff(x, y, exact);
  }
  static void compare(mc::Ctx &c, const Vars &x, const Vars &y, const Vars &before, int touch, const char *name) {
    magnitude_of(before);
    const auto one = [&](const char *n, int bit, const auto &p, const auto &q, const auto &b) {
      if (!(touch & bit)) {
        const auto d = diff(p, b, true);
        if (!d.empty()) c.die(cat(name, " changes ", n, ": ", d));
      }
      const auto d = diff(p, q, !(touch & bit));
      if (!d.empty()) c.die(cat(name, ": ", n, " differs from the result with independent arguments: ", d));
    };
    one("a", A, x.a, y.a, before.a), one("b", B, x.b, y.b, before.b), one("s", S, x.s, y.s, before.s);
    one("r", R, x.r, y.r, before.r), one("q", Q, x.q, y.q, before.q);
  }
  // in place and out of place agree
  template <class X>
  static void same(mc::Ctx &c, const char *n, const X &x, const X &y) {
    c.transitions++;
    const auto d = differ(x, y, false);
    if (!d.empty()) c.die(cat(n, " in place and out of place differ: ", d));
  }
  static void forms(mc::Ctx &c, const Vars &v) {
    const T k = -1.5;
    const P p(.75, -1.25);
    const Vars b = copied(v);
    magnitude_of(v);
    const auto poly = [&](const auto &x, const auto &y, const auto &pt, const char *n) {
      using X = std::decay_t<decltype(x)>;
      const auto in = [&](auto f) {
        X t = x;
        f(t);
        return t;
      };
      (void)n;
      if (small(x) && small(y)) {
        same(c, "x+=y", in([&](X &t) { t += y; }), x + y);
        same(c, "x-=y", in([&](X &t) { t -= y; }), x - y);
        same(c, "x+y, y+x", x + y, y + x);
      }
      same(c, "x+=x", in([&](X &t) { t += t; }), x + x);
      same(c, "x-=x", in([&](X &t) { t -= t; }), x - x);
      same(c, "x+x, x*2", x + x, x * T(2));
      same(c, "x*=c", in([&](X &t) { t *= k; }), x * k);
      same(c, "c*x, x*c", k * x, x * k);
      same(c, "x+=p", in([&](X &t) { t += pt; }), x + pt);
      same(c, "x-=p", in([&](X &t) { t -= pt; }), x - pt);
      same(c, "p+x, x+p", pt + x, x + pt);
      same(c, "-x, x*-1", -x, x * T(-1));
      for (std::size_t i : {std::size_t(0), x.GetControlPoints().size() - 1}) {
        const auto own = x.GetControlPoints()[i];
        same(c, "x+=x[i]", in([&](X &t) { t += t.GetControlPoints()[i]; }), x + own);
        same(c, "x-=x[i]", in([&](X &t) { t -= t.GetControlPoints()[i]; }), x - own);
      }
    };
    poly(v.a, v.b, p, "a b"), poly(v.b, v.a, p, "b a"), poly(v.s, v.s, T(.75), "s");
    for (std::size_t i : {std::size_t(0), v.a.GetControlPoints().size() - 1})
      for (std::size_t d = 0; d < 2; d++) {
        auto t = v.a;
        t *= t.GetControlPoints()[i][d];
        same(c, "a*=a[i][d]", t, v.a * T(v.a.GetControlPoints()[i][d]));
      }
    {
      auto t = v.s;
      t *= t.GetControlPoints().back();
      same(c, "s*=s.last", t, v.s * T(v.s.GetControlPoints().back()));
    }
    {
      const auto in = [&](auto f) {
        RP t = v.r;
        f(t);
        return t;
      };
      if (sum(v.r) + sum(v.q) <= 6) {
        same(c, "r+=q", in([&](RP &t) { t += v.q; }), v.r + v.q);
        same(c, "r-=q", in([&](RP &t) { t -= v.q; }), v.r - v.q);
      }
      if (small(v.r, 4)) {
        same(c, "r+=r", in([&](RP &t) { t += t; }), v.r + v.r);
        same(c, "r-=r", in([&](RP &t) { t -= t; }), v.r - v.r);
      }
      same(c, "r*=c", in([&](RP &t) { t *= k; }), v.r * k);
      same(c, "c*r", k * v.r, v.r * k);
      same(c, "r+=p", in([&](RP &t) { t += p; }), v.r + p);
      same(c, "r-=p", in([&](RP &t) { t -= p; }), v.r - p);
      same(c, "p+r", p + v.r, v.r + p);
      same(c, "-r", -v.r, v.r * T(-1));
      for (std::size_t i : {std::size_t(0), v.r.GetWeights().size() - 1}) {
        same(c, "r*=w[i]", in([&](RP &t) { t *= t.GetWeights()[i]; }), v.r * T(v.r.GetWeights()[i]));
        same(c, "r*=cp[i].y", in([&](RP &t) { t *= t.GetWeightedControlPoints()[i][1]; }), v.r * T(v.r.GetWeightedControlPoints()[i][1]));
        same(c, "r+=cp[i]", in([&](RP &t) { t += t.GetWeightedControlPoints()[i]; }), v.r + P(v.r.GetWeightedControlPoints()[i]));
        same(c, "r-=cp[i]", in([&](RP &t) { t -= t.GetWeightedControlPoints()[i]; }), v.r - P(v.r.GetWeightedControlPoints()[i]));
      }
    }
    compare(c, v, b, b, 0, "an operation on constant operands");
    // equality
    if (!(v.a == b.a) || !(v.b == b.b) || !(v.s == b.s) || !(v.a == v.a)) c.die("a spline is not equal to its copy");
    const bool eq = v.a.GetDegrees() == v.b.GetDegrees() && std::equal(v.a.GetControlPoints().begin(), v.a.GetControlPoints().end(), v.b.GetControlPoints().begin(), v.b.GetControlPoints().end(), [](const P &x, const P &y) { return x[0] == y[0] && x[1] == y[1]; });
    if ((v.a == v.b) != eq || (v.b == v.a) != eq) c.die(cat("a==b yields ", v.a == v.b));
  }
  static uint64_t hash(const Vars &v) {
    ct::Out o;
    o.put(v.a), o.put(v.b), o.put(v.s), o.put(v.r), o.put(v.q);
    uint64_t h = PD;
    for (auto z : o.v) h = mc::hcomb(h, mc::hreal(z));
    for (auto z : o.d) h = mc::hcomb(h, static_cast<uint64_t>(z));
    return h;
  }
  static void sequences(mc::Ctx &c, const Vars &start, const std::string &tag, int depth) {
    const auto list = ops();
    const auto step = [&](Vars &v, const Op &o) {
      const Vars before = copied(v);
      Vars ref = copied(v);
      if (!o.copied(ref)) return false;
      c.transitions++;
      if (!o.own(v)) c.die(cat(o.name, ": an in-place operation does not return its object"));
      compare(c, v, ref, before, o.touch, o.name);
      c.state(hash(v));
      return true;
    };
    for (std::size_t i = 0; i < list.size(); i++)
      for (std::size_t j = 0; j < (depth > 1 ? list.size() : 1); j++)
        c.scenario([&] { return cat("PD", PD, " ", tag, " ", list[i].name, "; ", depth > 1 ? list[j].name : "", depth > 2 ? "; *" : ""); }, [&] {
          Vars v = copied(start);
          if (!step(v, list[i])) return;
          if (depth > 1 && !step(v, list[j])) return;
          if (depth > 1 || j == 0) forms(c, v);
          // deeper: every sequence from the start, so that nothing hidden is lost
          std::vector<const Op *> path{&list[i]};
          if (depth > 1) path.push_back(&list[j]);
          const auto rec = [&](auto &self, int left) -> void {
            if (left <= 0) return;
            for (const auto &o : list) {
              Vars w = copied(start);
              for (const auto *q : path) q->own(w);
              if (!step(w, o)) continue;
              path.push_back(&o);
              self(self, left - 1);
              path.pop_back();
            }
          };
          rec(rec, depth - 2);
        });
  }
};

// ---- equality: every single number changed
template <std::size_t PD, class V, class T>
void equality(mc::Ctx &c, const ct::Deg<PD> &g, const std::string &tag) {
  using B = bezman::BezierSpline<PD, V, T>;
  constexpr int dim = sizeof(V) / sizeof(T);
  for (int pat = 0; pat < 4; pat++)
    c.scenario([&] { return cat("equality PD", PD, " ", tag, " degrees ", mc::lst(g), " pattern ", pat); }, [&] {
      B s(g);
      auto set = [&](B &x, std::size_t i, int k, T val) { reinterpret_cast<T *>(&x.GetControlPoints()[i])[k] = val; };
      auto get = [&](const B &x, std::size_t i, int k) { return reinterpret_cast<const T *>(&x.GetControlPoints()[i])[k]; };
      const std::size_t n = s.GetControlPoints().size();
      for (std::size_t i = 0; i < n; i++)
        for (int k = 0; k < dim; k++)
          set(s, i, k, pat == 0 ? T(0) : pat == 1 ? T(1.25) : pat == 2 ? static_cast<T>(ct::val(7, i, static_cast<std::size_t>(k))) : static_cast<T>(i % 2 ? 1e30 : -1e-30));
      const auto judge = [&](const B &x, const B &y, bool expected, const std::string &what) {
        c.transitions += 2;
        if ((x == y) != expected || (y == x) != expected) c.die(cat(what, ": == yields ", !expected));
      };
      judge(s, s, true, "the spline itself");
      B t = s;
      judge(s, t, true, "its copy");
      judge(s, B(g, s.GetControlPoints()), true, "a spline of the same data");
      for (std::size_t i = 0; i < n; i++)
        for (int k = 0; k < dim; k++) {
          const T old = get(s, i, k);
          for (T z : {std::nextafter(old, T(1e35)), std::nextafter(old, T(-1e35)), old + T(1), -old - T(1), std::numeric_limits<T>::infinity()}) {
            if (z == old) continue;
            set(t, i, k, z);
            judge(s, t, false, cat("control point ", i, " coordinate ", k, " changed to ", z));
          }
          set(t, i, k, old);
          judge(s, t, true, "changed back");
        }
      // other degrees
      for (std::size_t d = 0; d < PD; d++) {
        auto h = g;
        h[d]++;
        B u(h);
        for (std::size_t i = 0; i < u.GetControlPoints().size(); i++)
          for (int k = 0; k < dim; k++) set(u, i, k, get(s, i % n, k));
        judge(s, u, false, "one degree more");
        B e = s;
        e.OrderElevateAlongParametricDimension(d);
        judge(s, e, false, "elevated");
      }
      for (std::size_t d = 0; d + 1 < PD; d++) {
        auto h = g;
        std::swap(h[d], h[d + 1]);
        if (h == g) continue;
        judge(s, B(h, s.GetControlPoints()), false, "degrees exchanged");
      }
      if (PD > 1) {  // all control points in one direction
        ct::Deg<PD> h{};
        h[0] = n - 1;
        if (h != g) judge(s, B(h, s.GetControlPoints()), false, "same control points, other degrees");
      }
      judge(s, B(), false, "the empty spline");
      judge(B(), B(), true, "empty splines");
      c.state(mc::hcomb(mc::hstr(c.cur), n));
    });
}
template <class T, std::size_t PD>
void equalities(mc::Ctx &c, const ct::Deg<PD> &g, const char *tn) {
  equality<PD, T, T>(c, g, cat(tn, " scalar"));
  equality<PD, bezman::Point<1, T>, T>(c, g, cat(tn, " point 1"));
  equality<PD, bezman::Point<2, T>, T>(c, g, cat(tn, " point 2"));
  equality<PD, bezman::Point<3, T>, T>(c, g, cat(tn, " point 3"));
}
template <std::size_t PD>
void degrees(mc::Ctx &c, std::size_t top, std::size_t limit) {
  ct::Deg<PD> g{};
  for (;;) {
    std::size_t n = 1;
    for (auto z : g) n *= z + 1;
    if (n <= limit) {
      equalities<double, PD>(c, g, "double");
      equalities<float, PD>(c, g, "float");
      equalities<long double, PD>(c, g, "long double");
    }
    std::size_t i = 0;
    while (i < PD && g[i] == top) g[i++] = 0;
    if (i == PD) break;
    g[i]++;
  }
}

// constant operands of all operations, each alone
template <std::size_t PD, class T>
void constants(mc::Ctx &c, const char *tn) {
  std::vector<std::pair<ct::Deg<PD>, ct::Deg<PD>>> gs;
  ct::Deg<PD> x{}, y{};
  x.fill(1), y.fill(2);
  gs.push_back({x, y}), gs.push_back({y, x}), gs.push_back({y, y});
  x.fill(0), y.fill(1);
  gs.push_back({x, y}), gs.push_back({y, x}), gs.push_back({x, x});
  x[0] = 3, y[PD - 1] = 2;
  gs.push_back({x, y}), gs.push_back({y, x});
  for (const auto &e : ct::catalogue<PD, T>())
    for (std::size_t k = 0; k < gs.size(); k++) {
      if (PD == 3 && k == 2) continue;
      c.scenario([&] { return cat("constant PD", PD, " ", tn, " ", e.name, " degrees ", mc::lst(gs[k].first), " ", mc::lst(gs[k].second)); }, [&] {
        const ct::World<PD, T> w(gs[k].first, gs[k].second, 5);
        const auto before = w.snapshot();
        ct::Out o1, o2;
        e.f(w, o1);
        c.transitions++;
        const auto after = w.snapshot();
        if (before.v != after.v || before.d != after.d) c.die("an operand has changed");
        e.f(w, o2);
        if (o1.v != o2.v || o1.d != o2.d) c.die("the second call yields something else");
      });
    }
}
}  // namespace

void explore(mc::Ctx &c) {
  bezman::utils::Logger::SetOutputLevel(0);
  constexpr std::size_t PD = PART > 10 ? PART - 10 : PART;
#if PART < 10
  using W = ct::World<PD, double>;
  const auto start = [](const ct::Deg<PD> &g, const ct::Deg<PD> &h, bool share) {
    const W w(g, h, 3);
    typename H<PD>::Vars v{w.a, w.b, w.s, w.ra, share ? w.rc : w.rb};
    return v;
  };
  ct::Deg<PD> g{}, h{};
  g.fill(1), h.fill(1), h[PD - 1] = 2;
  const int depth = PD == 1 ? (c.level >= 2 ? 4 : c.level >= 1 ? 3 : 2) : PD == 2 ? (c.level >= 1 ? 3 : 2) : (c.level >= 2 ? 3 : 2);
  H<PD>::sequences(c, start(g, h, false), "other degrees", depth);
  H<PD>::sequences(c, start(h, h, true), "same degrees and weights", depth);
  if (c.level >= 1) {
    ct::Deg<PD> z{};
    H<PD>::sequences(c, start(z, g, false), "degree zero", 2);
    g[0] = 3;
    H<PD>::sequences(c, start(g, z, false), "degree three and zero", 2);
  }
#else
  degrees<PD>(c, PD == 1 ? (c.level >= 1 ? 29 : 8) : PD == 2 ? (c.level >= 1 ? 6 : 2) : c.level >= 1 ? 2 : 1, c.level >= 2 ? 400 : 40);
  constants<PD, double>(c, "double");
#endif
}

// C16: nested differentiation types and splines over differentiation types.
#include "harness/ad.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;
using namespace ad;

// --- nested programs --------------------------------------------------------
template <std::size_t I, std::size_t O>
struct Nest {  // fixed in fixed
  using In = AD<double, I>;
  using X = AD<In, O>;
  static constexpr std::size_t in = I, out = O;
  static X var(double v, int i) {
    return X(static_cast<std::size_t>(i) < I ? In(v, static_cast<std::size_t>(i)) : In(v), static_cast<std::size_t>(i));
  }
  static X con(double v) { return X(In(v)); }
  static void set(X &x, double v) { x = v; }
};
template <std::size_t I, std::size_t O>
struct NestDyn {  // fixed in run-time size
  using In = AD<double, I>;
  using X = AD<In, 0>;
  static constexpr std::size_t in = I, out = O;
  static X var(double v, int i) { return X(In(v, static_cast<std::size_t>(i)), O, static_cast<std::size_t>(i)); }
  static X con(double v) { return X(In(v), O); }
  static void set(X &x, double v) { x = con(v); }
};
template <class X>
bool see2(Ctx &c, const X &x, const J &e, std::size_t in, std::size_t out, const std::string &what) {
  const auto bad = [&](const char *k, std::size_t i, std::size_t j, LD got, E ex) {
    c.fail(cat(what, ": ", k, " ", i, " ", j, " is ", got, " instead of ", ex.v));
    return false;
  };
  const auto v = x.GetValue();
  const auto d = x.GetDerivatives();
  const auto vd = v.GetDerivatives();
  if (d.size() != out || vd.size() != in) return c.expect(false, cat(what, ": number of derivatives"));
  if (!near(v.GetValue(), e.v)) return bad("value", 0, 0, v.GetValue(), e.v);
  for (std::size_t i = 0; i < in; i++)
    if (!near(vd[i], e.g[i])) return bad("inner first derivative", i, 0, vd[i], e.g[i]);
  for (std::size_t i = 0; i < out; i++) {
    if (!near(d[i].GetValue(), e.g[i])) return bad("outer first derivative", i, 0, d[i].GetValue(), e.g[i]);
    const auto dd = d[i].GetDerivatives();
    for (std::size_t j = 0; j < in; j++)
      if (!near(dd[j], e.h[i][j])) return bad("second derivative", i, j, dd[j], e.h[i][j]);
  }
  return true;
}
template <class R>
struct Prog {
  Ctx &c;
  std::vector<Ins> al;
  using Impl = std::array<typename R::X, NR>;
  std::vector<Ins> hist;
  std::string path() const {
    std::string s = "after";
    for (const auto &x : hist) s += " " + str(x);
    return s;
  }
  bool all(const Impl &im, const std::array<J, NR> &ref, int only = -1) {
    for (int i = 0; i < NR; i++)
      if ((only < 0 || i == only) && !see2(c, im[i], ref[i], R::in, R::out, cat("r", i, " ", path()))) return false;
    return true;
  }
  bool one(const Impl &im, const std::array<J, NR> &ref, const Ins &x, int d) {
    std::array<J, NR> r2 = ref;
    if (!step(x, r2)) {
      c.counter("outside domain");
      return true;
    }
    Impl i2 = im;
    hist.push_back(x);
    run<typename R::In>(x, i2, [](auto &a, double v) { R::set(a, v); });
    c.transitions++;
    bool ok = all(i2, r2, d > 1 ? -1 : x.i);
    if (ok && d > 1) {
      uint64_t h = 1;
      for (const auto &j : r2) {
        h = hcomb(h, hreal(j.v.v));
        for (const auto &g : j.g) h = hcomb(h, hreal(g.v));
      }
      c.state(h);
      for (const auto &y : al)
        if (!(ok = one(i2, r2, y, d - 1))) break;
    }
    hist.pop_back();
    return ok;
  }
};
template <class R>
void programs(Ctx &c, const char *nm, int depth, size_t p0, size_t p1, int size) {
  const auto al = alphabet(size);
  for (size_t p = p0; p < p1 && p < points().size(); p++)
    for (const auto &x : al)
      c.scenario([&] { return cat(nm, "/d", depth, "/a", size, "/p", p, "/", str(x)); },
                 [&] {
                   precision<double>();
                   second() = true;
                   const auto &q = points()[p];
                   Prog<R> g{c, al, {}};
                   typename Prog<R>::Impl im{R::var(q[0], 0), R::var(q[1], 1), R::con(q[2])};
                   std::array<J, NR> ref{ad::var(q[0], 0), ad::var(q[1], 1), ad::con(q[2])};
                   if (g.all(im, ref)) g.one(im, ref, x, depth);
                 });
}

// --- splines ----------------------------------------------------------------
using A1 = AD<double, 3>;
using AD_ = AD<double, 0>;
using A2 = AD<AD<double, 3>, 3>;
// a scalar of type S with value v and, if s >= 0, active component s
template <class S>
S mk(double v, int s) {
  if constexpr (std::is_same_v<S, double>)
    return v;
  else if constexpr (std::is_same_v<S, A1>)
    return s < 0 ? A1(v) : A1(v, static_cast<std::size_t>(s));
  else if constexpr (std::is_same_v<S, AD_>)
    return s < 0 ? AD_(v, 3) : AD_(v, 3, static_cast<std::size_t>(s));
  else
    return s < 0 ? A2(A1(v)) : A2(A1(v, static_cast<std::size_t>(s)), static_cast<std::size_t>(s));
}
inline J mj(double v, int s) { return s < 0 ? ad::con(v) : ad::var(v, s); }
template <class S>
bool sees(Ctx &c, const S &x, const J &e, const std::string &what) {
  c.transitions++;
  if constexpr (std::is_same_v<S, A2>)
    return see2(c, x, e, 3, 3, what);
  else {
    auto d = x.GetDerivatives();
    if constexpr (std::is_same_v<S, AD_>)
      if (d.empty()) d.resize(3);  // a constant without derivatives
    if (!c.expect(d.size() == 3, cat(what, ": number of derivatives"))) return false;
    if (!near(x.GetValue(), e.v)) {
      c.fail(cat(what, ": value ", x.GetValue(), " instead of ", e.v.v));
      return false;
    }
    for (int i = 0; i < 3; i++)
      if (!near(d[i], e.g[i])) {
        c.fail(cat(what, ": derivative ", i, " is ", d[i], " instead of ", e.g[i].v));
        return false;
      }
    return true;
  }
}
template <std::size_t PD>
using Deg = std::array<std::size_t, PD>;
// reference spline: control points (coordinates) and weights as series
template <std::size_t PD>
struct RS {
  Deg<PD> deg{};
  std::vector<std::vector<J>> p;  // [coordinate][control point]
  std::vector<J> w;
  // Bernstein polynomial (derivative) of series parameter
  static J bern(std::size_t n, std::size_t i, const J &t, std::size_t d) {
    if (d > n) return ad::con(0);
    if (d) {
      const J a = i ? bern(n - 1, i - 1, t, d - 1) : ad::con(0), b = i < n ? bern(n - 1, i, t, d - 1) : ad::con(0);
      return mul(ad::con(static_cast<LD>(n)), lin(a, b, -1));
    }
    LD k = 1;
    for (std::size_t j = 0; j < i; j++) k = k * static_cast<LD>(n - j) / static_cast<LD>(j + 1);
    J r = ad::con(k);
    const J s = lin(ad::con(1), t, -1);
    for (std::size_t j = 0; j < i; j++) r = mul(r, t);
    for (std::size_t j = i; j < n; j++) r = mul(r, s);
    return r;
  }
  J basis(std::size_t k, const std::array<J, PD> &x, const Deg<PD> &d) const {
    J r = ad::con(1);
    for (std::size_t i = 0; i < PD; i++) {
      r = mul(r, bern(deg[i], k % (deg[i] + 1), x[i], d[i]));
      k /= deg[i] + 1;
    }
    return r;
  }
  // value or first derivatives
  std::vector<J> eval(const std::array<J, PD> &x, const Deg<PD> &d = {}) const {
    std::size_t tot = 0;
    for (auto q : d) tot += q;
    std::vector<J> r(p.size(), ad::con(0));
    J W = ad::con(0), W1 = ad::con(0);
    for (std::size_t k = 0; k < p[0].size(); k++) {
      const J b = basis(k, x, d), wb = w.empty() ? b : mul(b, w[k]);
      for (std::size_t q = 0; q < p.size(); q++) r[q] = lin(r[q], mul(wb, p[q][k]), 1);
      if (!w.empty()) {
        W = lin(W, mul(basis(k, x, {}), w[k]), 1);
        W1 = lin(W1, wb, 1);
      }
    }
    if (w.empty()) return r;
    const J iw = recip(W);
    if (!tot)
      for (auto &q : r) q = mul(q, iw);
    else {
      const auto v = eval(x);
      for (std::size_t q = 0; q < r.size(); q++) r[q] = mul(lin(r[q], mul(v[q], W1), -1), iw);
    }
    return r;
  }
};
template <class P>
struct PT;
template <std::size_t D, class S>
struct PT<bezman::Point<D, S>> {
  static constexpr std::size_t dim = D;
  using Sc = S;
  static const S &at(const bezman::Point<D, S> &p, std::size_t i) { return p[i]; }
  static S &at(bezman::Point<D, S> &p, std::size_t i) { return p[i]; }
};
template <class S>
struct PT1 {
  static constexpr std::size_t dim = 1;
  using Sc = S;
  static const S &at(const S &p, std::size_t) { return p; }
  static S &at(S &p, std::size_t) { return p; }
};
template <>
struct PT<A1> : PT1<A1> {};
template <>
struct PT<AD_> : PT1<AD_> {};
template <>
struct PT<A2> : PT1<A2> {};

template <std::size_t PD, class P, class S, bool RAT>
struct Test {
  using Q = PT<P>;
  using CS = typename Q::Sc;  // scalar of the control points
  using B = std::conditional_t<RAT, bezman::RationalBezierSpline<PD, P, S>, bezman::BezierSpline<PD, P, S>>;
  using X = bezman::Point<PD, S>;
  static constexpr bool params = !std::is_same_v<S, double>;
  static constexpr bool fixed = !std::is_same_v<CS, AD_>;
  static constexpr bool nest = std::is_same_v<CS, A2>;
  Ctx &c;
  Deg<PD> deg;
  int pat;
  // seeds: which control point / coordinate is active in component 0, whether
  // the parameters are active in 1 and 2, or weight wk in component 1
  std::size_t kp = 0, kd = 0, kw = 0;
  int mode = 0;  // 0 control point + parameters, 1 control point + weight + parameter 0, 2 parameters only, 3 two control points
  std::size_t n = 1;
  B impl;
  RS<PD> ref;

  double cp(std::size_t k, std::size_t d) const {
    return pat == 0 ? static_cast<double>(static_cast<int>(mix(k * 7 + d) % 17)) / 4 - 2 : pat == 1 ? (k == n / 2 ? 1. : 0.) : .5 + static_cast<double>(k) * .125 - static_cast<double>(d);
  }
  double wt(std::size_t k) const { return pat == 0 ? .5 + static_cast<double>(mix(k + 91) % 7) / 4 : pat == 1 ? 1 : 2 - static_cast<double>(k) / static_cast<double>(n); }
  void build() {
    n = 1;
    for (auto q : deg) n *= q + 1;
    std::vector<P> ps(n, zero());
    std::vector<S> ws;
    ref = {};
    ref.deg = deg;
    ref.p.assign(Q::dim, {});
    for (std::size_t k = 0; k < n; k++) {
      for (std::size_t d = 0; d < Q::dim; d++) {
        int s = -1;
        if (mode != 2 && k == kp && d == kd) s = 0;
        if (mode == 3 && k == (kp + 1) % n && d == kd && n > 1) s = 1;
        Q::at(ps[k], d) = mk<CS>(cp(k, d), s);
        ref.p[d].push_back(mj(cp(k, d), s));
      }
      if constexpr (RAT) {
        const int s = params && mode == 1 && k == kw ? 1 : -1;
        ws.push_back(mk<S>(wt(k), s));
        ref.w.push_back(mj(wt(k), s));
      }
    }
    if constexpr (RAT)
      impl = B(deg, ps, ws);
    else
      impl = B(deg, ps);
  }
  P zero() const {
    P z{};
    for (std::size_t d = 0; d < Q::dim; d++) Q::at(z, d) = mk<CS>(0, -1);
    return z;
  }
  bool value(const P &got, const std::vector<J> &e, const std::string &what) {
    for (std::size_t d = 0; d < Q::dim; d++)
      if (!sees(c, Q::at(got, d), e[d], cat(what, " coordinate ", d))) return false;
    return true;
  }
  // parameter point and its series; affine map per direction for pieces
  void point(const std::array<double, PD> &x, X &xi, std::array<J, PD> &xr) const {
    for (std::size_t i = 0; i < PD; i++) {
      int s = -1;
      if (params && i < 2) {
        if (mode == 0 || mode == 2) s = static_cast<int>(i) + 1;
        if (mode == 1 && i == 0) s = 2;
      }
      xi[i] = mk<S>(x[i], s);
      xr[i] = mj(x[i], s);
    }
  }
  bool at(const std::array<double, PD> &x) {
    X xi{};
    std::array<J, PD> xr;
    point(x, xi, xr);
    const auto e = ref.eval(xr);
    if constexpr (!nest)
      if (!value(impl.Evaluate(xi), e, "Evaluate")) return false;
    if constexpr (fixed || Q::dim == 1)
      if (!value(impl.ForwardEvaluate(xi), e, "ForwardEvaluate")) return false;
    // gradient of the value with respect to a control point is its basis
    // function
    if constexpr (params && !RAT) {
      const auto b = impl.BasisFunctions(xi);
      if (!c.expect(b.size() == n, "number of basis functions")) return false;
      for (std::size_t k = 0; k < n; k++)
        if (!sees(c, b[k], ref.basis(k, xr, {}), cat("basis function ", k))) return false;
    }
    if constexpr (!params) {
      const auto b = impl.BasisFunctions(xi);
      if (mode != 2 && !near(b[kp], e[kd].g[0])) return c.expect(false, "basis function is not the gradient");
    }
    if constexpr (!params && (fixed || Q::dim == 1)) {
      for (std::size_t i = 0; i < PD; i++) {
        Deg<PD> o{};
        o[i] = 1;
        if (!value(impl.EvaluateDerivative(xi, o), ref.eval(xr, o), cat("EvaluateDerivative ", i))) return false;
      }
    }
    return true;
  }
  // results of operations
  bool ops(const std::array<double, PD> &x) {
    X xi{};
    std::array<J, PD> xr;
    point(x, xi, xr);
    const auto e = ref.eval(xr);
    const auto map = [&](const auto &f) {
      auto r = e;
      for (auto &q : r) q = f(q);
      return r;
    };
    {
      B s = impl;
      const S f = mk<S>(-1.5, -1);
      s *= f;
      if (!value(s.Evaluate(xi), map([](const J &j) { return mul(j, ad::con(-1.5)); }), "scaled")) return false;
      if (!value((f * impl).Evaluate(xi), map([](const J &j) { return mul(j, ad::con(-1.5)); }), "scaled copy")) return false;
    }
    if constexpr (fixed || Q::dim == 1) {
      P sh = zero();
      for (std::size_t d = 0; d < Q::dim; d++) Q::at(sh, d) = mk<CS>(.75, 0);
      const auto shifted = map([](const J &j) { return lin(j, ad::var(.75, 0), 1); });
      if (!value((impl + sh).Evaluate(xi), shifted, "shifted")) return false;
      B s = impl;
      s += sh;
      if (!value(s.Evaluate(xi), shifted, "shifted in place")) return false;
      if (!value((-impl).Evaluate(xi), map([](const J &j) { return lin(ad::con(0), j, -1); }), "negated")) return false;
      if constexpr (!nest) {
        const auto pr = impl * impl;  // scalar or inner product
        J sq = ad::con(0);
        for (const auto &q : e) sq = lin(sq, mul(q, q), 1);
        if (!sees(c, pr.Evaluate(xi), sq, "product with itself")) return false;
      }
    }
    if constexpr (!RAT && !nest && (fixed || (Q::dim == 1 && !params))) {
      for (std::size_t i = 0; i < PD; i++) {
        Deg<PD> o{};
        o[i] = 1;
        if (!value(impl.DerivativeWRTParametricDimension(o).Evaluate(xi), ref.eval(xr, o), cat("derivative spline ", i))) return false;
      }
    }
    if constexpr (!params && (fixed || Q::dim == 1)) {
      for (std::size_t i = 0; i < PD; i++) {
        B s = impl;
        s.OrderElevateAlongParametricDimension(i);
        if (!value(s.Evaluate(xi), e, cat("elevated ", i))) return false;
        const auto two = impl.SplitAtPosition(.375, i);
        for (int h = 0; h < 2; h++) {
          auto y = xr;
          y[i] = h ? lin(ad::con(.375), mul(ad::con(.625), xr[i]), 1) : mul(ad::con(.375), xr[i]);
          if (!value(two[static_cast<std::size_t>(h)].Evaluate(xi), ref.eval(y), cat("piece ", h, " along ", i))) return false;
        }
        if (!value((impl + s).Evaluate(xi), map([](const J &j) { return mul(ad::con(2), j); }), cat("sum with elevated ", i))) return false;
        if (!value((s - impl).Evaluate(xi), map([](const J &j) { return lin(j, j, -1); }), cat("difference with elevated ", i))) return false;
      }
    }
    // composition with a diagonal
    if constexpr (!params && (fixed || Q::dim == 1)) {
      using BI = bezman::BezierSpline<1, bezman::Point<PD, S>, S>;
      bezman::Point<PD, S> a{}, b{};
      for (std::size_t i = 0; i < PD; i++) a[i] = .25 * static_cast<double>(i), b[i] = 1 - .125 * static_cast<double>(i);
      std::size_t tot = 0;
      for (auto q : deg) tot += q;
      if (tot < 8) {
        const auto comp = impl.Compose(BI({1}, {a, b}));
        std::array<J, PD> y;
        for (std::size_t i = 0; i < PD; i++) y[i] = ad::con(a[i] + (b[i] - a[i]) * x[0]);
        if (!value(comp.Evaluate(bezman::Point<1, S>(x[0])), ref.eval(y), "composition")) return false;
      }
    }
    return true;
  }
};
template <std::size_t PD, class P, class S, bool RAT>
void splines(Ctx &c, const char *nm, std::size_t hi, const std::vector<double> &xs, bool nested) {
  using T = Test<PD, P, S, RAT>;
  Deg<PD> d{};
  for (;;) {
    for (int pat = 0; pat < 3; pat++)
      for (int mode = 0; mode < 4; mode++) {
        if (mode == 1 && !(RAT && T::params)) continue;
        if (mode == 2 && !T::params) continue;
        c.scenario(
            [&] { return cat(nm, "/", PD, "/", lst(d), "/pat", pat, "/mode", mode); },
            [&] {
              precision<double>();
              second() = nested;
              std::size_t n = 1;
              for (auto q : d) n *= q + 1;
              T t{c, d, pat};
              t.mode = mode;
              for (t.kp = 0; t.kp < (mode == 2 ? 1 : n); t.kp++)
                for (t.kd = 0; t.kd < (mode == 2 ? 1 : T::Q::dim); t.kd++)
                  for (t.kw = 0; t.kw < (mode == 1 ? n : 1); t.kw++) {
                    t.build();
                    std::array<double, PD> x{};
                    std::size_t tot = 1;
                    for (std::size_t i = 0; i < PD; i++) tot *= xs.size();
                    for (std::size_t a = 0; a < tot; a++) {
                      std::size_t r = a;
                      for (std::size_t i = 0; i < PD; i++) x[i] = xs[r % xs.size()], r /= xs.size();
                      if (!t.at(x)) return;
                      if (a % 3 == 1)
                        if constexpr (!T::nest)
                          if (!t.ops(x)) return;
                    }
                    c.state(hcomb(hstr(cat(nm, PD, lst(d))), mix(t.kp * 97 + t.kd * 13 + t.kw * 1009 + static_cast<std::size_t>(pat * 5 + mode))));
                  }
            });
      }
    std::size_t i = 0;
    while (i < PD && ++d[i] > hi) d[i++] = 0;
    if (i == PD) break;
  }
}
template <bool RAT>
void all(Ctx &c) {
  const int L = c.level;
  const std::vector<double> xs = L ? std::vector<double>{0, .3125, .5, .875, 1} : std::vector<double>{0, .3125, 1};
  using P1 = bezman::Point<2, A1>;
  using PDn = bezman::Point<2, AD_>;
  using P2 = bezman::Point<2, A2>;
  const auto h = [&](std::size_t a, std::size_t b, std::size_t q) { return L == 2 ? q : L ? b : a; };
  splines<1, P1, A1, RAT>(c, "both point", h(2, 6, 14), xs, false);
  splines<2, P1, A1, RAT>(c, "both point", h(1, 2, 4), xs, false);
  splines<3, P1, A1, RAT>(c, "both point", h(0, 1, 2), xs, false);
  splines<1, A1, A1, RAT>(c, "both scalar", h(2, 6, 14), xs, false);
  splines<2, A1, A1, RAT>(c, "both scalar", h(1, 2, 4), xs, false);
  splines<1, P1, double, RAT>(c, "control points", h(2, 6, 14), xs, false);
  splines<2, P1, double, RAT>(c, "control points", h(1, 2, 4), xs, false);
  splines<3, P1, double, RAT>(c, "control points", h(0, 1, 2), xs, false);
  splines<1, A1, double, RAT>(c, "scalar control points", h(2, 6, 14), xs, false);
  splines<2, A1, double, RAT>(c, "scalar control points", h(1, 2, 4), xs, false);
  splines<1, AD_, double, RAT>(c, "run-time size control points", h(2, 5, 10), xs, false);
  splines<2, AD_, double, RAT>(c, "run-time size control points", h(1, 2, 3), xs, false);
  splines<1, P2, A2, RAT>(c, "nested point", h(2, 5, 12), xs, true);
  splines<2, P2, A2, RAT>(c, "nested point", h(1, 1, 3), xs, true);
  splines<2, A2, A2, RAT>(c, "nested scalar", h(1, 2, 3), xs, true);
}
void explore(Ctx &c) {
  const int L = c.level;
  if constexpr (PART == 1) {
    programs<Nest<3, 3>>(c, "nested", 2, 0, 8, L > 0);
    programs<Nest<2, 3>>(c, "nested 2 3", 2, 0, L == 2 ? 8 : 1, L > 0);
    programs<NestDyn<2, 3>>(c, "nested run-time", 2, 0, L == 2 ? 8 : 2, L > 0);
    if (L) programs<Nest<2, 2>>(c, "deep", 3, 0, L == 2 ? 8 : 2, L == 2);
  } else if constexpr (PART == 2)
    all<false>(c);
  else
    all<true>(c);
}

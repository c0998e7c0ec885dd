// Compositions and their sensitivities (C10, C11).  SENS selects what is judged.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

enum In { IGEN, ICORNER, ICONST, IIDENT, IEDGE, IZERO, NIN };
const char *inname(int p) {
  static const char *n[] = {"generic", "corners", "const", "identity", "edge", "zero"};
  return n[p];
}
// control points in the closed unit cube
template <std::size_t IPD, class Q>
std::vector<Q> inner_points(const Deg &d, int pat, int seed) {
  int n = 1;
  for (std::size_t i = 0; i < IPD; i++) n *= d[i] + 1;
  std::vector<Q> r(n);
  for (int i = 0; i < n; i++) {
    int rest = i;
    for (int k = 0; k < VT<Q>::dim; k++) {
      double v = 0;
      const uint64_t h = mix(mix(seed * 7919u + i) + k);
      switch (pat) {
        case IGEN: v = (static_cast<double>(h % 4093) + 0.5) / 4096.0; break;
        case ICORNER: v = h % 2; break;
        case ICONST: v = 0.3125 + 0.25 * (k % 3); break;
        case IIDENT:
          if (k < static_cast<int>(IPD)) {
            v = d[k] ? static_cast<double>(rest % (d[k] + 1)) / d[k] : 0.5;
            rest /= d[k] + 1;
          } else
            v = 0.5;
          break;
        case IEDGE: v = h % 3 == 0 ? 0.0 : h % 3 == 1 ? 1.0 : (h >> 8) % 1024 / 1024.0; break;
        default: v = 0;
      }
      VT<Q>::set(r[i], k, static_cast<ScalarOf<Q>>(v));
    }
  }
  return r;
}
struct Fn {  // polynomial or rational reference function
  RP num, w;
  bool rat = false;
  std::vector<LD> eval(const Pt &x) const {
    auto a = num.eval(x);
    if (rat) {
      const LD b = w.eval(x)[0];
      for (auto &v : a) v /= b;
    }
    return a;
  }
  LD weight(int i) const { return rat ? w.at(i, 0) : 1; }
  std::vector<LD> bound() const {
    std::vector<LD> s(num.dim, 0);
    for (int i = 0; i < num.n(); i++)
      for (int k = 0; k < num.dim; k++) s[k] = std::max(s[k], std::fabs(num.at(i, k) / weight(i)));
    return s;
  }
  // every basis function at x
  std::vector<LD> basis(const Pt &x) const {
    std::vector<LD> r{1};
    for (int d = 0; d < num.pd; d++) {
      const auto b = bern(num.deg[d], x[d]);
      std::vector<LD> nx;
      for (auto v : b)
        for (auto u : r) nx.push_back(u * v);
      r.swap(nx);
    }
    if (rat) {
      LD s = 0;
      for (size_t i = 0; i < r.size(); i++) s += r[i] * weight(static_cast<int>(i));
      for (size_t i = 0; i < r.size(); i++) r[i] *= weight(static_cast<int>(i)) / s;
    }
    return r;
  }
};
template <std::size_t PD, class P, class S>
Fn fn(const bezman::BezierSpline<PD, P, S> &s) {
  return {toRP(s), {}, false};
}
template <std::size_t PD, class P, class S>
Fn fn(const bezman::RationalBezierSpline<PD, P, S> &s) {
  const RR r = toRR(s);
  if (r.num.deg != r.w.deg) throw std::runtime_error("degrees of numerator and weights differ");
  return {r.num, r.w, true};
}
struct Probe {
  Nodes g;
  std::vector<Pt> at;  // inner spline on the grid
  std::vector<Pt> x;
};
inline Probe probe(const Fn &in, const Deg &rd, int limit) {
  Probe p;
  Deg d = rd;
  while (true) {
    LD n = 1;
    for (int i = 0; i < in.num.pd; i++) n *= d[i] + 1;
    if (n <= limit) break;
    for (int i = 0; i < in.num.pd; i++) d[i] = d[i] > 3 ? d[i] - 1 : d[i];
    bool can = false;
    for (int i = 0; i < in.num.pd; i++) can |= d[i] > 3;
    if (!can) break;
  }
  p.g = nodes(in.num.pd, d);
  for (size_t i = 0; i < ngrid(p.g); i++) {
    const Pt x = gpoint(p.g, i);
    const auto v = in.eval(x);
    Pt y{};
    for (size_t k = 0; k < v.size(); k++) y[k] = v[k];
    p.x.push_back(x);
    p.at.push_back(y);
  }
  return p;
}
inline bool degrees_ok(Ctx &c, const Fn &q, const Deg &rd, const std::string &what) {
  for (int d = 0; d < q.num.pd; d++)
    if (!c.expect(q.num.deg[d] == rd[d], cat(what, " degree in direction ", d, " is ", q.num.deg[d], " instead of ", rd[d]))) return false;
  return true;
}
inline std::vector<LD> on(const Fn &q, const Nodes &g) {
  auto a = grid(q.num, g);
  if (q.rat) {
    const auto b = grid(q.w, g);
    for (size_t i = 0; i < a.size(); i++) a[i] /= b[i / q.num.dim];
  }
  return a;
}
// precision of the type a spline is made of
template <class T>
struct PointOf;
template <std::size_t PD, class P, class S>
struct PointOf<bezman::BezierSpline<PD, P, S>> {
  using T = ScalarOf<P>;
};
template <std::size_t PD, class P, class S>
struct PointOf<bezman::RationalBezierSpline<PD, P, S>> {
  using T = ScalarOf<P>;
};
template <class R>
constexpr LD tol_of() {
  using T = typename PointOf<std::decay_t<R>>::T;
  return sizeof(T) == 4 ? 1e-3L : sizeof(T) == 8 ? 1e-11L : 1e-14L;
}
// with operands of different types, that of the coarser one
template <class O, class I>
constexpr LD tol_of() {
  return std::max(tol_of<O>(), tol_of<I>());
}
// result is the composition
template <class R>
bool judge_comp(Ctx &c, const R &res, const Fn &out, const Probe &p, const Deg &rd, LD tol, const std::string &what) {
  const Fn q = fn(res);
  if (!degrees_ok(c, q, rd, what)) return false;
  if (!c.expect(static_cast<int>(res.GetNumberOfControlPoints()) == q.num.n(), what + " number of control points")) return false;
  std::vector<LD> e;
  for (auto &y : p.at)
    for (auto v : out.eval(y)) e.push_back(v);
  return cmp_grid(c, on(q, p.g), e, out.num.dim, out.bound(), tol, p.g, what);
}
// vec contains one basis function spline per control point, in order
template <class V, class R>
bool judge_sens(Ctx &c, const V &vec, const R &composed, const Fn &out, const Probe &p, const Deg &rd, LD tol, const std::string &what) {
  if (!c.expect(static_cast<int>(vec.size()) == out.num.n(), cat(what, " has ", vec.size(), " entries for ", out.num.n(), " control points")))
    return false;
  std::vector<std::vector<LD>> e;
  for (auto &y : p.at) e.push_back(out.basis(y));
  const int dim = out.num.dim;
  std::vector<LD> sum(p.at.size() * dim, 0);
  for (size_t i = 0; i < vec.size(); i++) {
    const Fn q = fn(vec[i]);
    if (!degrees_ok(c, q, rd, cat(what, " entry ", i))) return false;
    std::vector<LD> ei;
    for (auto &v : e) ei.push_back(v[i]);
    const auto got = on(q, p.g);
    if (!cmp_grid(c, got, ei, 1, {1.0L}, tol, p.g, cat(what, " entry ", i))) return false;
    for (size_t t = 0; t < got.size(); t++)
      for (int k = 0; k < dim; k++) sum[t * dim + k] += got[t] * out.num.at(static_cast<int>(i), k) / out.weight(static_cast<int>(i));
  }
  return cmp_grid(c, sum, on(fn(composed), p.g), dim, out.bound(), tol * 4, p.g, what + " times control points");
}
template <class O, class I>
void one(Ctx &c, const O &o, const I &in, const std::string &what, int limit) {
  const Fn fo = fn(o), fi = fn(in);
  Deg rd{};
  int sum = 0;
  for (int d = 0; d < fo.num.pd; d++) sum += fo.num.deg[d];
  for (int d = 0; d < fi.num.pd; d++) rd[d] = fi.num.deg[d] * sum;
  Deg gd = rd;
  if (fo.rat || fi.rat)
    for (int d = 0; d < fi.num.pd; d++) gd[d] = 2 * rd[d];
  const Probe p = probe(fi, gd, limit);
  const auto composed = o.Compose(in);
  c.transitions++;
  c.state(hashRP(fn(composed).num, fn(composed).rat));
#if SENS
  const auto sens = o.ComposeSensitivity(in);
  judge_sens(c, sens, composed, fo, p, rd, tol_of<O, I>(), what + " sensitivity");
#else
  judge_comp(c, composed, fo, p, rd, tol_of<O, I>(), what);
#endif
  const Fn fo2 = fn(o), fi2 = fn(in);
  c.expect(fo2.num.c == fo.num.c && fo2.w.c == fo.w.c && fi2.num.c == fi.num.c && fi2.w.c == fi.w.c, "operands changed");
}
inline bool fits(int opd, const Deg &od, int ipd, const Deg &id, int maxn) {
  int sum = 0;
  LD n = 1;
  for (int d = 0; d < opd; d++) sum += od[d];
  for (int d = 0; d < ipd; d++) {
    if (id[d] * sum > 29) return false;
    n *= id[d] * sum + 1;
  }
  return n <= maxn;
}
template <std::size_t OPD, std::size_t IPD, class P, class Q>
void shape(Ctx &c, const Deg &od, const Deg &id, int opat, int ipat, int ow, int iw, int maxn) {
  if (!fits(OPD, od, IPD, id, maxn)) return;
  const auto mk = [&](const char *kind) {
    return cat(kind, "/", OPD, "D of ", IPD, "D/", VT<P>::name(), ",", VT<Q>::name(), "/", dstr(OPD, od), "/", patname(opat), "/", dstr(IPD, id),
               "/", inname(ipat), "/", wpatname(ow), ",", wpatname(iw));
  };
  using BO = BS<OPD, P>;
  using RO = RS<OPD, P>;
  using BI = BS<IPD, Q>;
  using RI = RS<IPD, Q>;
  auto weights = [&](int w) {
    int n = 1;
    for (std::size_t i = 0; i < IPD; i++) n *= id[i] + 1;
    std::vector<ScalarOf<Q>> r;
    for (int i = 0; i < n; i++) r.push_back(static_cast<ScalarOf<Q>>(wval(w, 11, i, n)));
    return r;
  };
  auto bi = [&] { return BI(adeg<IPD>(id), inner_points<IPD, Q>(id, ipat, 5)); };
  // weighted points divided by their weight may leave the cube by rounding:
  // powers of two are used where a coordinate is exactly zero or one
  auto ri = [&] { return RI(adeg<IPD>(id), inner_points<IPD, Q>(id, ipat, 5), weights(iw)); };
  const int lim = 120;
  if (ow == WGEN && iw == WGEN) c.scenario([&] { return mk("pp"); }, [&] { one(c, make<OPD, P>(od, opat, 1), bi(), "polynomial of polynomial", lim); });
  if (ow == WGEN) c.scenario([&] { return mk("pr"); }, [&] {
    const BO o = make<OPD, P>(od, opat, 1);
    const RI i = ri();
    if (!i.FitsIntoUnitCube()) return c.counter("inner_outside_by_rounding");
    one(c, o, i, "polynomial of rational", lim);
  });
  if (iw == WGEN) c.scenario([&] { return mk("rp"); }, [&] { one(c, makeR<OPD, P>(od, opat, ow, 1), bi(), "rational of polynomial", lim); });
  c.scenario([&] { return mk("rr"); }, [&] {
    const RO o = makeR<OPD, P>(od, opat, ow, 1);
    const RI i = ri();
    if (!i.FitsIntoUnitCube()) return c.counter("inner_outside_by_rounding");
    one(c, o, i, "rational of rational", lim);
  });
}
#if !SENS
template <std::size_t OPD, std::size_t IPD, class P, class Q>
void groups(Ctx &c, const Deg &od) {
  // all lists of up to three of four inner splines
  std::vector<BS<IPD, Q>> b;
  std::vector<RS<IPD, Q>> r;
  for (int i = 0; i < 4; i++) {
    Deg d{};
    for (std::size_t k = 0; k < IPD; k++) d[k] = (i + k) % 3;
    if (!fits(OPD, od, IPD, d, 300)) return;
    b.emplace_back(adeg<IPD>(d), inner_points<IPD, Q>(d, IGEN, 20 + i));
    const auto w = makeR<IPD, double>(d, GENERIC, WGEN, 30 + i).GetWeights();
    r.emplace_back(adeg<IPD>(d), inner_points<IPD, Q>(d, IGEN, 20 + i), w);
  }
  const auto o = make<OPD, P>(od, GENERIC, 3);
  for (int len = 0; len <= (c.level == 2 ? 40 : c.level ? 20 : 10); len++) {
    if (len > 3 && OPD * IPD > 2) break;
    std::vector<int> q(len, 0);
    if (len > 3)  // one list of every greater length
      for (int i = 0; i < len; i++) q[i] = (i * i + i / 3 + len) % 4;
    while (true) {
      c.scenario([&] { return cat("group/", OPD, "D of ", IPD, "D/", VT<P>::name(), "/", dstr(OPD, od), "/", lst(q)); },
                 [&] {
                   std::vector<BS<IPD, Q>> gb;
                   std::vector<RS<IPD, Q>> gr;
                   for (int i : q) gb.push_back(b[i]), gr.push_back(r[i]);
                   auto chk = [&](const auto &res, const auto &in, const char *w) {
                     if (!c.expect(res.size() == q.size(), cat(w, ": ", res.size(), " results for ", q.size(), " splines"))) return;
                     for (size_t i = 0; i < q.size(); i++) {
                       const auto single = o.Compose(in[i]);
                       const Fn fi = fn(in[i]);
                       Deg rd{};
                       int sum = 0;
                       for (std::size_t d = 0; d < OPD; d++) sum += od[d];
                       for (std::size_t d = 0; d < IPD; d++) rd[d] = fi.num.deg[d] * sum;
                       if (!judge_comp(c, res[i], fn(o), probe(fi, rd, 60), rd, tol_of<BS<OPD, P>>(), cat(w, " entry ", i))) return;
                       c.expect(fn(res[i]).num.deg == fn(single).num.deg, cat(w, " entry ", i, " degrees differ from the single composition"));
                     }
                     c.transitions++;
                   };
                   chk(o.Compose(gb), gb, "polynomial group");
                   chk(o.Compose(gr), gr, "rational group");
                 });
      if (len > 3) break;
      int i = 0;
      while (i < len && ++q[i] == 4) q[i++] = 0;
      if (i == len) break;
    }
  }
}
#endif
// outer and inner spline of different scalar types, as far as the library offers it
template <class S, class T>
constexpr bool wider = sizeof(S) > sizeof(T);
template <std::size_t OPD, std::size_t IPD, class P, class Q>
void mixed(Ctx &c, const Deg &od, const Deg &id, int opat, int ipat) {
  if (!fits(OPD, od, IPD, id, 150)) return;
  const auto mk = [&](const char *kind) {
    return cat("mixed/", kind, "/", OPD, "D of ", IPD, "D/", VT<P>::name(), ",", VT<Q>::name(), "/", dstr(OPD, od), "/", patname(opat), "/",
               dstr(IPD, id), "/", inname(ipat));
  };
  auto bi = [&] { return BS<IPD, Q>(adeg<IPD>(id), inner_points<IPD, Q>(id, ipat, 5)); };
  auto ri = [&] {
    const auto w = make<IPD, ScalarOf<Q>>(id, UNIT, 12).GetControlPoints();
    std::vector<ScalarOf<Q>> v;
    for (auto x : w) v.push_back(ScalarOf<Q>{1} + x * x);
    return RS<IPD, Q>(adeg<IPD>(id), inner_points<IPD, Q>(id, ipat, 5), v);
  };
  c.scenario([&] { return mk("pp"); }, [&] { one(c, make<OPD, P>(od, opat, 1), bi(), "polynomial of polynomial", 80); });
  if constexpr (!wider<ScalarOf<P>, ScalarOf<Q>>)
    c.scenario([&] { return mk("pr"); }, [&] {
      const auto i = ri();
      if (!i.FitsIntoUnitCube()) return c.counter("inner_outside_by_rounding");
      one(c, make<OPD, P>(od, opat, 1), i, "polynomial of rational", 80);
    });
  if constexpr (!wider<ScalarOf<Q>, ScalarOf<P>>) {
    c.scenario([&] { return mk("rp"); }, [&] { one(c, makeR<OPD, P>(od, opat, WGEN, 1), bi(), "rational of polynomial", 80); });
    c.scenario([&] { return mk("rr"); }, [&] {
      const auto i = ri();
      if (!i.FitsIntoUnitCube()) return c.counter("inner_outside_by_rounding");
      one(c, makeR<OPD, P>(od, opat, WGEN, 1), i, "rational of rational", 80);
    });
  }
}
template <std::size_t O, class S, class T>
void types(Ctx &c) {
  using Q = std::conditional_t<O == 1, T, bezman::Point<O, T>>;
  for_degs(O, 0, O == 1 ? 4 : O == 2 ? 2 : 1, [&](const Deg &od) {
    for_degs(1, 0, 3, [&](const Deg &id) {
      mixed<O, 1, S, Q>(c, od, id, GENERIC, IGEN);
      mixed<O, 1, bezman::Point<2, S>, Q>(c, od, id, GENERIC, IEDGE);
    });
    for_degs(2, 0, 1, [&](const Deg &id) { mixed<O, 2, S, Q>(c, od, id, UNIT, IGEN); });
  });
}
template <std::size_t OPD, std::size_t IPD, class P, class Q>
void family(Ctx &c, int ohi, int ihi, int maxn) {
  for_degs(OPD, 0, ohi, [&](const Deg &od) {
    for_degs(IPD, 0, ihi, [&](const Deg &id) {
      shape<OPD, IPD, P, Q>(c, od, id, GENERIC, IGEN, WGEN, WGEN, maxn);
      for (int ip : {ICORNER, ICONST, IIDENT, IEDGE, IZERO}) shape<OPD, IPD, P, Q>(c, od, id, GENERIC, ip, WGEN, WGEN, maxn / 2);
      for (int w : {WONE, WRATIO, WDEV, WEQ}) {
        shape<OPD, IPD, P, Q>(c, od, id, GENERIC, IGEN, w, WGEN, maxn / 2);
        shape<OPD, IPD, P, Q>(c, od, id, GENERIC, IGEN, WGEN, w, maxn / 2);
        shape<OPD, IPD, P, Q>(c, od, id, GENERIC, IGEN, w, w, maxn / 2);
        shape<OPD, IPD, P, Q>(c, od, id, GENERIC, ICORNER, WDEV, w, maxn / 2);
      }
      for (int p : {EQUAL, MIXED, SPARSE}) shape<OPD, IPD, P, Q>(c, od, id, p, IGEN, WGEN, WGEN, maxn / 2);
    });
  });
}
// states reached by operation histories, as outer and as inner function
template <std::size_t PD>
void hist(Ctx &c, int depth) {
  using Q = std::conditional_t<PD == 1, double, bezman::Point<PD, double>>;
  Deg d1{}, d2{};
  d1[0] = 1;
  for (std::size_t i = 0; i < PD; i++) d2[i] = 1;
  const BS<1, Q> line(adeg<1>(d1), inner_points<1, Q>(d1, IGEN, 8));
  const RS<1, Q> arc(adeg<1>(d1), inner_points<1, Q>(d1, IGEN, 9), std::vector<double>{1, 2.5});
  const auto oline = make<PD, double>(d1, GENERIC, 4);
  auto test = [&](const auto &s, bool judged) {
    int sum = 0;
    for (auto d : s.GetDegrees()) sum += static_cast<int>(d);
    if (sum <= 14) {
      if (judged) {
        one(c, s, line, "history of line", 40);
        one(c, s, arc, "history of arc", 40);
      } else {
        s.Compose(line);
        s.ComposeSensitivity(arc);
      }
    }
  };
  histories<PolyHist<PD, Q>>(c, cat(PD, "D"), depth, [&](const BS<PD, Q> &s, bool judged) {
    test(s, judged);
    if (s.GetNumberOfControlPoints() > 80) return;
    auto in = s;
    in.FitIntoUnitCube();
    if (!in.FitsIntoUnitCube()) return;
    if (judged)
      one(c, oline, in, "of history", 60);
    else
      oline.Compose(in);
  });
  histories<RatHist<PD, Q>>(c, cat("R", PD, "D"), depth, [&](const RS<PD, Q> &s, bool judged) {
    for (auto w : s.GetWeights())
      if (!(w > 0)) return c.counter("weights_not_positive");
    test(s, judged);
    if (s.GetNumberOfControlPoints() > 80) return;
    RS<PD, Q> in(s);
    auto mx = in.MaximumCorner(), mn = in.MinimumCorner();
    LD span = 1e-3L, low = 0;
    for (int k = 0; k < VT<Q>::dim; k++) {
      span = std::max(span, static_cast<LD>(VT<Q>::get(mx, k)) - VT<Q>::get(mn, k));
      low = std::min(low, static_cast<LD>(VT<Q>::get(mn, k)));
    }
    Q sh{};
    for (int k = 0; k < VT<Q>::dim; k++) VT<Q>::set(sh, k, VT<Q>::get(mn, k));
    in -= sh;
    in *= static_cast<double>(0.5L / span);
    Q mid{};
    for (int k = 0; k < VT<Q>::dim; k++) VT<Q>::set(mid, k, 0.25);
    in += mid;
    if (!in.FitsIntoUnitCube()) return c.counter("inner_outside");
    if (judged)
      one(c, oline, in, "of history", 60);
    else
      oline.Compose(in);
  });
}
template <std::size_t O>
void explore_(Ctx &c) {
  using D2 = bezman::Point<2, double>;
  using Q = bezman::Point<O, double>;
  const int L = c.level;
  const int maxn = L == 2 ? 400 : L ? 150 : 60;
  if constexpr (O == 1) {
    const int h = L == 2 ? 7 : L ? 5 : 3;
    family<1, 1, double, double>(c, h, h, maxn);
    family<1, 1, D2, Q>(c, h, h, maxn);
    family<1, 2, D2, double>(c, 3, 2, maxn);
    family<1, 3, double, Q>(c, 2, 1, maxn);
    for (int od = 0; od <= 29; od++) {  // extreme outer and inner degrees
      Deg a{}, b{};
      a[0] = od;
      for (int id = 0; id <= 29; id++) {
        b[0] = id;
        if ((od > h || id > h) && od * id <= 29) shape<1, 1, double, double>(c, a, b, GENERIC, IGEN, WGEN, WGEN, 400);
      }
    }
#if !SENS
    for_degs(1, 0, 3, [&](const Deg &d) { groups<1, 1, double, double>(c, d); groups<1, 2, D2, Q>(c, d); });
#endif
    hist<1>(c, L ? 2 : 1);
  }
  if constexpr (O == 2) {
    family<2, 1, double, Q>(c, L == 2 ? 4 : L ? 3 : 2, L ? 3 : 2, maxn);
    family<2, 2, D2, Q>(c, 2, L ? 2 : 1, maxn);
    family<2, 3, double, Q>(c, L == 2 ? 2 : 1, 1, maxn);
#if !SENS
    for_degs(2, 0, 1, [&](const Deg &d) { groups<2, 1, double, Q>(c, d); groups<2, 2, D2, Q>(c, d); });
#endif
    hist<2>(c, L == 2 ? 2 : 1);
  }
  if constexpr (O == 3) {
    family<3, 1, D2, Q>(c, L == 2 ? 2 : 1, L ? 3 : 1, maxn);
    family<3, 2, double, Q>(c, 1, 1, maxn);
    family<3, 3, double, Q>(c, 1, 1, maxn * 2);
    for (auto &a : std::vector<Deg>{{2, 0, 1}, {0, 2, 1}, {1, 2, 0}, {3, 1, 0}, {0, 0, 4}})
      for_degs(1, 0, 2, [&](const Deg &b) { shape<3, 1, D2, Q>(c, a, b, GENERIC, IGEN, WGEN, WGEN, 400); });
#if !SENS
    for_degs(3, 0, 1, [&](const Deg &d) { groups<3, 2, double, Q>(c, d); });
#endif
    hist<3>(c, L == 2 ? 2 : 1);
  }
  if constexpr (O == 4) {
    family<4, 1, double, Q>(c, 1, L ? 2 : 1, maxn);
    family<4, 2, D2, Q>(c, L == 2 ? 1 : 0, 1, maxn);
    for (auto &a : std::vector<Deg>{{2, 0, 1, 0}, {0, 2, 0, 1}, {1, 1, 1, 1}, {0, 0, 0, 3}, {1, 0, 2, 1}})
      for_degs(2, 0, 1, [&](const Deg &b) { shape<4, 2, D2, Q>(c, a, b, GENERIC, IGEN, WGEN, WGEN, 400); });
  }
}
void explore(Ctx &c) {
  if constexpr (PART > 10) {  // scalar types
    constexpr std::size_t O = PART - 10;
    types<O, float, float>(c);
    types<O, float, double>(c);
    types<O, double, float>(c);
    types<O, double, long double>(c);
    types<O, long double, double>(c);
    types<O, long double, long double>(c);
  } else
    explore_<PART>(c);
}

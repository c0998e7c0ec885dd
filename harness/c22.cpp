// C22: every class of invalid request, in every shape, at every output level, is
// answered with a runtime error and leaves its operands as they were; the valid
// requests next to them are accepted.
#include <cstdint>
#include <functional>
#include <memory>

#include "cat.hpp"
#include "bezman/src/utils/logger.hpp"
#include "mc/core.hpp"

using mc::cat;
using bezman::utils::Logger;
namespace {
struct Null : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
std::string bytes(const ct::Out &o) {
  std::string s;
  for (const auto x : o.v) {
    char b[16] = {};
    std::memcpy(b, &x, 10);
    s.append(b, 16);
  }
  for (const auto x : o.d) s.append(reinterpret_cast<const char *>(&x), sizeof x);
  return s;
}
std::vector<unsigned> levels(mc::Ctx &c, bool many) {
  std::vector<unsigned> r{39, 0};
#ifdef ENABLE_LOGGING
  r.insert(r.end(), {2, 511});
  if (many)
    for (unsigned b = 1; b < 512; b *= 2) r.push_back(b);
  if (many && c.level >= 1)
    for (unsigned l = 0; l < 512; l++) r.push_back(l);
#endif
  (void)many, (void)c;
  return r;
}
// f performs the request; snap reads all operands; use uses them
struct Request {
  std::string what;
  bool valid;
  std::function<void()> f;
};
void judge(mc::Ctx &c, const std::vector<unsigned> &levs, const std::vector<Request> &rs, const std::function<std::string()> &snap, const std::function<std::string()> &use) {
  const std::string before = snap(), result = use();
  for (const auto &r : rs)
    for (unsigned l : levs) {
      Logger::SetOutputLevel(l);
      c.transitions++;
      int got = 0;
      std::string msg;
      try {
        r.f();
      } catch (const std::runtime_error &e) {
        got = 1;
        msg = e.what();
      } catch (const std::exception &e) {
        got = 2;
        msg = e.what();
      } catch (...) {
        got = 3;
      }
      if (r.valid && got) c.die(cat(r.what, " at level ", l, " is valid but was rejected: ", msg));
      if (!r.valid && got == 0) c.die(cat(r.what, " at level ", l, " was not rejected"));
      if (!r.valid && got > 1) c.die(cat(r.what, " at level ", l, " raised something else than a runtime error: ", msg));
      if (snap() != before) c.die(cat(r.what, " at level ", l, " changed an operand"));
      if (l == levs.back() || l == levs.front())
        if (use() != result) c.die(cat("after ", r.what, " at level ", l, " the operands behave differently"));
      c.state(mc::hcomb(mc::hstr(c.cur), mc::hcomb(mc::hstr(r.what), l)));
    }
  Logger::SetOutputLevel(39);
}
template <class S>
std::string show(const S &s) {
  ct::Out o;
  o.put(s);
  return bytes(o);
}
template <std::size_t PD, class T>
bezman::Point<PD, T> middle() {
  bezman::Point<PD, T> x;
  for (std::size_t i = 0; i < PD; i++) x[i] = static_cast<T>(.25 + .25 * static_cast<double>(i));
  return x;
}
template <class S, std::size_t PD, class T>
std::string value(const S &s, const bezman::Point<PD, T> &x) {
  ct::Out o;
  o.put(s.Evaluate(x));
  return bytes(o);
}

template <std::size_t PD, class S>
void splits(mc::Ctx &c, const S &s, const std::string &tag) {
  using T = typename S::ScalarType_;
  using L = std::numeric_limits<T>;
  const T e = L::epsilon();
  const auto snap = [&] { return show(s); };
  const auto use = [&] { return value(s, middle<PD, T>()) + show(s.SplitAtPosition(T(.5), PD - 1).at(1)); };
  for (std::size_t d = 0; d < PD; d++) {
    c.scenario([&] { return cat(tag, " split in direction ", d); }, [&] {
      std::vector<Request> r;
      for (T z : {T(0), -T(0), T(1), -L::denorm_min(), -L::min(), -e, T(1) + e, T(-1), T(2), T(-.25), T(1.25), L::max(), -L::max(), L::infinity(), -L::infinity(), L::quiet_NaN()}) {
        r.push_back({cat("split at ", z), false, [&s, z, d] { (void)s.SplitAtPosition(z, d); }});
        r.push_back({cat("split at list of ", z), false, [&s, z, d] { (void)s.SplitAtPosition(std::vector<T>{z}, d); }});
      }
      for (T z : {T(.5), T(1) - e / 2, T(1) - e, e, L::min(), L::denorm_min(), T(.1), T(.9)}) {
        r.push_back({cat("split at ", z), true, [&s, z, d] {
                       if (s.SplitAtPosition(z, d).size() != 2) throw std::logic_error("pieces");
                     }});
        r.push_back({cat("split at list of ", z), true, [&s, z, d] {
                       if (s.SplitAtPosition(std::vector<T>{z}, d).size() != 2) throw std::logic_error("pieces");
                     }});
      }
      judge(c, levels(c, PD == 1), r, snap, use);
    });
    // lists of positions
    const std::vector<T> al{T(-.5), T(0), T(.25), T(.5), T(.75), T(1), T(1.5), L::quiet_NaN()};
    const std::size_t len = PD == 1 ? (c.level >= 2 ? 5 : c.level >= 1 ? 4 : 2) : PD == 2 ? (c.level >= 1 ? 3 : 2) : 2;
    std::vector<T> v;
    const auto rec = [&](auto &self) -> void {
      if (v.size() != 1)
        c.scenario([&] { return cat(tag, " split in direction ", d, " at list ", mc::lst(v)); }, [&] {
          bool ok = true;
          for (std::size_t i = 0; i < v.size(); i++) ok &= v[i] > 0 && v[i] < 1 && (!i || v[i] > v[i - 1]);
          const std::size_t n = v.size() + 1;
          judge(c, levels(c, false), {{"split at list", ok, [&] {
                                     if (s.SplitAtPosition(v, d).size() != n) throw std::logic_error("pieces");
                                   }}},
                snap, use);
        });
      if (v.size() == len) return;
      for (T z : al) {
        v.push_back(z);
        self(self);
        v.pop_back();
      }
    };
    rec(rec);
  }
}

// every operation that takes an inner function
template <class Outer, class Inner>
std::vector<Request> compositions(const Outer &o, const Inner &i, bool valid, const std::string &what) {
  return {{"Compose " + what, valid, [&o, &i] { (void)o.Compose(i); }}, {"ComposeSensitivity " + what, valid, [&o, &i] { (void)o.ComposeSensitivity(i); }}};
}
template <std::size_t PD, std::size_t ID, class T>
void inners(mc::Ctx &c, const ct::Deg<PD> &g, const ct::Deg<ID> &h, const std::string &tag0) {
  using P = bezman::Point<2, T>;
  using Q = bezman::Point<PD, T>;
  using BP = bezman::BezierSpline<PD, P, T>;
  using BT = bezman::BezierSpline<PD, T, T>;
  using RP = bezman::RationalBezierSpline<PD, P, T>;
  using I = bezman::BezierSpline<ID, Q, T>;
  using IR = bezman::RationalBezierSpline<ID, Q, T>;
  using IT = bezman::BezierSpline<ID, T, T>;
  using L = std::numeric_limits<T>;
  const ct::World<PD, T> w(g, g, 11);
  const BP &outer = w.a;
  const BT &scal = w.u;
  const RP &rat = w.ra;
  const T e = L::epsilon();
  std::size_t n = 1;
  for (auto z : h) n *= z + 1;
  // base: all control points on faces, all in the middle, mixed
  for (int base = 0; base < 4; base++) {
    std::vector<Q> b(n);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t k = 0; k < PD; k++) b[i][k] = base == 0 ? T(.5) : base == 1 ? static_cast<T>((i + k) % 2) : base == 2 ? T(0) : static_cast<T>(ct::unit(3, i, k));
    const std::string tag = cat(tag0, " PD", PD, " of ", ID, " degrees ", mc::lst(g), " of ", mc::lst(h), " base ", base);
    const auto all = [&](const std::vector<Q> &pts, const std::vector<T> &ws, bool poly_valid, bool rat_valid, const std::string &what) {
      I in(h, pts);
      IR rin;
      {
        std::vector<Q> wp = pts;
        for (std::size_t i = 0; i < n; i++) wp[i] *= ws[i];
        rin = IR(I(h, wp), IT(h, ws));
      }
      const IR one(in);
      std::vector<Request> r;
      const auto add = [&](std::vector<Request> x) { r.insert(r.end(), x.begin(), x.end()); };
      add(compositions(outer, in, poly_valid, "poly poly" + what)), add(compositions(scal, in, poly_valid, "scalar poly" + what));
      add(compositions(rat, in, poly_valid, "rational poly" + what));
      add(compositions(outer, one, poly_valid, "poly rational of weights one" + what)), add(compositions(rat, one, poly_valid, "rational rational of weights one" + what));
      add(compositions(outer, rin, rat_valid, "poly rational" + what)), add(compositions(rat, rin, rat_valid, "rational rational" + what));
      // groups
      for (std::size_t k = 0; k < 3; k++) {
        auto group = std::make_shared<std::vector<I>>();
        std::vector<Q> good(n);
        for (auto &z : good)
          for (std::size_t q = 0; q < PD; q++) z[q] = T(.5);
        for (std::size_t j = 0; j < 3; j++) group->push_back(j == k ? in : I(h, good));
        r.push_back({cat("Compose group, member ", k, what), poly_valid, [&outer, group] { (void)outer.Compose(*group); }});
      }
      judge(c, poly_valid || !rat_valid ? levels(c, false) : std::vector<unsigned>{39, 0},
            r, [&] { return bytes(w.snapshot()) + show(in) + show(rin); }, [&] { return value(outer, middle<PD, T>()) + value(rin, middle<ID, T>()) + show(rat.Compose(w.in)) + show(outer.Compose(w.in2)); });
    };
    c.scenario([&] { return tag + " inside"; }, [&] {
      all(b, std::vector<T>(n, T(2)), true, true, "");
      std::vector<T> ws(n, T(1));
      ws[0] = T(4), ws[n - 1] = T(.5);
      all(b, ws, true, true, " powers of two as weights");
    });
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t k = 0; k < PD; k++)
        c.scenario([&] { return cat(tag, " control point ", i, " coordinate ", k); }, [&] {
          for (T z : {T(1) + e, -L::denorm_min(), -L::min(), -e, T(1.5), T(-.5), T(2), T(-1), T(1e6), T(-1e6)}) {
            auto p = b;
            p[i][k] = z;
            // the weight hides that the control point is outside (or does not)
            for (T wt : {T(1), T(.25), T(4)}) {
              std::vector<T> ws(n, T(1));
              ws[i] = wt;
              // weighted denormals may round to zero
              const bool far = z > T(1) || z <= -e;
              if (!far && wt != T(1)) continue;
              all(p, ws, false, false, cat(" coordinate ", z, " weight ", wt));
            }
          }
          for (T z : {T(0), T(1), T(1) - e / 2, L::denorm_min(), -T(0)}) {
            auto p = b;
            p[i][k] = z;
            all(p, std::vector<T>(n, T(1)), true, true, cat(" coordinate ", z));
          }
        });
  }
}

template <std::size_t PD, std::size_t D, class T>
void coordinates(mc::Ctx &c, const ct::Deg<PD> &g, const std::string &tn) {
  using V = bezman::Point<D, T>;
  using B = bezman::BezierSpline<PD, V, T>;
  using BT = bezman::BezierSpline<PD, T, T>;
  using R = bezman::RationalBezierSpline<PD, V, T>;
  c.scenario([&] { return cat("coordinates ", tn, " PD", PD, " values in ", D, "D degrees ", mc::lst(g)); }, [&] {
    B b(g);
    BT s(g);
    for (std::size_t i = 0; i < b.GetControlPoints().size(); i++) {
      for (std::size_t k = 0; k < D; k++) b.GetControlPoints()[i][k] = static_cast<T>(ct::val(2, i, k));
      s.GetControlPoints()[i] = static_cast<T>(ct::weight(2, i));
    }
    const R r(b, s);
    std::vector<Request> q;
    for (std::size_t k = 0; k < D; k++) q.push_back({cat("coordinate ", k), true, [&, k] { (void)b.ExtractDimension(k), (void)r.ExtractDimension(k); }});
    q.push_back({"coordinate 0 of a scalar spline", true, [&] { (void)s.ExtractDimension(0); }});
    for (std::size_t k : {std::size_t(D), std::size_t(D + 1), std::size_t(D + 2), std::size_t(100), std::size_t(1) << 32, std::size_t(1) << 63, ~std::size_t(0)}) {
      q.push_back({cat("coordinate ", k), false, [&, k] { (void)b.ExtractDimension(k); }});
      q.push_back({cat("coordinate ", k, " of the rational spline"), false, [&, k] { (void)r.ExtractDimension(k); }});
      q.push_back({cat("coordinate ", k, " of the scalar spline"), false, [&, k] { (void)s.ExtractDimension(k); }});
    }
    q.push_back({"coordinate 1 of the scalar spline", false, [&] { (void)s.ExtractDimension(1); }});
    for (std::size_t k : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(5), std::size_t(1000), ~std::size_t(0)}) q.push_back({cat("power ", k), false, [&, k] { (void)b.RaisePower(k); }});
    for (std::size_t k = 0; k < 4; k++) q.push_back({cat("power ", k, " of the scalar spline"), true, [&, k] { (void)s.RaisePower(k); }});
    // corners
    q.push_back({"corners", true, [&] { (void)b.MaximumCorner(), (void)b.MinimumCorner(), (void)r.MaximumCorner(), (void)r.MinimumCorner(), (void)s.MaximumCorner(), (void)s.MinimumCorner(); }});
    const B e;
    const BT es;
    const R er;
    q.push_back({"maximum corner of an undefined spline", false, [&] { (void)e.MaximumCorner(); }});
    q.push_back({"minimum corner of an undefined spline", false, [&] { (void)e.MinimumCorner(); }});
    q.push_back({"maximum corner of an undefined scalar spline", false, [&] { (void)es.MaximumCorner(); }});
    q.push_back({"minimum corner of an undefined scalar spline", false, [&] { (void)es.MinimumCorner(); }});
    q.push_back({"maximum corner of an undefined rational spline", false, [&] { (void)er.MaximumCorner(); }});
    q.push_back({"minimum corner of an undefined rational spline", false, [&] { (void)er.MinimumCorner(); }});
    judge(c, levels(c, true), q, [&] { return show(b) + show(s) + show(r); }, [&] { return show(b.ExtractDimension(D - 1)) + value(r, middle<PD, T>()) + show(s.RaisePower(2)); });
  });
}
template <std::size_t PD, class T>
void shapes(mc::Ctx &c, const char *tn) {
  using W = ct::World<PD, T>;
  std::vector<ct::Deg<PD>> gs;
  ct::Deg<PD> g{};
  gs.push_back(g);
  g.fill(1), gs.push_back(g);
  g[0] = 2, gs.push_back(g);
  g.fill(1), g[PD - 1] = 3, gs.push_back(g);
  if (c.level >= 2) g.fill(2), g[0] = 4, gs.push_back(g);
  for (const auto &d : gs) {
    const W w(d, d, 21);
    const auto tag = [&](const char *n) { return cat(n, " ", tn, " PD", PD, " degrees ", mc::lst(d)); };
    splits<PD>(c, w.a, tag("point"));
    splits<PD>(c, w.u, tag("scalar"));
    splits<PD>(c, w.ra, tag("rational"));
    coordinates<PD, 1, T>(c, d, tn), coordinates<PD, 2, T>(c, d, tn), coordinates<PD, 3, T>(c, d, tn);
  }
  g.fill(1);
  inners<PD, 1, T>(c, g, ct::Deg<1>{1}, tn);
  inners<PD, 1, T>(c, g, ct::Deg<1>{2}, tn);
  if (c.level >= 1) inners<PD, 1, T>(c, g, ct::Deg<1>{0}, tn);
  if (PD < 3 || c.level >= 1) inners<PD, 2, T>(c, g, ct::Deg<2>{1, 1}, tn);
  g[0] = 2, g[PD - 1] = PD > 1 ? 0 : 2;
  inners<PD, 1, T>(c, g, ct::Deg<1>{1}, tn);
}
}  // namespace

void explore(mc::Ctx &c) {
  static Null null;
  std::cout.rdbuf(&null);
#if PART < 4
  shapes<PART, double>(c, "double");
#else
  shapes<1, float>(c, "float");
  shapes<1, long double>(c, "long double");
  shapes<2, float>(c, "float");
#endif
}

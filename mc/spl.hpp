// Binding between bezman objects and the reference model.
#pragma once
#include <string>
#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"
#include "ref.hpp"

namespace mc {
template <class P>
struct VT {  // scalar values
  static constexpr int dim = 1;
  using S = P;
  static S get(const P &p, int) { return p; }
  static void set(P &p, int, S v) { p = v; }
  static std::string name() {
    return sizeof(P) == 4 ? "f" : sizeof(P) == 8 ? "d" : "ld";
  }
};
template <std::size_t D, class T>
struct VT<bezman::Point<D, T>> {
  static constexpr int dim = D;
  using S = T;
  static S get(const bezman::Point<D, T> &p, int k) { return p[k]; }
  static void set(bezman::Point<D, T> &p, int k, S v) { p[k] = v; }
  static std::string name() { return VT<T>::name() + std::to_string(D); }
};
template <class P>
using ScalarOf = typename VT<P>::S;
template <std::size_t PD, class P>
using BS = bezman::BezierSpline<PD, P, ScalarOf<P>>;
template <std::size_t PD, class P>
using RS = bezman::RationalBezierSpline<PD, P, ScalarOf<P>>;

template <std::size_t PD>
std::array<std::size_t, PD> adeg(const Deg &d) {
  std::array<std::size_t, PD> r{};
  for (std::size_t i = 0; i < PD; i++) r[i] = static_cast<std::size_t>(d[i]);
  return r;
}
template <std::size_t PD, class T>
bezman::Point<PD, T> apt(const Pt &x) {
  bezman::Point<PD, T> r;
  for (std::size_t i = 0; i < PD; i++) r[i] = static_cast<T>(x[i]);
  return r;
}
template <std::size_t PD, class P>
RP toRP_(const std::array<std::size_t, PD> &deg, const std::vector<P> &pts) {
  RP r;
  r.pd = PD;
  r.dim = VT<P>::dim;
  for (std::size_t i = 0; i < PD; i++) {
    if (deg[i] > 1000) throw std::runtime_error("nonsensical degree in result");
    r.deg[i] = static_cast<int>(deg[i]);
  }
  if (pts.size() != static_cast<std::size_t>(r.n()))
    throw std::runtime_error("number of control points does not match degrees");
  r.c.reserve(pts.size() * r.dim);
  for (const auto &p : pts)
    for (int k = 0; k < r.dim; k++) r.c.push_back(VT<P>::get(p, k));
  return r;
}
template <std::size_t PD, class P, class S>
RP toRP(const bezman::BezierSpline<PD, P, S> &s) {
  return toRP_<PD, P>(s.GetDegrees(), s.GetControlPoints());
}
template <std::size_t PD, class P, class S>
RR toRR(const bezman::RationalBezierSpline<PD, P, S> &s) {
  RR r;
  r.num = toRP_<PD, P>(s.GetDegrees(), s.GetWeightedControlPoints());
  r.w = toRP_<PD, S>(s.GetDegrees(), s.GetWeights());
  return r;
}
template <class V>
std::vector<LD> comps(const V &v) {
  std::vector<LD> r;
  for (int k = 0; k < VT<V>::dim; k++) r.push_back(VT<V>::get(v, k));
  return r;
}

// ---- control point data alphabet -------------------------------------
enum Pat {
  GENERIC, ZERO, EQUAL, ALT, CLOSED, HUGE_, TINY, MIXED, NEAREQ, UNIT, SPARSE,
  MONO, NPAT
};
inline const char *patname(int p) {
  static const char *n[] = {"generic", "zero",   "equal", "alt",
                            "closed",  "huge",   "tiny",  "mixed",
                            "neareq",  "unit",   "sparse", "mono"};
  return n[p];
}
inline double patval(int pat, uint64_t seed, int i, int k, int n) {
  const uint64_t h = mix(mix(seed * 1315423911u + i) + 77 * (k + 1));
  const double g = (static_cast<int>(h % 4096) - 2048) / 256.0;
  switch (pat) {
    case ZERO: return 0.0;
    case EQUAL: return 1.25 + k;
    case ALT: return (i % 2 ? -1.0 : 1.0) * (1 + k) ;
    case CLOSED: return (i == n - 1) ? patval(GENERIC, seed, 0, k, n) : g;
    case HUGE_: return g * 1e100;
    case TINY: return g * 1e-100;
    case MIXED: return g * (i % 2 ? 1e8 : 1e-8) * (k % 2 ? 1e-5 : 1.0);
    case NEAREQ: return 1.0 + 1e-9 * g;
    case UNIT:
      return (h >> 20) % 7 == 0 ? 0.0
             : (h >> 20) % 7 == 1 ? 1.0
                                  : static_cast<double>(h % 1025) / 1024.0;
    case SPARSE:
      return (h >> 20) % 3 ? ((h >> 24) % 2 ? 0.0 : -0.0) : g;
    case MONO: return i + 0.5 * k;
    default: return g;
  }
}
enum WPat { WGEN, WONE, WEQ, WRATIO, WDEV, WNEAR, WLAST, WTINY, NWPAT };
inline const char *wpatname(int p) {
  static const char *n[] = {"wgen",  "wone",  "weq",  "wratio",
                            "wdev",  "wnear", "wlast", "wtiny"};
  return n[p];
}
inline double wval(int pat, uint64_t seed, int i, int n) {
  const uint64_t h = mix(mix(seed * 2654435761u + 17 * i) + 5);
  const double g = 0.5 + static_cast<double>(h % 513) / 256.0;  // [0.5,2.5]
  switch (pat) {
    case WONE: return 1;
    case WEQ: return 3;
    case WRATIO: return i % 2 ? 16.0 : 1.0 / 16;
    case WDEV: return i == n / 2 ? 2.0 : 1.0;
    case WNEAR: return 1.0 + 1e-8 * g;
    case WLAST: return i == n - 1 ? 1.5 : 1.0;
    case WTINY: return g * 1e-30;
    default: return g;
  }
}

template <std::size_t PD, class P>
BS<PD, P> make(const Deg &d, int pat, uint64_t seed = 1) {
  BS<PD, P> s(adeg<PD>(d));
  auto &c = s.GetControlPoints();
  const int n = static_cast<int>(c.size());
  for (int i = 0; i < n; i++)
    for (int k = 0; k < VT<P>::dim; k++)
      VT<P>::set(c[i], k,
                 static_cast<ScalarOf<P>>(patval(pat, seed, i, k, n)));
  return s;
}
// control points and weights handed to the public constructor
template <std::size_t PD, class P>
RS<PD, P> makeR(const Deg &d, int pat, int wpat, uint64_t seed = 1) {
  int n = 1;
  for (std::size_t i = 0; i < PD; i++) n *= d[i] + 1;
  std::vector<P> pts(n);
  std::vector<ScalarOf<P>> w(n);
  for (int i = 0; i < n; i++) {
    w[i] = static_cast<ScalarOf<P>>(wval(wpat, seed, i, n));
    for (int k = 0; k < VT<P>::dim; k++)
      VT<P>::set(pts[i], k,
                 static_cast<ScalarOf<P>>(patval(pat, seed, i, k, n)));
  }
  return RS<PD, P>(adeg<PD>(d), pts, w);
}
// unweighted reference of what makeR was given
template <class P>
void dataR(int n, int pat, int wpat, uint64_t seed, std::vector<LD> &pts,
           std::vector<LD> &w) {
  for (int i = 0; i < n; i++) {
    w.push_back(static_cast<ScalarOf<P>>(wval(wpat, seed, i, n)));
    for (int k = 0; k < VT<P>::dim; k++)
      pts.push_back(static_cast<ScalarOf<P>>(patval(pat, seed, i, k, n)));
  }
}

template <class S>
void see(Ctx &c, const S &s) {
  c.state(hashRP(toRP(s)));
}
template <class S>
void seeR(Ctx &c, const S &s) {
  const RR r = toRR(s);
  c.state(hashRP(r.w, hashRP(r.num, 99)));
}

// compare two functions given by value tables on a grid
inline bool cmp_grid(Ctx &c, const std::vector<LD> &got,
                     const std::vector<LD> &exp, int dim,
                     const std::vector<LD> &scale, LD tol, const Nodes &g,
                     const std::string &what) {
  for (size_t i = 0; i < exp.size(); i++) {
    const int k = static_cast<int>(i % dim);
    if (!c.close(got[i], exp[i], scale[k], tol, [&] {
          const Pt x = gpoint(g, i / dim);
          return cat(what, " coordinate ", k, " at (", lst(x), ")");
        }))
      return false;
  }
  return true;
}
inline std::vector<LD> scales(const RP &p) {
  std::vector<LD> r;
  for (int k = 0; k < p.dim; k++) r.push_back(p.maxabs(k));
  return r;
}
}  // namespace mc

// C06: splitting reproduces the original on every sub-interval.
#include "mc/hist.hpp"
#ifndef PART
#define PART 1
#endif
using namespace mc;

template <class S>
struct Ref;
template <std::size_t PD, class P, class T>
struct Ref<bezman::BezierSpline<PD, P, T>> {
  static RR get(const bezman::BezierSpline<PD, P, T> &s) {
    RR r;
    r.num = toRP(s);
    r.w = r.num;
    r.w.dim = 1;
    r.w.c.assign(r.num.n(), 1);
    return r;
  }
};
template <std::size_t PD, class P, class T>
struct Ref<bezman::RationalBezierSpline<PD, P, T>> {
  static RR get(const bezman::RationalBezierSpline<PD, P, T> &s) { return toRR(s); }
};
template <class S>
RR ref(const S &s) {
  return Ref<S>::get(s);
}

template <class S>
void judge(Ctx &c, const S &s, const std::vector<S> &pieces, const std::vector<LD> &pos, int dir, LD tol, const std::string &what) {
  constexpr std::size_t PD = S::kParametricDimensions;
  const RR r = ref(s);
  if (!c.expect(pieces.size() == pos.size() + 1, cat(what, " number of pieces ", pieces.size()))) return;
  std::vector<LD> sc(r.num.dim, 0);
  for (int i = 0; i < r.num.n(); i++)
    for (int k = 0; k < r.num.dim; k++) sc[k] = std::max(sc[k], std::fabs(r.num.at(i, k) / r.w.at(i, 0)));
  std::vector<LD> last;
  for (size_t p = 0; p < pieces.size(); p++) {
    const LD a = p ? pos[p - 1] : 0, b = p < pos.size() ? pos[p] : 1;
    const RR q = ref(pieces[p]);
    for (std::size_t d = 0; d < PD; d++)
      if (!c.expect(q.num.deg[d] == r.num.deg[d] && q.w.deg[d] == r.w.deg[d], cat(what, " degree of piece ", p, " changed"))) return;
    Nodes g = nodes(PD, r.num.deg), h;
    for (auto &v : g)
      if (v.size() == 1) v = {0, 0.5L, 1};
    h = g;
    for (auto &t : h[dir]) t = a + (b - a) * t;
    const auto x = grid(q.num, g), xw = grid(q.w, g), e = grid(r.num, h), ew = grid(r.w, h);
    for (size_t i = 0; i < xw.size(); i++)
      for (int k = 0; k < r.num.dim; k++)
        if (!c.close(x[i * r.num.dim + k] / xw[i], e[i * r.num.dim + k] / ew[i], sc[k], tol,
                     [&] { return cat(what, " piece ", p, " coordinate ", k, " at (", lst(gpoint(g, i)), ")"); }))
          return;
    // the rational pieces carry the restricted weight function up to a factor
    c.transitions++;
  }
}
template <class T>
std::vector<std::vector<T>> lists(int level) {
  std::vector<std::vector<T>> r{{}};
  const std::vector<double> one{0.5, 0.25, 0.75, 0.1, 1e-9, 1 - 1e-9, 1.0 / 3, 0.999, 1e-300, 1 - 1.1102230246251565e-16};
  for (double t : one) r.push_back({static_cast<T>(t)});
  const std::vector<double> m{1e-9, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 0.9, 1 - 1e-9};
  const int n = static_cast<int>(m.size());
  for (int mask = 0; mask < (1 << n); mask++) {
    const int k = __builtin_popcount(mask);
    if (k < 2 || k > (level == 2 ? 8 : level ? 4 : 3)) continue;
    if (level == 0 && mask % 3) continue;
    std::vector<T> v;
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) v.push_back(static_cast<T>(m[i]));
    r.push_back(v);
  }
  if (sizeof(T) == 4)  // not representable strictly inside in single precision
    r.erase(std::remove_if(r.begin(), r.end(), [](const std::vector<T> &v) {
              for (auto t : v)
                if (!(t > T(1e-30)) || !(t < T(0.9999))) return true;
              return false;
            }), r.end());
  return r;
}
template <class S, class Mk>
void shape(Ctx &c, const std::string &id, const Deg &d, const Mk &mk, bool all_lists, LD tol) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using T = typename S::ScalarType_;
  static const auto ls = lists<T>(c.level);
  for (std::size_t dir = 0; dir < PD; dir++)
    for (size_t li = 0; li < (all_lists ? ls.size() : std::min<size_t>(ls.size(), 16)); li++) {
      const auto &l = ls[li];
      c.scenario([&] { return cat(id, "/", dstr(PD, d), "/dir ", dir, "/at ", lst(l)); }, [&] {
        const S s = mk(d);
        const S before(s);
        std::vector<LD> pos(l.begin(), l.end());
        judge(c, s, s.SplitAtPosition(l, dir), pos, dir, tol, "list");
        if (l.size() == 1) judge(c, s, s.SplitAtPosition(l[0], dir), pos, dir, tol, "single");
        if (dir == 0) {
          judge(c, s, s.SplitAtPosition(l), pos, dir, tol, "list, default direction");
          if (l.size() == 1) judge(c, s, s.SplitAtPosition(l[0]), pos, dir, tol, "single, default direction");
        }
        const RR a = ref(s), b = ref(before);
        c.expect(a.num.c == b.num.c && a.w.c == b.w.c, "original modified by splitting");
        if (li == 0) c.state(hashRP(a.num, hashRP(a.w)));
      });
    }
}
// lists of every length
template <class S, class Mk>
void longer(Ctx &c, const std::string &id, const Deg &d, const Mk &mk, LD tol) {
  constexpr std::size_t PD = S::kParametricDimensions;
  using T = typename S::ScalarType_;
  for (std::size_t dir = 0; dir < PD; dir++)
    for (int n = 5; n <= (c.level == 2 ? 130 : c.level ? 36 : 18); n++)
      for (int kind = 0; kind < 2; kind++)
        c.scenario([&] { return cat(id, "/", dstr(PD, d), "/dir ", dir, "/", n, kind ? " positions, uneven" : " positions"); }, [&] {
          std::vector<T> l;
          for (int i = 1; i <= n; i++) {
            const T x = static_cast<T>(i) / static_cast<T>(n + 1);
            l.push_back(kind ? x * x : x);
          }
          const S s = mk(d);
          judge(c, s, s.SplitAtPosition(l, dir), std::vector<LD>(l.begin(), l.end()), dir, tol, "long list");
        });
}
template <class H, class S>
void hist(Ctx &c, const std::string &id, int depth) {
  constexpr std::size_t PD = S::kParametricDimensions;
  histories<H>(c, id, depth, [&](const S &s, bool judged) {
    if (!judged) return;
    const RR r = ref(s);
    c.state(hashRP(r.num, hashRP(r.w)));
    for (auto w : r.w.c)
      if (!(w > 0)) return c.counter("weights_not_positive");
    for (std::size_t d = 0; d < PD; d++) {
      judge(c, s, s.SplitAtPosition(0.375, d), {0.375L}, static_cast<int>(d), 1e-11L, "after history");
      if (!c.failed_here && (PD == 1 || d == PD - 1))
        judge(c, s, s.SplitAtPosition(std::vector<double>{0.25, 0.5, 0.875}, d), {0.25L, 0.5L, 0.875L}, static_cast<int>(d), 1e-11L,
              "list after history");
      if (c.failed_here) return;
    }
  });
}
template <std::size_t PD>
void explore_(Ctx &c) {
  const int L = c.level;
  const int hi = PD == 1 ? 29 : PD == 2 ? (L == 2 ? 8 : L ? 4 : 1) : PD == 3 ? (L == 2 ? 4 : L ? 2 : 1) : PD == 4 && L == 2 ? 2 : 1;
  std::vector<Deg> extra;
  if (PD == 2) extra = {{17, 1}, {1, 17}, {9, 5}};
  if (PD == 3) extra = {{0, 0, 7}, {7, 0, 0}, {0, 7, 0}, {4, 1, 3}};
  if (PD == 4) extra = {{0, 0, 0, 4}, {4, 0, 1, 0}, {2, 1, 3, 1}};
  if (PD == 5) extra = {{0, 0, 0, 0, 4}, {3, 0, 1, 0, 0}, {0, 2, 0, 1, 1}, {1, 0, 2, 1, 2}};
  using P3 = bezman::Point<3, double>;
  using P2 = bezman::Point<2, double>;
  auto each = [&](const Deg &d) {
    for (int pat : {GENERIC, MIXED, EQUAL, ALT, SPARSE, HUGE_, NEAREQ}) {
      shape<BS<PD, double>>(c, cat("poly/", PD, "D/d/", patname(pat)), d, [&](const Deg &x) { return make<PD, double>(x, pat); },
                            pat == GENERIC, 1e-12L);
      if (PD > 2 && L < 2 && pat == MIXED) break;
    }
    if constexpr (PD <= 3)
      shape<BS<PD, P3>>(c, cat("poly/", PD, "D/d3"), d, [&](const Deg &x) { return make<PD, P3>(x, GENERIC); }, PD <= 2, 1e-12L);
    if constexpr (PD <= 2) {
      shape<BS<PD, long double>>(c, cat("poly/", PD, "D/ld"), d, [&](const Deg &x) { return make<PD, long double>(x, GENERIC); }, true, 1e-16L);
      using F2 = bezman::Point<2, float>;
      shape<BS<PD, F2>>(c, cat("poly/", PD, "D/f2"), d, [&](const Deg &x) { return make<PD, F2>(x, GENERIC); }, false, 1e-5L);
    }
    for (int wp : {WGEN, WONE, WRATIO, WDEV, WNEAR}) {
      shape<RS<PD, double>>(c, cat("rational/", PD, "D/d/", wpatname(wp)), d,
                            [&](const Deg &x) { return makeR<PD, double>(x, GENERIC, wp); }, wp == WGEN, 1e-11L);
      if (PD > 2 && L < 2 && wp == WRATIO) break;
    }
    if constexpr (PD <= 3)
      shape<RS<PD, P2>>(c, cat("rational/", PD, "D/d2"), d, [&](const Deg &x) { return makeR<PD, P2>(x, GENERIC, WGEN); }, PD == 1, 1e-11L);
  };
  for_degs(PD, 0, hi, each);
  for (auto &d : extra) each(d);
  // beyond the binomial table, around powers of two
  std::vector<Deg> far;
  if (PD == 1) far = {{31}, {33}, {63}, {64}, {66}, {100}, {127}, {128}, {255}, {256}};
  if (PD == 2) far = {{70, 1}, {1, 130}, {33, 20}};
  if (PD == 3) far = {{0, 0, 66}, {33, 1, 1}, {1, 65, 0}};
  for (auto &d : far) {
    shape<BS<PD, double>>(c, cat("poly/", PD, "D/d/far"), d, [&](const Deg &x) { return make<PD, double>(x, GENERIC); }, false, 1e-11L);
    shape<RS<PD, P2>>(c, cat("rational/", PD, "D/d2/far"), d, [&](const Deg &x) { return makeR<PD, P2>(x, GENERIC, WGEN); }, false, 1e-10L);
  }
  const Deg some = PD == 1 ? Deg{3} : PD == 2 ? Deg{2, 1} : PD == 3 ? Deg{1, 0, 2} : PD == 4 ? Deg{1, 1, 0, 1} : Deg{0, 1, 0, 1, 1};
  longer<BS<PD, P2>>(c, cat("poly/", PD, "D/d2"), some, [&](const Deg &x) { return make<PD, P2>(x, GENERIC); }, 1e-11L);
  longer<RS<PD, double>>(c, cat("rational/", PD, "D/d"), some, [&](const Deg &x) { return makeR<PD, double>(x, GENERIC, WGEN); }, 1e-10L);
  const int dep = L == 2 && PD < 4 ? 3 : L ? 2 : 1;
  hist<PolyHist<PD, double>, BS<PD, double>>(c, cat(PD, "D/d"), dep);
  hist<PolyHist<PD, P2>, BS<PD, P2>>(c, cat(PD, "D/d2"), dep);
  hist<RatHist<PD, double>, RS<PD, double>>(c, cat("R", PD, "D/d"), dep);
  hist<RatHist<PD, P2>, RS<PD, P2>>(c, cat("R", PD, "D/d2"), dep);
}
// more control points than sixteen bits can count
void huge(Ctx &c) {
  const Deg d{16, 15, 16, 17};
  for (int dir = 0; dir < 4; dir++)
    c.scenario([&] { return cat("huge/", dir); },
               [&] {
                 const auto s = make<4, double>(d, GENERIC);
                 judge(c, s, s.SplitAtPosition(0.375, dir), {0.375L}, dir, 1e-11L, "huge");
                 const auto r = makeR<4, double>(d, GENERIC, WGEN);
                 judge(c, r, r.SplitAtPosition(std::vector<double>{0.25, 0.625}, dir), {0.25L, 0.625L}, dir, 1e-11L, "huge rational");
               });
}
void explore(Ctx &c) {
  explore_<PART>(c);
  if constexpr (PART == 4)
    if (c.level >= 1) huge(c);
}

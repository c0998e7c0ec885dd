// C18, sequential part: operations on constant operands depend on nothing but
// these. Baselines come from processes in which nothing else happened; every
// sequence of two (three) operations on operands that are kept, overwritten in
// place or rebuilt in the same memory has to reproduce them bit by bit.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <new>

#include "cat.hpp"
#include "bezman/src/utils/logger.hpp"
#include "mc/core.hpp"

using mc::cat;
namespace {
constexpr std::size_t kBuf = std::size_t(16) << 20;
char *shm;
std::string bytes(const ct::Out &o) {
  std::string s;
  for (const auto x : o.v) {
    char b[16] = {};
    std::memcpy(b, &x, 10);
    s.append(b, 16);
  }
  for (const auto x : o.d) s.append(reinterpret_cast<const char *>(&x), sizeof x);
  return s;
}
template <std::size_t PD, class T>
struct Runner {
  using W = ct::World<PD, T>;
  struct Spec {
    ct::Deg<PD> g, h;
    unsigned seed;
    int near = 0;  // 1, 2, 3: the first, middle, last number of everything one rounding unit away
  };
  static T next(T x) { return x == T(1) ? T(1) - std::numeric_limits<T>::epsilon() : x + std::numeric_limits<T>::epsilon() * (x > 2 || x < -2 ? 4 : 2); }
  template <std::size_t D>
  static void move(bezman::Point<D, T> &x) {
    for (std::size_t k = 0; k < D; k++) x[k] = next(x[k]);
  }
  static void move(T &x) { x = next(x); }
  static std::size_t which(std::size_t n, int near) { return near == 1 ? 0 : near == 2 ? n / 2 : n - 1; }
  template <std::size_t D, class P>
  static void move_one(bezman::BezierSpline<D, P, T> &s, int near) {
    move(s.GetControlPoints()[which(s.GetNumberOfControlPoints(), near)]);
  }
  template <std::size_t D, class P>
  static void move_one(bezman::RationalBezierSpline<D, P, T> &s, int near) {
    const std::size_t i = which(s.GetNumberOfControlPoints(), near);
    move(s.GetWeightedControlPoints()[i]);
    move(s.GetWeights()[i]);
  }
  static W changed(W w, int near) {
    if (!near) return w;
    move_one(w.a, near), move_one(w.b, near), move_one(w.s, near), move_one(w.u, near);
    move_one(w.ra, near), move_one(w.rb, near), move_one(w.rc, near), move_one(w.rs, near);
    w.rc.GetWeights() = w.ra.GetWeights();
    move_one(w.q, near), move_one(w.in, near), move_one(w.in2, near), move_one(w.rin, near), move_one(w.outside, near);
    w.group = {w.in, w.in2};
    for (auto &x : w.x) {
      auto &t = x[near == 1 ? 0 : PD - 1];
      t = t == T(1) ? t - std::numeric_limits<T>::epsilon() : t + std::numeric_limits<T>::epsilon() / 2;
    }
    move(w.p), move(w.p2), move(w.c);
    return w;
  }
  std::vector<Spec> specs;
  const std::vector<ct::Entry<PD, T>> &list = ct::catalogue<PD, T>();
  std::vector<std::vector<std::string>> base;
  std::vector<std::string> snap;
  std::string tag;
  alignas(W) static inline unsigned char slot[sizeof(W)];
  W build(std::size_t a) const { return changed(W(specs[a].g, specs[a].h, specs[a].seed), specs[a].near); }
  static std::string run(const W &w, const ct::Entry<PD, T> &e) {
    ct::Out o;
    e.f(w, o);
    return bytes(o);
  }
  const std::string &alone(mc::Ctx &c, std::size_t i, std::size_t a) {
    std::string &s = base[i][a];
    if (!s.empty()) return s;
    std::size_t *len = reinterpret_cast<std::size_t *>(shm);
    *len = 0;
    const pid_t p = fork();
    if (p == 0) {
      const W w = build(a);
      const std::string r = run(w, list[i]) + "|";
      if (r.size() + 8 > kBuf) _exit(1);
      std::memcpy(shm + 8, r.data(), r.size());
      *len = r.size();
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!*len) c.die(cat(list[i].name, " alone fails: status ", st));
    s.assign(shm + 8, *len);
    c.counter("baselines from processes of their own");
    return s;
  }
  void judge(mc::Ctx &c, const W &w, std::size_t i, std::size_t a, const std::string &how) {
    c.transitions++;
    const std::string r = run(w, list[i]) + "|";
    const std::string &b = alone(c, i, a);
    if (r != b) {
      std::size_t k = 0;
      while (k < r.size() && k < b.size() && r[k] == b[k]) k++;
      c.die(cat(list[i].name, " on operands ", a, " ", how, ": result differs from the one in a fresh process (byte ", k, " of ", b.size(), "/", r.size(), ")"));
    }
    if (bytes(w.snapshot()) != snap[a]) c.die(cat(list[i].name, " on operands ", a, " ", how, ": operands changed"));
    c.state(mc::hcomb(mc::hstr(r), i));
  }
  void explore(mc::Ctx &c) {
    base.assign(list.size(), std::vector<std::string>(specs.size()));
    for (std::size_t a = 0; a < specs.size(); a++) snap.push_back(bytes(build(a).snapshot()));
    const std::size_t n = list.size(), m = specs.size();
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t a = 0; a < m; a++)
        for (int way = 0; way < 3; way++)  // what happens to the operands
          c.scenario([&] { return cat(tag, " ", list[i].name, " @", a, way == 0 ? " kept" : way == 1 ? " overwritten" : " rebuilt"); },
                     [&] {
                       for (std::size_t j = 0; j < n; j++)
                         for (std::size_t b = 0; b < m; b++) {
                           const std::string how = cat("after ", list[i].name, " on operands ", a);
                           if (way == 0) {
                             const W wa = build(a), wb = build(b);
                             judge(c, wa, i, a, cat("before ", list[j].name));
                             judge(c, wb, j, b, how);
                             judge(c, wa, i, a, cat("again, after ", list[j].name, " on operands ", b));
                             const W copy = wa;
                             judge(c, copy, i, a, "copied");
                           } else {
                             W *w = new (slot) W(build(a));
                             judge(c, *w, i, a, "first");
                             if (way == 1)
                               *w = build(b);
                             else {
                               w->~W();
                               w = new (slot) W(build(b));
                             }
                             judge(c, *w, j, b, how + " in the same memory");
                             w->~W();
                           }
                           c.progress();
                         }
                     });
    // everything in one long sequence, forwards and backwards, with one
    // operation in between over and over
    for (std::size_t i = 0; i < n; i++)
      c.scenario([&] { return cat(tag, " ", list[i].name, " in a long sequence"); }, [&] {
        std::vector<W> w;
        w.reserve(m);
        for (std::size_t a = 0; a < m; a++) w.push_back(build(a));
        for (std::size_t k = 0; k < 2 * n * m; k++) {
          const std::size_t j = k < n * m ? k : 2 * n * m - 1 - k;
          judge(c, w[j % m], j / m, j % m, "in a long sequence");
          judge(c, w[(k + i) % m], i, (k + i) % m, cat("for the ", k, "th time"));
          c.progress();
        }
      });
  }
};
}  // namespace

void explore(mc::Ctx &c) {
  bezman::utils::Logger::SetOutputLevel(0);
  shm = static_cast<char *>(mmap(nullptr, kBuf, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
#if PART == 1
  {
    Runner<1, double> r;
    r.tag = "1D";
    r.specs = {{{2}, {3}, 1}, {{2}, {3}, 40}, {{4}, {1}, 80}, {{2}, {3}, 1, 3}};
    if (c.level >= 1) r.specs.push_back({{2}, {3}, 1, 1}), r.specs.push_back({{2}, {3}, 1, 2});
    if (c.level >= 1) r.specs.push_back({{0}, {2}, 3}), r.specs.push_back({{3}, {0}, 4});
    if (c.level >= 2) r.specs.push_back({{5}, {4}, 5}), r.specs.push_back({{1}, {1}, 6});
    r.explore(c);
  }
#elif PART == 2
  {
    Runner<2, double> r;
    r.tag = "2D";
    r.specs = {{{1, 2}, {2, 1}, 1}, {{1, 2}, {2, 1}, 40}, {{1, 2}, {2, 1}, 1, 3}};
    if (c.level >= 1) r.specs.push_back({{2, 0}, {1, 1}, 3});
    if (c.level >= 2) r.specs.push_back({{3, 1}, {0, 2}, 5});
    r.explore(c);
  }
#else
  if (c.level >= 2) {
    Runner<3, double> r;
    r.tag = "3D";
    r.specs = {{{1, 1, 1}, {1, 0, 1}, 1}, {{1, 1, 1}, {1, 0, 1}, 40}, {{0, 1, 2}, {1, 1, 0}, 80}, {{1, 1, 1}, {1, 0, 1}, 1, 3}};
    r.explore(c);
  }
  Runner<1, float> f;
  f.tag = "1D float";
  f.specs = {{{2}, {3}, 1}, {{3}, {2}, 40}, {{2}, {3}, 1, 3}};
  f.explore(c);
#endif
}

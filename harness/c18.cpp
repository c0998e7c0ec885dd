// C18, concurrent part: every pair of operations of the catalogue in two threads
// on shared operands, compiled with memory access instrumentation and run under
// the controlled scheduler of mc/sched.*: all interleavings up to a preemption
// bound, reduced to the accesses that do not commute.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include "cat.hpp"
#include "bezman/src/utils/logger.hpp"
#include "mc/core.hpp"
#include "mc/sched.hpp"

using mc::cat;
namespace {
constexpr std::size_t kBuf = std::size_t(24) << 20;
struct Shm {
  sched::Report rep;
  int done;
  std::size_t len[sched::kThreads];
  char data[kBuf];
};
Shm *shm;
std::string bytes(const ct::Out &o) {
  std::string s;
  for (const auto x : o.v) {
    char b[16] = {};
    std::memcpy(b, &x, 10);
    s.append(b, 16);
  }
  for (const auto x : o.d) s.append(reinterpret_cast<const char *>(&x), sizeof x);
  return s;
}

template <std::size_t PD, class T>
struct Runner {
  using W = ct::World<PD, T>;
  static const W *w[sched::kThreads];
  static const ct::Entry<PD, T> *e[sched::kThreads];
  static ct::Out out[sched::kThreads];
  static void body(int t) { e[t]->f(*w[t], out[t]); }

  struct Result {
    sched::Report rep;
    std::string out[sched::kThreads], crash;
  };
  static Result execute(mc::Ctx &c, int n, const std::vector<unsigned char> &ch, const std::vector<uintptr_t> &conf) {
    Result r;
    std::memset(&shm->rep, 0, sizeof shm->rep);
    shm->done = 0;
    const pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      sched::run(n, body, ch.data(), static_cast<int>(ch.size()), conf.data(), static_cast<int>(conf.size()), &shm->rep);
      std::size_t at = 0;
      for (int t = 0; t < n; t++) {
        const std::string s = bytes(out[t]);
        if (at + s.size() > kBuf) _exit(95);
        std::memcpy(shm->data + at, s.data(), s.size());
        shm->len[t] = s.size();
        at += s.size();
      }
      shm->done = 1;
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.rep = shm->rep;
    c.transitions += r.rep.accesses;
    c.counter("executions");
    c.counter("memory accesses checked", r.rep.accesses);
    c.counter("synchronisation operations", r.rep.syncs);
    c.counter("context switches", r.rep.switches);
    if (!shm->done) {
      if (r.rep.deadlock)
        r.crash = "deadlock";
      else if (WIFSIGNALED(st))
        r.crash = cat("signal ", WTERMSIG(st));
      else
        r.crash = cat("exit code ", WEXITSTATUS(st));
      return r;
    }
    std::size_t at = 0;
    for (int t = 0; t < n; t++) {
      r.out[t].assign(shm->data + at, shm->len[t]);
      at += shm->len[t];
    }
    return r;
  }

  std::vector<W> worlds;
  std::vector<std::vector<std::string>> solo;  // [entry][world]
  std::vector<bool> have;
  const std::vector<ct::Entry<PD, T>> &cat_ = ct::catalogue<PD, T>();
  std::string tag;

  const std::string &alone(mc::Ctx &c, std::size_t i, std::size_t k) {
    std::string &s = solo[i][k];
    if (!s.empty()) return s;
    w[0] = &worlds[k], e[0] = &cat_[i];
    const Result r = execute(c, 1, {}, {});
    if (!r.crash.empty()) c.die(cat(cat_[i].name, " alone: ", r.crash));
    return s = r.out[0] + "|";
  }
  // one set of operations: all schedules
  void operations(mc::Ctx &c, const std::vector<std::pair<std::size_t, std::size_t>> &ops, int bound) {
    c.scenario(
        [&] {
          std::string s = tag;
          for (const auto &o : ops) s += cat(" | ", cat_[o.first].name, " @", o.second);
          return s;
        },
        [&] {
          const int n = static_cast<int>(ops.size());
          std::vector<std::string> expected;
          for (const auto &o : ops) expected.push_back(alone(c, o.first, o.second));
          for (int t = 0; t < n; t++) w[t] = &worlds[ops[t].second], e[t] = &cat_[ops[t].first];
          std::vector<uintptr_t> conf;
          std::string race;
          std::vector<unsigned char> ch;
          int limit = 100000;
          for (int exec = 0; exec < limit; exec++) {
            const Result r = execute(c, n, ch, conf);
            std::string sch;
            for (int k = 0; k < r.rep.points; k++)
              if (r.rep.taken[k]) sch += cat(" ", k, ":", int(r.rep.taken[k]));
            if (!r.crash.empty()) c.die(cat(race, " ", r.crash, " under schedule", sch));
            for (int t = 0; t < n; t++)
              if (r.out[t] + "|" != expected[t]) c.die(cat("thread ", t, " (", e[t]->name, ") gets another result than alone under schedule [", sch, "] ", race));
            if (r.rep.overflow) c.counter("executions with more scheduling points than recorded");
            c.state(mc::hcomb(mc::hstr(c.cur), mc::hstr(sch)));
            if (r.rep.races && race.empty()) {
              // a data race: look for a schedule that changes a result
              race = cat("data race: ", r.rep.race);
              conf.assign(r.rep.conf, r.rep.conf + std::min(r.rep.nconf, 8));
              ch.clear();
              limit = exec + 400;
              continue;
            }
            // next schedule
            const int b = r.rep.points > 40 ? 1 : bound;
            int k = r.rep.points - 1;
            for (; k >= 0; k--) {
              int used = 0;
              for (int q = 0; q < k; q++) used += r.rep.taken[q] && !r.rep.forced[q];
              const bool free = r.rep.forced[k];
              if (r.rep.taken[k] + 1 < r.rep.options[k] && (free || used < b)) break;
            }
            if (k < 0) break;
            ch.assign(r.rep.taken, r.rep.taken + k + 1);
            ch[k]++;
          }
          if (!race.empty()) c.fail(race);
        });
  }
  void explore(mc::Ctx &c) {
    solo.assign(cat_.size(), std::vector<std::string>(worlds.size()));
    const int bound = c.level >= 2 ? 3 : 2;
    for (std::size_t i = 0; i < cat_.size(); i++) {
      for (std::size_t j = i; j < cat_.size(); j++) operations(c, {{i, 0}, {j, 0}}, bound);
      operations(c, {{i, 0}, {i, 1}}, bound);
      if (c.level >= 2)
        for (std::size_t j = 0; j < cat_.size(); j++)
          if (j != i) operations(c, {{i, 0}, {j, 1}}, bound);
      operations(c, {{i, 0}, {i, 0}, {i, 1}}, 1);
      operations(c, {{i, 0}, {(i + 1) % cat_.size(), 0}, {(i + 7) % cat_.size(), 0}}, 1);
    }
  }
};
template <std::size_t PD, class T>
const ct::World<PD, T> *Runner<PD, T>::w[sched::kThreads];
template <std::size_t PD, class T>
const ct::Entry<PD, T> *Runner<PD, T>::e[sched::kThreads];
template <std::size_t PD, class T>
ct::Out Runner<PD, T>::out[sched::kThreads];
}  // namespace

void explore(mc::Ctx &c) {
  bezman::utils::Logger::SetOutputLevel(0);
  shm = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sched::prepare();
#if PART == 1
  Runner<1, double> r;
  r.tag = "1D";
  r.worlds.emplace_back(ct::Deg<1>{2}, ct::Deg<1>{3}, 1u);
  r.worlds.emplace_back(ct::Deg<1>{3}, ct::Deg<1>{1}, 40u);
  r.explore(c);
#elif PART == 2
  Runner<2, double> r;
  r.tag = "2D";
  r.worlds.emplace_back(ct::Deg<2>{1, 2}, ct::Deg<2>{2, 1}, 1u);
  r.worlds.emplace_back(ct::Deg<2>{2, 0}, ct::Deg<2>{1, 1}, 40u);
  r.explore(c);
#elif PART == 3
  Runner<1, float> r;
  r.tag = "1D float";
  r.worlds.emplace_back(ct::Deg<1>{1}, ct::Deg<1>{2}, 1u);
  r.worlds.emplace_back(ct::Deg<1>{2}, ct::Deg<1>{0}, 40u);
  r.explore(c);
#else
  Runner<3, double> r;
  r.tag = "3D";
  r.worlds.emplace_back(ct::Deg<3>{1, 0, 1}, ct::Deg<3>{0, 1, 1}, 1u);
  r.worlds.emplace_back(ct::Deg<3>{1, 1, 0}, ct::Deg<3>{1, 0, 0}, 40u);
  r.explore(c);
#endif
}

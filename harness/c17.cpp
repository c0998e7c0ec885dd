// C17: every sequence of level changes and messages, every way the process can
// end (normal exit, uncaught error, death right after the last call, death in
// front of, in the middle of and behind every single write to a file), on the
// real file system inside a scratch directory, against a model of the sinks.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "bezman/src/utils/logger.hpp"
#include "mc/core.hpp"

using bezman::utils::Logger;
using mc::cat;
using OL = Logger::OutputLevel;

// ---- crash injection into the writes of the process -----------------------
static int crash_at = -1;   // number of the write that is not completed
static int crash_mode = 0;  // 0 nothing of it, 1 half of it, 2 all of it
static int n_writes = 0;
extern "C" ssize_t writev(int fd, const struct iovec *v, int n);
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  if (fd != 2) {
    if (n_writes++ == crash_at) {
      if (crash_mode) (void)!syscall(SYS_write, fd, p, crash_mode == 2 ? n : n / 2);
      _exit(99);
    }
  }
  return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n) {
  std::string all;
  for (int i = 0; i < n; i++) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  return write(fd, all.data(), all.size());
}

// ---- operations -------------------------------------------------------------
enum Kind { kUser, kLog, kVerbose, kWarn, kError, kTerm, kTermLogic, kLevel, kList, kListRev };
struct Op {
  Kind k;
  unsigned level = 0;  // kLevel, kList
  int text = 0;        // payload
};
static std::string payload(int t) {
  switch (t) {
    case 0: return "plain text";
    case 1: return "";
    case 2: return "100% %s %n {} \\n \" ' \t end";
    case 3: return "two\nlines\n";
    case 4: return std::string("zero\0byte", 9);
    case 5: return std::string(9000, 'x');  // larger than the stream buffers
    case 6: return std::string(40, ' ') + "\033[31mred\033[0m \xc3\xbc \xff";
    default: return std::string(70000, 'y');
  }
}
// neighbours share their number, so that equal messages follow each other
static std::string text_of(std::size_t i, const Op &o) { return cat("<", i / 2, ":") + payload(o.text) + ">"; }
static const char *kname[] = {"user", "log", "verbose", "warn", "error", "term", "termlogic", "level", "list", "listrev"};
static std::string show(const std::vector<Op> &s) {
  std::string r;
  for (const auto &o : s) r += o.k >= kLevel ? cat(" ", kname[o.k], o.level) : cat(" ", kname[o.k], o.text ? cat("/", o.text) : std::string());
  return r;
}

static void set_list(unsigned lev, bool rev) {
  // the list form takes a braced list: one bit per option, with one of them
  // given twice
  const OL n = OL::nothing;
  OL b[9];
  for (int i = 0; i < 9; i++) b[i] = (lev >> i) & 1 ? static_cast<OL>(1u << i) : n;
  if (rev)
    Logger::SetOutputLevel({b[8], b[7], b[6], b[5], b[8], b[4], b[3], b[2], b[1], b[0], b[5], b[0]});
  else {
    // as short as possible
    std::vector<OL> o;
    for (int i = 0; i < 9; i++)
      if (b[i] != n) o.push_back(b[i]);
    if (o.empty()) Logger::SetOutputLevel(std::initializer_list<OL>{});
    else if (o.size() == 1) Logger::SetOutputLevel({o[0]});
    else if (o.size() == 2) Logger::SetOutputLevel({o[0], o[1]});
    else if (lev == 511) Logger::SetOutputLevel({OL::all});
    else Logger::SetOutputLevel({b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]});
  }
}
// returns 1 if the call did what its signature says
static bool run(std::size_t i, const Op &o, bool catch_it) {
  const std::string t = o.k < kLevel ? text_of(i, o) : std::string();
  switch (o.k) {
    case kUser: Logger::UserInfo(t); break;
    case kLog: Logger::Logging(t); break;
    case kVerbose: Logger::ExtendedInformation(t); break;
    case kWarn: Logger::Warning(t); break;
    case kError: Logger::Error(t); break;
    case kTerm:
      if (!catch_it) Logger::TerminatingError(t);
      try {
        Logger::TerminatingError(t);
      } catch (const std::runtime_error &e) {
        return std::string(e.what()) == std::string(t.c_str());
      } catch (...) {
      }
      return false;
    case kTermLogic:
      if (!catch_it) Logger::TerminatingError<std::logic_error>(t);
      try {
        Logger::TerminatingError<std::logic_error>(t);
      } catch (const std::logic_error &e) {
        return std::string(e.what()) == std::string(t.c_str());
      } catch (...) {
      }
      return false;
    case kLevel: Logger::SetOutputLevel(o.level); break;
    case kList: set_list(o.level, false); break;
    case kListRev: set_list(o.level, true); break;
  }
  return true;
}

// ---- model ------------------------------------------------------------------
#ifdef ENABLE_LOGGING
static const bool kOn = true;
#else
static const bool kOn = false;
#endif
static const char *sink_name[4] = {"console", "log_file.log", "warning_file.log", "error_file.log"};
struct Line {
  std::string text;
  bool stamp;
};
struct Model {
  std::vector<Line> sink[4];
  std::size_t safe[4] = {0, 0, 0, 0};  // lines that have to survive
  bool selected[4] = {false, false, false, false};  // the file may exist
  unsigned level = 39;
  void apply(std::size_t i, const Op &o) {
    const auto on = [&](OL b) { return (level & static_cast<unsigned>(b)) != 0; };
    const bool st = on(OL::time_stamp);
    const auto add = [&](int s) { sink[s].push_back({text_of(i, o), st}); };
    switch (o.k) {
      case kUser:
        if (kOn && on(OL::userinfo)) add(0);
        if (kOn && on(OL::log_file)) add(1);
        break;
      case kLog:
        if (kOn && on(OL::logging)) add(0);
        if (kOn && on(OL::log_file)) add(1);
        break;
      case kVerbose:
        if (kOn && on(OL::logging_verbose)) add(0);
        if (kOn && on(OL::log_file)) add(1);
        break;
      case kWarn:
        if (kOn && on(OL::warnings)) add(0);
        if (kOn && on(OL::warning_file)) add(2);
        break;
      case kError:
      case kTerm:
      case kTermLogic:
        if ((kOn || o.k != kError) && on(OL::errors)) add(0);
        if (kOn && on(OL::error_file)) add(3);
        if (o.k != kError)
          for (int s = 1; s < 4; s++) safe[s] = sink[s].size();
        break;
      default: level = o.level;
    }
    selected[1] |= kOn && on(OL::log_file), selected[2] |= kOn && on(OL::warning_file), selected[3] |= kOn && on(OL::error_file);
  }
};

static bool slurp(const std::string &p, std::string &s) {
  s.clear();
  const int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<std::size_t>(n));
  close(fd);
  return true;
}
static bool has_stamp(const std::string &s) {  // hh:mm:ss somewhere
  for (std::size_t i = 0; i + 8 <= s.size(); i++) {
    bool ok = true;
    for (int k = 0; k < 8 && ok; k++) ok = k == 2 || k == 5 ? s[i + k] == ':' : s[i + k] >= '0' && s[i + k] <= '9';
    if (ok) return true;
  }
  return false;
}
// The content has to be the lines in order, each with its text once, preceded
// by a short label. A content that may be torn is a prefix of that; at least
// `least` lines have to be complete.
static std::string judge(const std::string &c, const std::vector<Line> &l, std::size_t least, bool torn) {
  std::size_t pos = 0, i = 0;
  for (; i < l.size(); i++) {
    const std::size_t at = c.find(l[i].text, pos);
    if (at == std::string::npos) break;
    const std::string label = c.substr(pos, at - pos);
    if (label.size() > 120 || label.find('<') != std::string::npos) return cat("message ", i, " is preceded by something else");
    if (has_stamp(label) != l[i].stamp) return cat("message ", i, l[i].stamp ? " lacks a time stamp" : " has a time stamp");
    pos = at + l[i].text.size();
    // rest of the line
    const std::size_t nl = c.find('\n', pos);
    if (nl == std::string::npos) {
      if (!torn) return cat("message ", i, " is not a line");
      if (c.size() - pos > 8) return cat("message ", i, " is followed by something else");
      pos = c.size();
      if (i < least) return cat("message ", i, " of ", least, " is not complete");
    } else {
      if (nl - pos > 8) return cat("message ", i, " is followed by something else");
      pos = nl + 1;
    }
  }
  if (i < l.size()) {
    if (!torn || i < least) return cat("message ", i, " of ", l.size(), " is missing");
    // torn: a part of the next line only
    const std::string rest = c.substr(pos);
    const std::size_t a = rest.find('<');
    if (a == std::string::npos) return rest.size() > 120 ? cat("something behind message ", i) : std::string();
    if (a > 120 || l[i].text.compare(0, rest.size() - a, rest, a, std::string::npos) != 0) return cat("something else behind message ", i);
    return "";
  }
  if (pos != c.size()) return cat(c.size() - pos, " more bytes behind the last message");
  return "";
}

enum End { kExit, kDie, kUncaught, kThrowOut };
struct Outcome {
  bool ok = true;
  bool throwing = false;  // left by the error
  int writes = 0;
  std::size_t done = 0;  // calls that returned
  std::string why;
};
static std::string dir;
static void clean() {
  for (int s = 1; s < 4; s++) unlink((dir + "/" + sink_name[s]).c_str());
  unlink((dir + "/console").c_str());
}
// the end of the process: 0 exit, 1 _exit, 2 uncaught (the last call is the
// terminating error), 3 SIGKILL
[[noreturn]] static void child(const std::vector<Op> &s, int end, int at, int mode, int pipe_fd) noexcept;
static Outcome play(mc::Ctx &c, const std::vector<Op> &s, int end, int at, int mode) {
  Outcome r;
  int pp[2];
  if (pipe(pp)) return r;
  const pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    child(s, end, at, mode, pp[1]);
  }
  close(pp[1]);
  char res = '?';
  for (char b; read(pp[0], &b, 1) == 1;) {
    if (b == '.')
      r.done++;
    else
      res = b;
  }
  close(pp[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (res == 'n') r.ok = false, r.why = "a terminating error did not arrive with its type and text";
  const bool killed = at >= 0 && WIFEXITED(st) && WEXITSTATUS(st) == 99;
  if (at < 0) {
    if (end <= 1 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) r.ok = false, r.why = cat("the process ended with status ", st);
    if (end == 2 && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)) r.ok = false, r.why = cat("the uncaught error ended with status ", st);
    if (end <= 2 && res != 'y' && end != 2) r.ok = false, r.why = "the process did not get to its end";
  }
  r.throwing = at < 0 && end == 2;
  r.writes = killed ? 1 : 0;
  c.transitions += s.size();
  return r;
}

// an exception that leaves this function ends the process as it does when
// main does not catch it
[[noreturn]] static void child(const std::vector<Op> &s, int end, int at, int mode, int pipe_fd) noexcept {
  alarm(30);
  if (chdir(dir.c_str())) _exit(98);
  const int fd = open("console", O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 1);
  close(fd);
  const int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 2);
  n_writes = 0, crash_at = at, crash_mode = mode;
  bool ok = true;
  for (std::size_t i = 0; i < s.size(); i++) {
    ok &= run(i, s[i], !(end == 2 && i + 1 == s.size()));
    (void)!syscall(SYS_write, pipe_fd, ".", 1);  // the call has returned
  }
  (void)!syscall(SYS_write, pipe_fd, ok ? "y" : "n", 1);
  if (end == 1) _exit(0);
  if (end == 3) raise(SIGKILL);
  exit(0);
}

static void check_files(mc::Ctx &c, const std::vector<Op> &s, Outcome o, bool torn, const std::string &what) {
  Model m;
  std::size_t safe[4] = {0, 0, 0, 0};
  for (std::size_t i = 0; i < s.size(); i++) {
    m.apply(i, s[i]);
    if (i < o.done) std::copy(m.safe, m.safe + 4, safe);
  }
  if (o.throwing) std::copy(m.safe, m.safe + 4, safe);
  if (!o.ok) {
    c.fail(what + ": " + o.why);
    return;
  }
  for (int k = 0; k < 4; k++) {
    std::string t;
    const bool exists = slurp(dir + "/" + (k ? sink_name[k] : "console"), t);
    if (k && exists && !m.selected[k]) {
      c.fail(cat(what, ": ", sink_name[k], " exists though it was never selected"));
      return;
    }
    const std::size_t least = !torn ? m.sink[k].size() : k == 0 ? 0 : safe[k];
    const std::string e = judge(t, m.sink[k], least, torn);
    if (!e.empty()) {
      c.fail(cat(what, ": ", sink_name[k], ": ", e));
      return;
    }
    c.state(mc::hcomb(mc::hstr(t.size() < 3000 ? t : cat(t.size())), static_cast<uint64_t>(k) + 10 * m.level));
  }
}

static void sequence(mc::Ctx &c, const std::vector<Op> &s, bool torn) {
  c.scenario([&] { return cat("seq", show(s)); }, [&] {
    clean();
    check_files(c, s, play(c, s, 0, -1, 0), false, "normal end");
    clean();
    check_files(c, s, play(c, s, 1, -1, 0), true, "death after the last call");
    if (!s.empty() && (s.back().k == kTerm || s.back().k == kTermLogic)) {
      clean();
      check_files(c, s, play(c, s, 2, -1, 0), true, "uncaught terminating error");
      clean();
      check_files(c, s, play(c, s, 3, -1, 0), true, "killed after the terminating error");
    }
    if (torn)
      for (int mode = 0; mode < 3; mode++)
        for (int at = 0; at < 100; at++) {
          clean();
          const Outcome o = play(c, s, 0, at, mode);
          check_files(c, s, o, true, cat("death in write ", at, " mode ", mode));
          if (!o.writes) break;
          c.counter("crash points inside writes");
        }
    clean();
  });
}

void explore(mc::Ctx &c) {
  dir = c.scratch;
  if (dir.empty()) {
    char t[] = "/tmp/c17.XXXXXX";
    dir = mkdtemp(t);
  }
  // every level, every kind, each form of setting it
  for (unsigned l = 0; l < 512; l++)
    for (int form = kLevel; form <= kListRev; form++)
      for (int order = 0; order < (c.level >= 1 ? 2 : 1); order++) {
        std::vector<Op> s{{static_cast<Kind>(form), l}};
        const Kind a[6] = {kUser, kWarn, kLog, kError, kVerbose, kTerm};
        for (int i = 0; i < 6; i++) s.push_back({a[order ? 5 - i : i]});
        sequence(c, s, false);
      }
  // the level at the start, all kinds and texts
  for (int k = 0; k <= kTermLogic; k++)
    for (int t = 0; t < 8; t++)
      for (unsigned l : {39u, 511u, 479u, 448u, 1u << 8, 0u}) {
        std::vector<Op> s;
        if (l != 39) s.push_back({kLevel, l});
        s.push_back({static_cast<Kind>(k), 0, t});
        sequence(c, s, true);
        for (int k2 = 0; k2 <= kTermLogic; k2++) {
          s.push_back({static_cast<Kind>(k2), 0, (t + 3) % 8});
          sequence(c, s, c.level >= 2);
          s.pop_back();
        }
      }
  // all changes of the selected files between messages
  for (unsigned f1 = 0; f1 < 8; f1++)
    for (unsigned f2 = 0; f2 < 8; f2++)
      for (unsigned f3 = 0; f3 < 8; f3++)
        for (Kind t : {kTerm, kError}) {
          std::vector<Op> s;
          const auto some = [&](unsigned f) {
            s.push_back({kLevel, f << 6});
            s.push_back({kUser}), s.push_back({kWarn}), s.push_back({kError});
          };
          some(f1), s.push_back({t}), some(f2), s.push_back({kTerm}), s.push_back({kLevel, f3 << 6}), s.push_back({kLog});
          sequence(c, s, false);
        }
  // all sequences
  std::vector<Op> alpha{{kUser}, {kLog, 0, 5}, {kVerbose}, {kWarn}, {kError}, {kTerm}, {kTermLogic, 0, 5},
                        {kLevel, 511}, {kLevel, 0}, {kLevel, 39}, {kLevel, 256}, {kLevel, 128}, {kLevel, 64}, {kList, 511 - 32}, {kLevel, 511 - 448}};
  const int depth = kOn ? (c.level >= 2 ? 5 : 4) : (c.level >= 2 ? 4 : 3);
  std::vector<Op> s;
  const auto rec = [&](auto &self) -> void {
    sequence(c, s, static_cast<int>(s.size()) <= depth - 2);
    if (static_cast<int>(s.size()) == depth) return;
    for (const auto &o : alpha) {
      s.push_back(o);
      self(self);
      s.pop_back();
    }
  };
  rec(rec);
  // long sequences: every pair of operations over and over
  for (const auto &a : alpha)
    for (const auto &b : alpha) {
      std::vector<Op> l{{kLevel, 511}};
      for (int i = 0; i < (c.level >= 2 ? 300 : 40); i++) l.push_back(a), l.push_back(b);
      sequence(c, l, false);
    }
}

// C27: the log.  Every history of settings and messages is replayed on a model
// of what each sink (standard error, log files) has to contain.
#include "engine/env.hpp"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace env;

static const char *LEVEL[] = LEVEL_NAMES;
static std::mutex g_mtx;
static long g_held, g_locks, g_bad_lock;
static std::string g_watch; // the file whose size is taken at every call below
static long g_at_lock, g_at_unlock;
static int g_meanwhile; // what another thread does while this one waits for the lock
static long file_size(const std::string &p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 ? (long)st.st_size : 0;
}
static void lock_fn(bool on) {
  if (!g_watch.empty())
    (on ? g_at_lock : g_at_unlock) = file_size(g_watch);
  if (on) {
    g_mtx.lock();
    g_locks++;
    if (g_meanwhile & 1)
      log_set_quiet(true);
    if (g_meanwhile & 2)
      log_set_level(4);
    if (g_held++ != 0)
      g_bad_lock++;
  } else {
    if (--g_held != 0)
      g_bad_lock++;
    g_mtx.unlock();
  }
  errno = on ? EAGAIN : 0; // as a lock that has to wait may leave it
}
// standard error goes to a file, and the log settings are restored
struct Capture {
  std::string path;
  int saved;
  Capture() : path(pbt::scratch() + "/stderr.log") {
    fflush(stderr);
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    saved = dup(2);
    dup2(fd, 2);
    close(fd);
  }
  void back() {
    if (saved < 0)
      return;
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
    saved = -1;
  }
  ~Capture() {
    back();
    unlink(path.c_str());
  }
};
struct Reset {
  ~Reset() {
    g_watch.clear();
    log_close_file();
    log_set_level(0);
    log_set_color(true);
    log_set_meta(true);
    log_set_lock(nullptr);
    log_set_quiet(getenv("VERIF_LOG") == nullptr);
    setenv("TZ", "UTC0", 1);
    tzset();
  }
};
struct Msg {
  int level;
  int err; // errno, 0 for none
  std::string file, text;
  uint32_t line;
  std::string when; // local time, to the second
  int usec = 0;
  bool meta;
  int color; // -1: either
};
static bool eat(const std::string &t, size_t &p, const std::string &x) {
  if (t.compare(p, x.size(), x) != 0)
    return false;
  p += x.size();
  return true;
}
// blanks and, where colours are allowed, escape sequences; counts these
static void skip(const std::string &t, size_t &p, int color, int &esc) {
  for (;;) {
    if (p < t.size() && t[p] == ' ') {
      p++;
    } else if (color != 0 && p + 1 < t.size() && t[p] == '\x1b' && t[p + 1] == '[') {
      size_t q = t.find('m', p);
      if (q == std::string::npos)
        return;
      p = q + 1;
      esc++;
    } else {
      return;
    }
  }
}
// reads one record at p; empty string when it is the one expected
static std::string record(const std::string &t, size_t &p, const Msg &m) {
  int esc = 0;
  if (m.meta) {
    skip(t, p, 0, esc);
    if (!eat(t, p, m.when))
      return "time";
    if (p < t.size() && (t[p] == '.' || t[p] == ',')) {
      size_t q = p + 1;
      while (q < t.size() && isdigit((unsigned char)t[q]))
        q++;
      // a decimal fraction, however precise, never rounded up
      std::string want = pbt::fmt("%06d", m.usec), got = t.substr(p + 1, q - p - 1);
      if (got.empty() || got.compare(0, 6, want, 0, std::min<size_t>(6, got.size())) != 0)
        return "fraction of the second";
      p = q;
    }
    skip(t, p, m.color, esc);
    if (!eat(t, p, LEVEL[m.level]))
      return "level";
    skip(t, p, m.color, esc);
    if (m.err) { // [text(number)], possibly cut short
      std::string e = pbt::fmt("[%s(%d)]", strerror(m.err), m.err);
      size_t n = 0;
      while (n < e.size() && p + n < t.size() && t[p + n] == e[n])
        n++;
      if (n < 10 && n < e.size())
        return "error text";
      p += n;
      skip(t, p, m.color, esc);
    }
    if (!eat(t, p, m.file))
      return "file";
    if (!eat(t, p, pbt::fmt(":%u:", m.line)))
      return "line";
    skip(t, p, m.color, esc);
    if (m.color == 1 && !esc)
      return "colour";
  }
  if (m.err) {
    if (!eat(t, p, pbt::fmt("[%s]", strerror(m.err))))
      return "system error";
    skip(t, p, m.color, esc);
  }
  if (m.color == 0 && esc)
    return "colour";
  if (!eat(t, p, m.text))
    return "text";
  if (!eat(t, p, "\n"))
    return "line end";
  return "";
}
static std::string gen_text(Src &s, bool one_line) {
  size_t n = s.length(60, 20000);
  std::string t = s.str("abcXYZ019 %sdn\\\"'[]()-_;:.\t\xc3\xa9\x1b\x01\x7f\xff" + std::string(one_line ? "" : "\n\r"), n);
  // the text must not begin like the blanks and escapes skipped before it
  if (!t.empty() && (t[0] == ' ' || t[0] == '\x1b' || t[0] == '\\'))
    t[0] = 'T';
  return t;
}
static void send(const Msg &m, int how, const std::string &head, const std::string &tail) {
  const char *f = m.file.c_str();
  uint8_t l = (uint8_t)m.level;
  if (m.err) {
    errno = m.err;
    how == 0 ? log_errno_error(l, f, m.line, "%s", m.text.c_str())
             : log_errno_error(l, f, m.line, "%s%.*s", head.c_str(), (int)tail.size(), tail.c_str());
  } else {
    how == 0 ? log_levels(l, f, m.line, "%s", m.text.c_str())
             : log_levels(l, f, m.line, "%s%.*s", head.c_str(), (int)tail.size(), tail.c_str());
  }
}
static const std::vector<std::string> ZONES = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XYZ-14", "ABC+11:30"};
static std::string local(int64_t now) {
  time_t t = (time_t)now;
  struct tm tm;
  localtime_r(&t, &tm);
  return pbt::fmt("%04d-%02d-%02d %02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
}
static std::string slurp(const std::string &p) {
  Bytes b;
  if (!read_file(p, b))
    return "<missing>";
  return S(b);
}
static Msg gen_msg(Src &s, bool one_line) {
  Msg m;
  m.level = s.range(0, 4);
  static const std::vector<int> ERRS = {ENOENT, EACCES, EINVAL, ENOMEM, EILSEQ, ENOSPC, ELIBEXEC, ESTALE, 1000};
  m.err = s.chance(30) ? (s.chance(20) ? (int)(1 + s.below(133)) : s.pick(ERRS)) : 0;
  m.file = s.pick<std::string>({"a.c", "voucher.c", "a%sb.cpp", "x"}) + (s.chance(5) ? s.str("abc/._", 300) : "");
  m.line = s.chance(10) ? (uint32_t)s.below(0x7fffffff) : (uint32_t)s.below(3000);
  m.text = gen_text(s, one_line);
  return m;
}
static int gen_usec(Src &s) { return s.flip() ? (int)s.below(1000000) : s.pick(std::vector<int>{0, 999, 1000, 9999, 10000, 99999, 100000, 999000, 999999}); }
PROPERTY(C27, history, 80) {
  Reset reset;
  Capture cap;
  std::string zone = s.pick(ZONES);
  setenv("TZ", zone.c_str(), 1);
  tzset();
  int64_t now = (int64_t)s.below(4102444800ull);
  int usec = gen_usec(s);
  pbt::clock_set(now, usec);
  log_set_quiet(false);
  log_set_level(0);
  log_set_color(true);
  log_set_meta(true);
  bool quiet = false, meta = true, locked = false;
  int level = 0, color = 1, to = -1; // -1: standard error
  struct Sink {
    std::string path, start;
    std::vector<Msg> in;
    bool fresh = true;
  };
  std::vector<Sink> sinks; // the files; the last is standard error
  Sink err;
  err.path = cap.path;
  int nf = 1 + (int)s.below(3);
  struct Gone {
    std::vector<Sink> &v;
    ~Gone() {
      for (auto &k : v)
        unlink(k.path.c_str());
    }
  } gone{sinks};
  for (int i = 0; i < nf; i++) {
    Sink k;
    k.path = pbt::scratch() + pbt::fmt("/log%d", i);
    unlink(k.path.c_str());
    if (s.chance(50)) {
      k.start = s.str("old line\n", s.below(60));
      write_file(k.path, k.start);
      k.fresh = false;
    }
    sinks.push_back(k);
  }
  int n = 1 + (int)s.size(s.chance(5) ? 200 : 30), sent = 0, dropped = 0, opened = 0;
  g_held = g_locks = g_bad_lock = g_meanwhile = 0;
  std::string how;
  for (int i = 0; i < n; i++) {
    switch (s.weighted({60, 8, 6, 6, 6, 8, 5, 4})) {
    case 0: {
      Msg m = gen_msg(s, false);
      size_t cut = s.below(m.text.size() + 1);
      int kind = s.chance(30);
      m.when = local(pbt::clock_get());
      m.usec = usec;
      m.meta = meta;
      m.color = color;
      bool out = !quiet && m.level >= level;
      if (out)
        (to < 0 ? err : sinks[(size_t)to]).in.push_back(m), sent++;
      else
        dropped++;
      long before = g_locks;
      Sink &dest = to < 0 ? err : sinks[(size_t)to];
      g_watch = locked ? dest.path : "";
      long size0 = file_size(dest.path);
      g_at_lock = g_at_unlock = size0;
      int e0 = m.err ? m.err : 7;
      errno = e0;
      g_meanwhile = locked && s.chance(8) ? 1 + (int)s.below(3) : 0;
      send(m, kind, m.text.substr(0, cut), m.text.substr(cut));
      int e1 = errno;
      if (g_meanwhile) {
        g_meanwhile = 0;
        log_set_quiet(quiet), log_set_level((uint8_t)level);
        if (out && file_size(dest.path) == size0)
          dest.in.pop_back(), sent--; // it may or may not count
        if (g_held) {
          cap.back();
          c.fail("lock-kept", "the lock was not released");
        }
      }
      if (m.err && e1 != e0) {
        cap.back();
        c.fail("errno-lost", "errno %d became %d", e0, e1);
      }
      if (locked && out && g_locks == before) {
        cap.back();
        c.fail("no-lock", "a message was written without taking the lock");
      }
      g_watch.clear();
      if (locked && (g_at_lock != size0 || g_at_unlock != file_size(dest.path))) {
        cap.back();
        c.fail("outside-lock", "part of a record was written without the lock");
      }
      how += pbt::fmt("m%d%s ", m.level, m.err ? "e" : "");
      break;
    }
    case 1: level = s.range(0, 4), log_set_level((uint8_t)level), how += pbt::fmt("level%d ", level); break;
    case 2: quiet = s.chance(35), log_set_quiet(quiet), how += quiet ? "quiet " : "loud "; break;
    case 3: meta = s.chance(65), log_set_meta(meta), how += meta ? "meta " : "plain "; break;
    case 4: {
      bool b = s.flip();
      color = b, log_set_color(b), how += b ? "colour " : "grey ";
      break;
    }
    case 5: {
      if (to >= 0) {
        log_close_file();
        to = -1;
        how += "close ";
      }
      if (s.chance(15)) { // cannot be opened
        std::string p = pbt::scratch() + "/no/such/log";
        int rc = log_open_file(&p[0]);
        if (rc == 0) {
          cap.back();
          c.fail("opened-missing", "a log file in a missing directory was opened");
        }
        color = -1;
        how += "openfail ";
        break;
      }
      int k = (int)s.below(sinks.size());
      mode_t um = umask(022);
      std::string p = sinks[(size_t)k].path;
      int rc = log_open_file(&p[0]);
      mode_t after = umask(um);
      struct stat st;
      bool there = stat(p.c_str(), &st) == 0;
      std::string bad;
      if (rc != 0)
        bad = "refused";
      else if (!there)
        bad = "not created";
      else if (sinks[(size_t)k].fresh && (st.st_mode & 077))
        bad = pbt::fmt("created with mode %o", (unsigned)(st.st_mode & 0777));
      else if (after != 022)
        bad = pbt::fmt("umask %o left behind", (unsigned)after);
      if (!bad.empty()) {
        cap.back();
        c.fail("open-file", "%s", bad.c_str());
      }
      sinks[(size_t)k].fresh = false;
      to = k;
      color = 0;
      opened++;
      how += pbt::fmt("open%d ", k);
      break;
    }
    case 6: log_close_file(), to = -1, how += "close "; break;
    case 7:
      if (s.flip()) {
        locked = !locked;
        log_set_lock(locked ? lock_fn : nullptr);
        how += locked ? "lock " : "nolock ";
      } else {
        now += (int64_t)s.below(100000);
        pbt::clock_set(now, usec = gen_usec(s));
      }
      break;
    }
    // whatever was logged is there at once
    if (s.chance(25)) {
      Sink &k = to < 0 ? err : sinks[(size_t)to];
      std::string t = slurp(k.path);
      if (!k.in.empty() && (t.empty() || t.back() != '\n')) {
        cap.back();
        c.fail("not-flushed", "the last record is not complete right after the call");
      }
    }
  }
  log_close_file();
  cap.back();
  c.note("TZ %s %d steps: %s", zone.c_str(), n, how.substr(0, 300).c_str());
  c.nontrivial(sent > 0 && (dropped > 0 || opened > 0 || sent > 2));
  if (opened)
    c.label("file");
  if (dropped)
    c.label("filtered");
  REQUIRE(g_held == 0 && g_bad_lock == 0, "lock-unbalanced", "the lock was taken and released unevenly (%ld held)", g_held);
  sinks.push_back(err);
  for (auto &k : sinks) {
    bool is_err = k.path == err.path;
    if (k.fresh && !is_err) {
      struct stat st;
      REQUIRE(stat(k.path.c_str(), &st) != 0, "stray-file", "a log file appeared unasked");
      continue;
    }
    std::string t = slurp(k.path);
    size_t p = 0;
    REQUIRE(eat(t, p, k.start), "old-lines-lost", "the previous content of a log file is gone");
    for (size_t i = 0; i < k.in.size(); i++) {
      size_t at = p;
      std::string bad = record(t, p, k.in[i]);
      REQUIRE(bad.empty(), "record", "record %zu of %zu in %s, \"%s\", expected %s \"%s\" at %s: wrong %s", i, k.in.size(),
              is_err ? "standard error" : "the file", pbt::quote(t.substr(at, 160)).c_str(), LEVEL[k.in[i].level],
              pbt::quote(k.in[i].text, 60).c_str(), k.in[i].when.c_str(), bad.c_str());
    }
    REQUIRE(p == t.size(), "extra", "%zu further bytes in %s: %s", t.size() - p, is_err ? "standard error" : "the file",
            pbt::quote(t.substr(p), 100).c_str());
  }
}
struct Th {
  std::vector<Msg> *m;
  pthread_barrier_t *bar;
};
static void *log_thread(void *p) {
  Th *t = (Th *)p;
  pthread_barrier_wait(t->bar);
  for (auto &m : *t->m)
    send(m, 0, "", "");
  return nullptr;
}
PROPERTY(C27, threads, 20) {
  Reset reset;
  int64_t now = (int64_t)s.below(4102444800ull);
  pbt::clock_set(now);
  int n = 2 + (int)s.below(7);
  bool file = s.flip();
  std::vector<std::vector<Msg>> ms((size_t)n);
  size_t total = 0;
  int level = s.range(0, 2);
  for (int i = 0; i < n; i++)
    for (int k = 1 + (int)s.below(20); k > 0; k--) {
      Msg m = gen_msg(s, true);
      m.text = pbt::fmt("<%d.%d>", i, k) + m.text;
      m.meta = true;
      m.color = 0;
      ms[(size_t)i].push_back(m);
      if (m.level >= level)
        total++;
    }
  std::string path = pbt::scratch() + "/logt";
  unlink(path.c_str());
  std::string t;
  long held, bad;
  {
    Capture cap;
    log_set_quiet(false);
    log_set_level((uint8_t)level);
    log_set_meta(true);
    if (file)
      log_open_file(&path[0]);
    log_set_color(false);
    g_held = g_locks = g_bad_lock = g_meanwhile = 0;
    log_set_lock(lock_fn);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, (unsigned)n);
    std::vector<pthread_t> th((size_t)n);
    std::vector<Th> a((size_t)n);
    for (int i = 0; i < n; i++) {
      a[(size_t)i] = {&ms[(size_t)i], &bar};
      pthread_create(&th[(size_t)i], nullptr, log_thread, &a[(size_t)i]);
    }
    for (auto &x : th)
      pthread_join(x, nullptr);
    pthread_barrier_destroy(&bar);
    held = g_held, bad = g_bad_lock;
    log_close_file();
    cap.back();
    t = slurp(file ? path : cap.path);
  }
  unlink(path.c_str());
  c.note("%d threads, %zu messages to %s", n, total, file ? "a file" : "standard error");
  c.nontrivial(total > 1);
  c.label("threads" + std::to_string(n));
  REQUIRE(held == 0 && bad == 0, "lock-unbalanced", "the lock was taken and released unevenly");
  std::vector<size_t> at((size_t)n, 0);
  size_t p = 0, seen = 0;
  std::string when = local(now);
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    REQUIRE(e != std::string::npos, "torn", "the log ends within a record");
    std::string l = t.substr(p, e - p + 1);
    size_t q = l.find('<');
    int i = -1, k = -1;
    if (q != std::string::npos)
      sscanf(l.c_str() + q, "<%d.%d>", &i, &k);
    REQUIRE(i >= 0 && i < n, "torn", "not a record: %s", pbt::quote(l, 100).c_str());
    auto &v = ms[(size_t)i];
    size_t &a = at[(size_t)i];
    while (a < v.size() && v[a].level < level)
      a++;
    REQUIRE(a < v.size(), "extra", "more records than messages: %s", pbt::quote(l, 100).c_str());
    v[a].when = when;
    size_t z = 0;
    std::string bad = record(l, z, v[a]);
    REQUIRE(bad.empty() && z == l.size(), "torn", "thread %d message %zu is %s: wrong %s", i, a, pbt::quote(l, 160).c_str(), bad.c_str());
    a++, seen++;
    p = e + 1;
  }
  REQUIRE(seen == total, "lost", "%zu of %zu messages in the log", seen, total);
}
// the variants that end the process: their record is there, whole, and the
// process has failed
static int g_mark = -1;
static void at_exit(int status, void *) {
  if (write(g_mark, "x", 1) != 1)
    status = 99;
  _exit(status);
}
PROPERTY(C27, fatal, 2) {
  Reset reset;
  pbt::clock_set((int64_t)s.below(4102444800ull), 0);
  Msg m = gen_msg(s, false);
  if (!m.err)
    m.err = ENOENT;
  m.when = local(pbt::clock_get());
  m.meta = s.chance(80);
  bool quiet = s.chance(20), file = s.flip(), locked = s.flip(), proc = s.flip();
  m.color = file ? 0 : (int)s.flip();
  int level = (int)s.below((uint64_t)m.level + 1);
  std::string path = pbt::scratch() + "/logf", mark = pbt::scratch() + "/mark";
  unlink(path.c_str());
  unlink(mark.c_str());
  int st = 0;
  std::string t;
  {
    Capture cap;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      unsetenv("EF_DUMPCORE");
      g_mark = open(mark.c_str(), O_WRONLY | O_CREAT, 0600);
      on_exit(at_exit, nullptr);
      log_set_quiet(quiet);
      log_set_level((uint8_t)level);
      log_set_meta(m.meta);
      g_held = g_locks = g_bad_lock = g_meanwhile = 0;
      log_set_lock(locked ? lock_fn : nullptr);
      if (file && log_open_file(&path[0]) != 0)
        _exit(98);
      log_set_color(m.color == 1);
      errno = m.err;
      (proc ? log_error_exit_proc : log_error_exit)((uint8_t)m.level, m.file.c_str(), m.line, "%s", m.text.c_str());
      _exit(97); // it came back
    }
    waitpid(pid, &st, 0);
    cap.back();
    t = slurp(file ? path : cap.path);
  }
  bool handlers = slurp(mark) == "x";
  unlink(path.c_str());
  unlink(mark.c_str());
  c.note("%s to %s%s", proc ? "log_error_exit_proc" : "log_error_exit", file ? "a file" : "standard error", quiet ? ", quiet" : "");
  c.nontrivial(!quiet);
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "fatal-status", "the process ended with status %x", st);
  REQUIRE(handlers == !proc, "fatal-handlers", "exit handlers %s", handlers ? "ran" : "did not run");
  size_t p = 0;
  if (!quiet) {
    std::string bad = record(t, p, m);
    REQUIRE(bad.empty(), "fatal-record", "%s: wrong %s", pbt::quote(t, 160).c_str(), bad.c_str());
  }
  REQUIRE(p == t.size(), "extra", "further bytes: %s", pbt::quote(t.substr(p), 100).c_str());
}

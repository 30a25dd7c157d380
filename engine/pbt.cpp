#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unordered_set>

#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

// ---------------------------------------------------------------- shared mem
static const size_t TAPE_MAX = 1 << 20;
struct Shared {
  volatile uint64_t progress; // index of the running case
  volatile uint64_t evals;
  volatile int prop_index;
  volatile int done;
  int64_t started_at; // wall seconds of the running case (monotonic)
  char tag[96];
  char msg[8192];
  char trace[16384];
  volatile uint64_t tape_len;
  uint64_t tape[TAPE_MAX];
};

static Shared *g_shared_tape = nullptr; // when set, Src mirrors its tape here

// ------------------------------------------------------------------- Src
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) {
  return (x << k) | (x >> (64 - k));
}
void Src::seed(uint64_t v) {
  for (int i = 0; i < 4; i++)
    s[i] = splitmix(v);
}
uint64_t Src::raw() {
  uint64_t r = rotl(s[1] * 5, 7) * 9;
  uint64_t t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return r;
}
uint64_t Src::below(uint64_t n) {
  uint64_t v;
  if (replay) {
    v = pos < tape.size() ? tape[pos] : 0;
    if (n && v >= n)
      v %= n;
    pos++;
    if (pos > tape.size())
      tape.push_back(0);
    tape[pos - 1] = v;
  } else {
    v = n ? raw() % n : raw();
    tape.push_back(v);
    pos++;
  }
  if (g_shared_tape && pos <= TAPE_MAX) {
    g_shared_tape->tape[pos - 1] = v;
    g_shared_tape->tape_len = pos;
  }
  return v;
}
size_t Src::size(size_t max) {
  if (max == 0)
    return 0;
  switch (below(6)) {
    case 0:
      return below(std::min<size_t>(max, 3) + 1);
    case 1:
    case 2:
      return below(std::min<size_t>(max, 16) + 1);
    case 3:
    case 4:
      return below(std::min<size_t>(max, 64) + 1);
    default:
      return below(max + 1);
  }
}
size_t Src::length(size_t typical, size_t big) {
  if (below(100) != 99)
    return size(typical);
  if (below(2))
    return below(big + 1);
  size_t p = 1;
  int k = (int)below(25);
  while (k-- > 0 && p * 2 <= big)
    p *= 2;
  size_t d = below(9); // p-4 .. p+4
  return std::min(big, p + d < 4 ? 0 : p + d - 4);
}
Bytes Src::bytes(size_t len) {
  Bytes b(len);
  if (len <= 64) {
    for (size_t i = 0; i < len; i++)
      b[i] = byte();
  } else { // long blobs: a seeded stream, one choice
    uint64_t x = below(0);
    size_t i = 0;
    while (i < len) {
      uint64_t v = splitmix(x);
      for (int k = 0; k < 8 && i < len; k++, i++)
        b[i] = (uint8_t)(v >> (8 * k));
    }
  }
  return b;
}
std::string Src::str(const std::string &alphabet, size_t len) {
  std::string r;
  if (len > 600) { // long texts: a seeded stream, one choice
    for (uint8_t b : bytes(len))
      r += alphabet[b % alphabet.size()];
    return r;
  }
  for (size_t i = 0; i < len; i++)
    r += alphabet[below(alphabet.size())];
  return r;
}
size_t Src::weighted(const std::vector<int> &w) {
  uint64_t t = 0;
  for (int x : w)
    t += (uint64_t)x;
  uint64_t v = below(t);
  for (size_t i = 0; i < w.size(); i++) {
    if (v < (uint64_t)w[i])
      return i;
    v -= (uint64_t)w[i];
  }
  return w.size() - 1;
}

// ------------------------------------------------------------------- Ctx
static std::string vfmt(const char *f, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap2);
  va_end(ap2);
  std::string r((size_t)n + 1, 0);
  vsnprintf(&r[0], r.size(), f, ap);
  r.resize((size_t)n);
  return r;
}
std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string r = vfmt(f, ap);
  va_end(ap);
  return r;
}
void Ctx::note(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string r = vfmt(f, ap);
  va_end(ap);
  if (trace.size() < 12000)
    trace += r + "\n";
  if (g_shared_tape) {
    strncpy(g_shared_tape->trace, trace.c_str(),
            sizeof(g_shared_tape->trace) - 1);
  }
}
void Ctx::fail(const char *tag, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string r = vfmt(f, ap);
  va_end(ap);
  throw Failure{tag, r};
}
std::string hex(const uint8_t *p, size_t n, size_t maxn) {
  std::string r;
  char b[3];
  for (size_t i = 0; i < n && i < maxn; i++) {
    snprintf(b, 3, "%02x", p[i]);
    r += b;
  }
  if (n > maxn)
    r += fmt("..(%zu bytes)", n);
  return r;
}
std::string quote(const std::string &s, size_t maxn) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < maxn; i++) {
    unsigned char ch = (unsigned char)s[i];
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch < 32 || ch > 126)
      r += fmt("\\x%02x", ch);
    else
      r += (char)ch;
  }
  r += "\"";
  if (s.size() > maxn)
    r += fmt("..(%zu chars)", s.size());
  return r;
}

// ------------------------------------------------------------- registration
static std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}
void add(const char *id, const char *name, int weight,
         void (*fn)(Src &, Ctx &)) {
  props().push_back(Prop{id, name, weight, fn});
}
static std::string g_prop_id;
const std::string &prop_id() { return g_prop_id; }
static void (*g_init)() = nullptr;
void set_global_init(void (*fn)()) { g_init = fn; }

static std::string g_scratch_root, g_scratch;
const std::string &scratch() { return g_scratch; }

static void rm_tree(const std::string &path) {
  // only ever called on directories this process tree created below
  // g_scratch_root (mkdtemp)
  if (g_scratch_root.empty() || path.compare(0, g_scratch_root.size(),
                                             g_scratch_root) != 0)
    return;
  DIR *d = opendir(path.c_str());
  if (d) {
    struct dirent *e;
    while ((e = readdir(d))) {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string p = path + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rm_tree(p);
      else
        unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(path.c_str());
}

static uint64_t fnv(const std::vector<uint64_t> &v, uint64_t h) {
  for (uint64_t x : v) {
    for (int i = 0; i < 8; i++) {
      h ^= (x >> (8 * i)) & 0xff;
      h *= 1099511628211ull;
    }
  }
  return h;
}

static int64_t mono_s() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec;
}
static double mono_d() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}

static const int CASE_CPU_S = 60;   // CPU seconds one case may burn
static const int CASE_WALL_S = 150; // wall seconds without progress
static const int RANGE_WALL_S = 60; // for a range of cases run again

static void arm_cpu_timer(int secs) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static void (*g_reset)() = nullptr;
void set_case_reset(void (*fn)()) { g_reset = fn; }
static void (*g_begin)(Src &) = nullptr;
void set_case_begin(void (*fn)(Src &)) { g_begin = fn; }
static void reset_case_state() {
  clock_set(1750000000);
  if (g_reset)
    g_reset();
}

// run one case in this process; returns false and fills f on failure
static bool run_one(const Prop &p, Src &s, Ctx &c, Failure &f) {
  reset_case_state();
  arm_cpu_timer(CASE_CPU_S);
  bool ok = true;
  try {
    if (g_begin)
      g_begin(s);
    p.fn(s, c);
  } catch (const Failure &e) {
    f = e;
    ok = false;
  } catch (const std::exception &e) {
    f.tag = "exception";
    f.msg = e.what();
    ok = false;
  }
  arm_cpu_timer(0);
  return ok;
}

const std::vector<Prop> &all() { return props(); }
bool run_body(const Prop &p, Src &s, Ctx &c, bool first) {
  Shared *keep = g_shared_tape;
  if (!first)
    g_shared_tape = nullptr;
  reset_case_state();
  bool ok = true;
  try {
    p.fn(s, c);
  } catch (const Failure &) {
    ok = false;
  } catch (const std::exception &) {
    ok = false;
  }
  g_shared_tape = keep;
  return ok;
}

static uint64_t case_seed(uint64_t seed, int shard, uint64_t idx,
                          const std::string &name) {
  uint64_t h = 1469598103934665603ull;
  for (char ch : name) {
    h ^= (unsigned char)ch;
    h *= 1099511628211ull;
  }
  uint64_t x = seed * 0x9e3779b97f4a7c15ull + (uint64_t)shard * 0x100000001b3ull;
  x ^= h;
  uint64_t a = splitmix(x);
  x ^= idx * 0xff51afd7ed558ccdull;
  return a ^ splitmix(x);
}

struct Sched {
  std::vector<int> order; // property indices, weighted round robin
};

static Sched make_sched(const std::vector<int> &sel) {
  Sched sc;
  // smooth weighted round robin
  std::vector<long> cur(sel.size(), 0);
  long total = 0;
  for (int i : sel)
    total += props()[(size_t)i].weight;
  if (!total) // named explicitly
    sc.order = sel;
  for (long k = 0; k < total; k++) {
    size_t best = 0;
    for (size_t j = 0; j < sel.size(); j++) {
      cur[j] += props()[(size_t)sel[j]].weight;
      if (cur[j] > cur[best])
        best = j;
    }
    cur[best] -= total;
    sc.order.push_back(sel[best]);
  }
  return sc;
}

static std::string read_file(const std::string &p, size_t maxn = 1 << 22) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f)
    return r;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0 && r.size() < maxn)
    r.append(buf, n);
  fclose(f);
  return r;
}

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch < 32 || ch > 126)
      r += fmt("\\u%04x", ch);
    else
      r += (char)ch;
  }
  return r;
}

static void silence(const std::string &errfile) {
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  int nul = open("/dev/null", O_WRONLY);
  if (nul >= 0) {
    dup2(nul, 1);
    close(nul);
  }
}

static void worker_enter(const std::string &name) {
  g_scratch = g_scratch_root + "/" + name;
  mkdir(g_scratch.c_str(), 0700);
  silence(g_scratch + ".err");
  signal(SIGPIPE, SIG_IGN);
}

struct ShardResult {
  uint64_t evals = 0, nontrivial = 0, discarded = 0, cases = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> per_prop;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> distinct;
};

static void save_result(const ShardResult &r, const std::string &path) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f)
    return;
  fprintf(f, "E %llu %llu %llu %llu\n", (unsigned long long)r.evals,
          (unsigned long long)r.nontrivial, (unsigned long long)r.discarded,
          (unsigned long long)r.cases);
  for (auto &kv : r.labels)
    fprintf(f, "L %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
  for (auto &kv : r.per_prop)
    fprintf(f, "P %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
  for (auto &s : r.samples)
    fprintf(f, "S %s\n", jesc(s).c_str());
  for (uint64_t d : r.distinct)
    fprintf(f, "D %llx\n", (unsigned long long)d);
  fclose(f);
}

static void load_result(const std::string &path, ShardResult &r) {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f)
    return;
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n')
      line[n - 1] = 0;
    if (line[0] == 'E') {
      unsigned long long a, b, d, e;
      if (sscanf(line + 2, "%llu %llu %llu %llu", &a, &b, &d, &e) == 4) {
        r.evals += a;
        r.nontrivial += b;
        r.discarded += d;
        r.cases += e;
      }
    } else if (line[0] == 'L' || line[0] == 'P') {
      char *end;
      unsigned long long v = strtoull(line + 2, &end, 10);
      (line[0] == 'L' ? r.labels : r.per_prop)[end + 1] += v;
    } else if (line[0] == 'S')
      r.samples.push_back(line + 2);
    else if (line[0] == 'D')
      r.distinct.insert(strtoull(line + 2, nullptr, 16));
  }
  free(line);
  fclose(f);
}

struct Opts {
  std::string prop, out, replay_out, replay_in, only;
  uint64_t seed = 1;
  int shards = 8;
  uint64_t cases = 1000; // per shard
  double max_s = 200;
  int shrink_s = 60;
  bool flaky = false; // schedules matter: a failure need not repeat each time
};
static const int FLAKY_TRIES = 25;

static Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (Shared *)p;
}

static void shard_main(const Opts &o, const Sched &sc, int shard, Shared *sh,
                       double deadline, const std::string &resfile) {
  ShardResult r;
  std::map<std::string, int> sample_count;
  for (uint64_t i = 0; i < o.cases; i++) {
    if (mono_d() > deadline)
      break;
    int pi = sc.order[i % sc.order.size()];
    const Prop &p = props()[(size_t)pi];
    sh->prop_index = pi;
    sh->started_at = mono_s();
    sh->progress = i;
    Src s;
    s.seed(case_seed(o.seed, shard, i, p.id + "/" + p.name));
    Ctx c;
    c.want_sample = sample_count[p.name] < 3;
    Failure f;
    bool ok = run_one(p, s, c, f);
    if (!ok) {
      strncpy(sh->tag, f.tag.c_str(), sizeof(sh->tag) - 1);
      strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
      save_result(r, resfile);
      _exit(3);
    }
    r.cases++;
    if (c.discarded)
      r.discarded++;
    else
      r.evals += c.units;
    r.per_prop[p.name]++;
    for (auto &kv : c.labels)
      r.labels[p.name + ":" + kv.first] += kv.second;
    if (c.is_nontrivial) {
      r.nontrivial++;
      if (r.distinct.size() < 400000)
        r.distinct.insert(fnv(s.tape, 1469598103934665603ull + (uint64_t)pi));
      if (c.want_sample && (!c.sample_text.empty() || !c.trace.empty())) {
        sample_count[p.name]++;
        std::string t = c.sample_text.empty() ? c.trace : c.sample_text;
        if (t.size() > 700)
          t = t.substr(0, 700) + "...";
        r.samples.push_back(p.name + ": " + t);
      }
    }
  }
  sh->done = 1;
  save_result(r, resfile);
  _exit(0);
}

static int g_run_counter = 0;

// outcome of an isolated run
struct Outcome {
  bool failed = false;
  std::string tag, msg, trace, err;
  std::vector<uint64_t> tape;
};

static std::string crash_tag(int status, const std::string &err) {
  std::string kind;
  size_t k = err.find("ERROR: AddressSanitizer: ");
  size_t t = err.find("WARNING: ThreadSanitizer: ");
  if (t == std::string::npos && (t = err.find("ERROR: ThreadSanitizer: ")) != std::string::npos)
    t -= 2; // the same length is skipped below
  size_t u = err.find("runtime error: ");
  if (k != std::string::npos) {
    size_t b = k + strlen("ERROR: AddressSanitizer: ");
    size_t e = err.find_first_of(" \n(", b);
    kind = "asan-" + err.substr(b, e - b);
  } else if (t != std::string::npos) {
    size_t b = t + strlen("WARNING: ThreadSanitizer: ");
    size_t e = err.find_first_of("\n(", b);
    kind = "tsan-" + err.substr(b, e - b);
    for (char &ch : kind)
      if (ch == ' ')
        ch = '-';
    while (!kind.empty() && kind.back() == '-')
      kind.pop_back();
  } else if (u != std::string::npos)
    kind = "ubsan";
  else if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGUSR2)
      kind = "hang";
    else
      kind = fmt("signal-%d", WTERMSIG(status));
  } else
    kind = fmt("exit-%d", WEXITSTATUS(status));
  return kind;
}

static std::string err_digest(const std::string &err) {
  // the interesting part of a sanitizer report
  size_t k = err.find("==ERROR");
  if (k == std::string::npos)
    k = err.find("WARNING: ThreadSanitizer");
  if (k == std::string::npos)
    k = err.find("runtime error: ");
  if (k == std::string::npos)
    return err.size() > 1500 ? err.substr(err.size() - 1500) : err;
  size_t b = k > 200 ? err.rfind('\n', k) : 0;
  if (b == std::string::npos)
    b = 0;
  return err.substr(b, 2500);
}

// body() runs in a forked child; must _exit(0) on success or _exit(3) after
// filling sh->tag/msg
static Outcome isolated(const std::function<void(Shared *)> &body,
                        int wall_s = CASE_WALL_S) {
  static Shared *sh = new_shared();
  sh->tag[0] = sh->msg[0] = sh->trace[0] = 0;
  sh->tape_len = 0;
  std::string name = fmt("iso%d", g_run_counter++);
  std::string errf = g_scratch_root + "/" + name + ".err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    setpgid(0, 0);
    worker_enter(name);
    g_shared_tape = sh;
    body(sh);
    _exit(0);
  }
  int status = 0;
  int64_t t0 = mono_s();
  bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid)
      break;
    if (!killed && mono_s() - t0 > wall_s) {
      kill(pid, SIGUSR2);
      killed = true;
    }
    usleep(2000);
  }
  kill(-pid, SIGKILL); // stragglers started by the case
  Outcome o;
  size_t n = std::min<size_t>((size_t)sh->tape_len, (size_t)TAPE_MAX);
  o.tape.assign(sh->tape, sh->tape + n);
  o.trace = sh->trace;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
  } else {
    o.failed = true;
    o.err = read_file(errf);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3 && sh->tag[0]) {
      o.tag = sh->tag;
      o.msg = sh->msg;
    } else {
      o.tag = crash_tag(status, o.err);
      o.msg = "process under test crashed: " + o.tag;
    }
  }
  unlink(errf.c_str());
  rm_tree(g_scratch_root + "/" + name);
  return o;
}

static Outcome run_tape(const Prop &p, const std::vector<uint64_t> &tape) {
  return isolated([&](Shared *sh) {
    Src s;
    s.replay = true;
    s.tape = tape;
    Ctx c;
    Failure f;
    if (!run_one(p, s, c, f)) {
      strncpy(sh->tag, f.tag.c_str(), sizeof(sh->tag) - 1);
      strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
      _exit(3);
    }
    _exit(0);
  });
}

static Outcome run_seeded(const Opts &o, const Prop &p, int shard,
                          uint64_t idx) {
  return isolated([&](Shared *sh) {
    Src s;
    s.seed(case_seed(o.seed, shard, idx, p.id + "/" + p.name));
    Ctx c;
    Failure f;
    if (!run_one(p, s, c, f)) {
      strncpy(sh->tag, f.tag.c_str(), sizeof(sh->tag) - 1);
      strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
      _exit(3);
    }
    _exit(0);
  });
}

static Outcome run_range(const Opts &o, const Sched &sc, int shard,
                         uint64_t from, uint64_t to) {
  Outcome out = isolated([&](Shared *sh) {
    g_shared_tape = nullptr;
    for (uint64_t i = from; i <= to; i++) {
      const Prop &p = props()[(size_t)sc.order[i % sc.order.size()]];
      Src s;
      s.seed(case_seed(o.seed, shard, i, p.id + "/" + p.name));
      Ctx c;
      Failure f;
      if (!run_one(p, s, c, f)) {
        strncpy(sh->tag, f.tag.c_str(), sizeof(sh->tag) - 1);
        strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
        strncpy(sh->trace, c.trace.c_str(), sizeof(sh->trace) - 1);
        _exit(3);
      }
    }
    _exit(0);
  }, RANGE_WALL_S);
  // running out of time says nothing here: the range may just be long
  if (out.tag == "hang")
    out.failed = false;
  return out;
}

static Outcome shrink(const Prop &p, Outcome best, int budget_s) {
  double end = mono_d() + budget_s;
  std::string tag = best.tag;
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t> &t) -> bool {
    if (mono_d() > end)
      return false;
    tries++;
    Outcome o = run_tape(p, t);
    if (o.failed && o.tag == tag) {
      // o.tape is the normalised tape actually consumed
      if (o.tape.size() < best.tape.size() ||
          (o.tape.size() == best.tape.size() && o.tape < best.tape)) {
        best = o;
        return true;
      }
    }
    return false;
  };
  if (tag == "hang")
    return best; // each attempt would cost the full time-out
  bool progress = true;
  while (progress && mono_d() < end) {
    progress = false;
    for (size_t blk : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.tape.size(); i-- > 0;) {
        if (mono_d() > end)
          break;
        if (i + blk > best.tape.size())
          continue;
        std::vector<uint64_t> t = best.tape;
        t.erase(t.begin() + (long)i, t.begin() + (long)(i + blk));
        if (attempt(t)) {
          progress = true;
          if (i > best.tape.size())
            i = best.tape.size();
        }
      }
    }
    for (size_t i = 0; i < best.tape.size(); i++) {
      if (mono_d() > end)
        break;
      if (best.tape[i] == 0)
        continue;
      std::vector<uint64_t> t = best.tape;
      t[i] = 0;
      if (attempt(t)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.tape.size() ? best.tape[i] : 0;
      while (hi > lo + 1 && mono_d() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        t = best.tape;
        if (i >= t.size())
          break;
        t[i] = mid;
        if (attempt(t)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

static bool write_replay(const Opts &o, const Prop &p, const Outcome &b,
                         const std::string &mode, int shard, uint64_t from,
                         uint64_t to) {
  FILE *f = fopen(o.replay_out.c_str(), "wb");
  if (!f)
    return false;
  fprintf(f, "property %s\ncheck %s\nmode %s\n", p.id.c_str(), p.name.c_str(),
          mode.c_str());
  fprintf(f, "tag %s\n", b.tag.c_str());
  if (mode == "tape") {
    fprintf(f, "tape");
    for (uint64_t v : b.tape)
      fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n");
  } else
    fprintf(f, "range %llu %d %llu %llu\n", (unsigned long long)o.seed, shard,
            (unsigned long long)from, (unsigned long long)to);
  fprintf(f, "---\nclause: %s\nmessage: %s\n", b.tag.c_str(), b.msg.c_str());
  if (!b.trace.empty())
    fprintf(f, "--- case\n%s", b.trace.c_str());
  if (!b.err.empty())
    fprintf(f, "--- stderr\n%s\n", err_digest(b.err).c_str());
  fclose(f);
  return true;
}

static int do_replay(const Opts &o, const Sched &sc) {
  FILE *f = fopen(o.replay_in.c_str(), "rb");
  if (!f) {
    fprintf(stderr, "cannot open %s\n", o.replay_in.c_str());
    return 2;
  }
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  std::string check, mode, tag;
  std::vector<uint64_t> tape;
  unsigned long long rseed = 0, rf = 0, rt = 0;
  int rs = 0;
  while ((n = getline(&line, &cap, f)) > 0) {
    std::string l(line);
    while (!l.empty() && (l.back() == '\n' || l.back() == ' '))
      l.pop_back();
    if (l == "---")
      break;
    if (l.compare(0, 6, "check ") == 0)
      check = l.substr(6);
    else if (l.compare(0, 5, "mode ") == 0)
      mode = l.substr(5);
    else if (l.compare(0, 4, "tag ") == 0)
      tag = l.substr(4);
    else if (l.compare(0, 4, "tape") == 0) {
      const char *q = l.c_str() + 4;
      char *e;
      for (;;) {
        unsigned long long v = strtoull(q, &e, 10);
        if (e == q)
          break;
        tape.push_back(v);
        q = e;
      }
    } else if (l.compare(0, 6, "range ") == 0)
      sscanf(l.c_str() + 6, "%llu %d %llu %llu", &rseed, &rs, &rf, &rt);
  }
  free(line);
  fclose(f);
  const Prop *p = nullptr;
  for (auto &q : props())
    if (q.id == o.prop && q.name == check)
      p = &q;
  if (!p) {
    fprintf(stderr, "no such check %s\n", check.c_str());
    return 2;
  }
  Opts o2 = o;
  o2.seed = rseed;
  Outcome r;
  for (int i = 0; i < (o.flaky ? 2 * FLAKY_TRIES : 1) && !r.failed; i++)
    r = mode == "tape" ? run_tape(*p, tape) : run_range(o2, sc, rs, rf, rt);
  if (r.failed) {
    printf("REPRODUCED property=%s check=%s clause=%s\n%s\n%s%s\n",
           p->id.c_str(), p->name.c_str(), r.tag.c_str(), r.msg.c_str(),
           r.trace.c_str(), err_digest(r.err).c_str());
    return 1;
  }
  printf("NOT REPRODUCED property=%s check=%s\n", p->id.c_str(),
         p->name.c_str());
  return 0;
}

int main_(int argc, char **argv) {
  Opts o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop")
      o.prop = v;
    else if (k == "--seed")
      o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--shards")
      o.shards = atoi(v.c_str());
    else if (k == "--cases")
      o.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--max-seconds")
      o.max_s = atof(v.c_str());
    else if (k == "--shrink-seconds")
      o.shrink_s = atoi(v.c_str());
    else if (k == "--out")
      o.out = v;
    else if (k == "--replay-out")
      o.replay_out = v;
    else if (k == "--replay")
      o.replay_in = v;
    else if (k == "--flaky")
      o.flaky = v == "1";
    else if (k == "--only")
      o.only = v;
    else {
      fprintf(stderr, "unknown option %s\n", k.c_str());
      return 2;
    }
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) {
    perror("mkdtemp");
    return 2;
  }
  g_scratch_root = tmpl;
  g_scratch = g_scratch_root + "/main";
  mkdir(g_scratch.c_str(), 0700);
  struct Cleaner {
    ~Cleaner() { rm_tree(g_scratch_root); }
  } cleaner;

  std::vector<int> sel;
  for (size_t i = 0; i < props().size(); i++)
    if (props()[i].id == o.prop &&
        (o.only.empty() ? props()[i].weight > 0 : props()[i].name == o.only))
      sel.push_back((int)i);
  if (sel.empty()) {
    fprintf(stderr, "no checks for property %s\n", o.prop.c_str());
    return 2;
  }
  Sched sc = make_sched(sel);
  clock_set(1750000000);
  g_prop_id = o.prop;
  if (g_init)
    g_init();
  if (!o.replay_in.empty())
    return do_replay(o, sc);

  double t0 = mono_d();
  double deadline = t0 + o.max_s;
  std::vector<Shared *> sh((size_t)o.shards);
  std::vector<pid_t> pid((size_t)o.shards);
  std::vector<int> status((size_t)o.shards, -1);
  for (int k = 0; k < o.shards; k++) {
    sh[(size_t)k] = new_shared();
    sh[(size_t)k]->started_at = mono_s();
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) {
      perror("fork");
      return 2;
    }
    if (p == 0) {
      setpgid(0, 0);
      worker_enter(fmt("shard%d", k));
      shard_main(o, sc, k, sh[(size_t)k], deadline,
                 g_scratch_root + fmt("/shard%d.res", k));
    }
    pid[(size_t)k] = p;
  }
  int alive = o.shards, failed_shard = -1;
  std::vector<bool> live((size_t)o.shards, true);
  while (alive) {
    bool any = false;
    for (int k = 0; k < o.shards; k++) {
      if (!live[(size_t)k])
        continue;
      int st;
      pid_t r = waitpid(pid[(size_t)k], &st, WNOHANG);
      if (r == pid[(size_t)k]) {
        any = true;
        live[(size_t)k] = false;
        alive--;
        status[(size_t)k] = st;
        kill(-pid[(size_t)k], SIGKILL);
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[(size_t)k]->done;
        if (!ok && failed_shard < 0 &&
            !(WIFSIGNALED(st) && WTERMSIG(st) == SIGTERM)) {
          failed_shard = k;
          for (int j = 0; j < o.shards; j++)
            if (live[(size_t)j])
              kill(-pid[(size_t)j], SIGTERM);
        }
      } else if (mono_s() - sh[(size_t)k]->started_at > CASE_WALL_S)
        kill(pid[(size_t)k], SIGUSR2); // no progress: counted as a hang
    }
    if (!any)
      usleep(5000);
  }

  ShardResult total;
  for (int k = 0; k < o.shards; k++)
    load_result(g_scratch_root + fmt("/shard%d.res", k), total);

  int rc = 0;
  std::string verdict = "held";
  Outcome best;
  std::string fname;
  if (failed_shard >= 0) {
    int k = failed_shard;
    uint64_t idx = sh[(size_t)k]->progress;
    const Prop &p = props()[(size_t)sh[(size_t)k]->prop_index];
    fname = p.name;
    std::string serr = read_file(g_scratch_root + fmt("/shard%d.err", k));
    std::string first_tag =
        sh[(size_t)k]->tag[0] ? std::string(sh[(size_t)k]->tag)
                              : crash_tag(status[(size_t)k], serr);
    fprintf(stderr, "shard %d case %llu (%s) failed: %s %s\n", k,
            (unsigned long long)idx, p.name.c_str(), first_tag.c_str(),
            sh[(size_t)k]->msg);
    Outcome r;
    bool confirmed = false;
    for (int i = 0; i < (o.flaky ? FLAKY_TRIES : 1) && !r.failed; i++)
      r = run_seeded(o, p, k, idx);
    if (o.flaky) { // the observation itself counts; a repetition is only nicer
      if (r.failed) {
        best = shrink(p, r, o.shrink_s);
        int again = 0;
        for (int i = 0; i < 10 && !again; i++)
          again += run_tape(p, best.tape).failed;
        if (!again)
          best = r;
        confirmed = true;
        write_replay(o, p, best, "tape", 0, 0, 0);
      }
    } else {
    if (r.failed) {
      best = shrink(p, r, o.shrink_s);
      int again = 0, need = best.tag == "hang" ? 1 : 3;
      for (int i = 0; i < need; i++)
        again += run_tape(p, best.tape).failed;
      if (again == need) {
        confirmed = true;
        write_replay(o, p, best, "tape", 0, 0, 0);
      } else {
        again = 0;
        for (int i = 0; i < 3; i++)
          again += run_tape(p, r.tape).failed;
        if (again == 3) {
          confirmed = true;
          best = r;
          write_replay(o, p, best, "tape", 0, 0, 0);
        }
      }
    }
    if (!confirmed) { // depends on what earlier cases left behind
      Outcome rr;
      uint64_t from = 0;
      int again = 0;
      // near predecessors first: a long prefix takes long
      for (uint64_t back : {(uint64_t)30, (uint64_t)300, (uint64_t)3000, idx}) {
        from = idx > back ? idx - back : 0;
        again = 0;
        for (int i = 0; i < 3; i++) {
          rr = run_range(o, sc, k, from, idx);
          again += rr.failed;
          if (!rr.failed)
            break;
        }
        if (again == 3 || from == 0)
          break;
      }
      if (again == 3) {
        // shorten the prefix
        uint64_t first = from;
        uint64_t lo = from, hi = idx;
        double end = mono_d() + o.shrink_s;
        while (lo < hi && mono_d() < end) {
          uint64_t mid = lo + (hi - lo + 1) / 2;
          Outcome q = run_range(o, sc, k, mid, idx);
          if (q.failed) {
            lo = mid;
            rr = q;
          } else
            hi = mid - 1;
        }
        from = lo;
        again = 0;
        for (int i = 0; i < 3; i++)
          again += run_range(o, sc, k, from, idx).failed;
        if (again != 3)
          from = first;
        confirmed = true;
        best = rr;
        write_replay(o, p, best, "range", k, from, idx);
      }
    }
    }
    bool report = first_tag.compare(0, 5, "asan-") == 0 ||
                  first_tag.compare(0, 5, "tsan-") == 0 ||
                  first_tag.compare(0, 5, "ubsan") == 0;
    report = report && first_tag.find("memory") == std::string::npos &&
             first_tag.find("alloc") == std::string::npos;
    if (!confirmed && first_tag != "hang" && (report || o.flaky)) {
      confirmed = true; // a sanitizer's report proves the fault it names
      best.failed = true;
      best.tag = first_tag;
      best.msg = sh[(size_t)k]->tag[0] ? std::string(sh[(size_t)k]->msg)
                                       : "process under test crashed: " + first_tag;
      best.trace = sh[(size_t)k]->trace;
      best.err = serr;
      write_replay(o, p, best, "range", k, o.flaky ? idx : 0, idx);
    }
    if (confirmed) {
      rc = 1;
      verdict = "violated";
    } else {
      verdict = "unreproduced";
      fprintf(stderr, "failure did not reproduce; stderr of shard:\n%s\n",
              err_digest(serr).c_str());
    }
  }

  if (!o.out.empty()) {
    FILE *f = fopen(o.out.c_str(), "wb");
    if (f) {
      fprintf(f,
              "{\"verdict\":\"%s\",\"cases\":%llu,\"evaluations\":%llu,"
              "\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,"
              "\"discarded\":%llu,\"wall_s\":%.1f,\n",
              verdict.c_str(), (unsigned long long)total.cases,
              (unsigned long long)total.evals,
              (unsigned long long)total.nontrivial,
              (unsigned long long)total.distinct.size(),
              (unsigned long long)total.discarded, mono_d() - t0);
      fprintf(f, "\"checks\":{");
      bool first = true;
      for (auto &kv : total.per_prop) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", kv.first.c_str(),
                (unsigned long long)kv.second);
        first = false;
      }
      fprintf(f, "},\n\"labels\":{");
      first = true;
      for (auto &kv : total.labels) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(),
                (unsigned long long)kv.second);
        first = false;
      }
      fprintf(f, "},\n\"samples\":[");
      // a few per sub-check
      std::map<std::string, int> cnt;
      first = true;
      for (auto &s : total.samples) {
        std::string nm = s.substr(0, s.find(':'));
        if (cnt[nm]++ >= 2)
          continue;
        fprintf(f, "%s\"%s\"", first ? "" : ",\n", s.c_str());
        first = false;
      }
      fprintf(f, "],\n\"failure\":{\"check\":\"%s\",\"tag\":\"%s\","
                 "\"message\":\"%s\"}}\n",
              fname.c_str(), jesc(best.tag).c_str(), jesc(best.msg).c_str());
      fclose(f);
    }
  }
  if (rc == 1)
    fprintf(stderr, "clause %s: %s\n%s%s\n", best.tag.c_str(), best.msg.c_str(),
            best.trace.c_str(), err_digest(best.err).c_str());
  return rc;
}
} // namespace pbt

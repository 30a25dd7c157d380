// Property-based testing engine: choice-tape generation, crash-isolated
// execution in forked shards, tape shrinking, replay, evidence counters.
//
// A property is a function of a Src (all randomness comes from it) and a Ctx
// (labels, the non-trivial flag, failure).  A case is a pure function of
// (VERIF_SEED, shard, index) or of a recorded tape.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

struct Failure {
  std::string tag; // stable short identifier of the violated clause
  std::string msg;
};

class Src {
public:
  std::vector<uint64_t> tape; // recorded choices (generation) or replayed
  size_t pos = 0;
  bool replay = false;
  uint64_t s[4];

  void seed(uint64_t v);
  uint64_t raw();
  // choice in [0,n); n==0 means full 64-bit
  uint64_t below(uint64_t n);
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
  bool chance(int percent) { return (int)below(100) >= 100 - percent; }
  bool flip() { return below(2) == 1; }
  uint8_t byte() { return (uint8_t)below(256); }
  // size biased to small values, sometimes up to max
  size_t size(size_t max);
  // mostly size(typical); rarely large: near a power of two, or any, up to big
  size_t length(size_t typical, size_t big);
  Bytes bytes(size_t len);
  std::string str(const std::string &alphabet, size_t len);
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  // weighted pick: returns index
  size_t weighted(const std::vector<int> &w);
};

class Ctx {
public:
  bool want_sample = false;
  bool is_nontrivial = false;
  bool discarded = false;
  uint64_t units = 1; // evaluations this case stands for
  std::map<std::string, uint64_t> labels;
  std::string sample_text;
  std::string trace; // human readable description, shown with a failure
  void label(const std::string &l) { labels[l]++; }
  void nontrivial(bool v = true) { is_nontrivial = is_nontrivial || v; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char *tag, const char *fmt, ...)
      __attribute__((format(printf, 3, 4)));
};

#define REQUIRE(cond, tag, ...)                                                \
  do {                                                                         \
    if (!(cond))                                                               \
      c.fail(tag, __VA_ARGS__);                                                \
  } while (0)

struct Prop {
  std::string id;   // property id, e.g. "C01"
  std::string name; // sub-check name
  int weight;
  void (*fn)(Src &, Ctx &);
};

void add(const char *id, const char *name, int weight, void (*fn)(Src &, Ctx &));
struct Reg {
  Reg(const char *id, const char *name, int weight, void (*fn)(Src &, Ctx &)) {
    add(id, name, weight, fn);
  }
};
#define PROPERTY(id, name, weight)                                             \
  static void prop_##id##_##name(pbt::Src &s, pbt::Ctx &c);                    \
  static pbt::Reg reg_##id##_##name(#id, #name, weight, prop_##id##_##name);   \
  static void prop_##id##_##name(pbt::Src &s, pbt::Ctx &c)

// for checks about other checks' bodies: the registered ones, and one run of a
// body from a recorded tape (false: it failed or threw).  The outer tape is kept.
const std::vector<Prop> &all();
bool run_body(const Prop &p, Src &s, Ctx &c, bool first);
// called once in the parent process and once in every worker
void set_global_init(void (*fn)());
// called before every case
void set_case_reset(void (*fn)());
void set_case_begin(void (*fn)(Src &));
// scratch directory private to this worker process
const std::string &prop_id(); // of this run
const std::string &scratch();

std::string hex(const uint8_t *p, size_t n, size_t maxn = 48);
inline std::string hex(const Bytes &b, size_t maxn = 48) {
  return hex(b.data(), b.size(), maxn);
}
std::string quote(const std::string &s, size_t maxn = 120);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// --- owned clock ---------------------------------------------------------
void clock_set(int64_t unix_seconds, int usec = 0); // time(), gettimeofday(), CLOCK_REALTIME
int64_t clock_get();

// --- allocation accounting / fault injection -----------------------------
// live heap blocks allocated through malloc & friends
int64_t live_blocks();
// blocks allocated since track_start and still alive, by call chain
void track_start();
std::string track_report(size_t maxn);
// fail the from-th (1-based) up to, excluding, the to-th allocation of this
// thread; scope bit 1: library code, bit 2: OpenSSL.  from=0 only counts.
void oom_arm(int scope, int64_t from, int64_t to);
void oom_disarm();
int64_t oom_count();
int64_t oom_failed();
int main_(int argc, char **argv);
} // namespace pbt
#endif

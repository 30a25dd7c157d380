// C26: handling anything keeps no memory.  The bodies of the other checks
// (every operation of the library, the handlers and the pledge's client flow, on
// good and bad inputs) are run several times from one tape; the number of live
// heap blocks must not grow from one repetition to the next.
#include "engine/env.hpp"
#include <openssl/crypto.h>
#include <openssl/err.h>
using namespace env;
static const struct {
  const char *id;
  int weight;
} PARTS[] = {{"C01", 2},  {"C02", 2},  {"C03", 4},  {"C04", 2},  {"C05", 5},  {"C06", 8},
             {"C07", 6},  {"C08", 9},  {"C09", 9},  {"C10", 9},  {"C11", 6},  {"C12", 5},
             {"C13", 5},  {"C14", 4},  {"C15", 14}, {"C16", 14}, {"C17", 12}, {"C18", 14},
             {"C20", 6},  {"C22", 2},  {"C25", 10}};
static int64_t settle() {
  ERR_clear_error();
  OPENSSL_thread_stop(); // the thread's error and random states
  return pbt::live_blocks();
}
PROPERTY(C26, repeated, 100) {
  std::vector<int> w; // the checks this program has
  for (auto &p : PARTS) {
    bool has = false;
    for (auto &q : pbt::all())
      has = has || q.id == p.id;
    w.push_back(has ? p.weight : 0);
  }
  std::string id = PARTS[s.weighted(w)].id;
  std::vector<const pbt::Prop *> bodies;
  std::vector<int> bw;
  for (auto &p : pbt::all())
    if (p.id == id && p.weight > 0)
      bodies.push_back(&p), bw.push_back(p.weight);
  const pbt::Prop &p = *bodies[s.weighted(bw)];
  size_t start = s.pos;
  {
    pbt::Ctx q;
    bool ok = pbt::run_body(p, s, q, true);
    c.note("%s %s%s\n%s", p.id.c_str(), p.name.c_str(), ok ? "" : " (not judged)", q.trace.c_str());
    c.label(p.id + "-" + p.name);
    if (!ok) { // another property's matter; its harness objects are not released
      c.label("not-judged");
      c.discarded = true;
      return;
    }
    c.nontrivial(q.is_nontrivial);
  }
  std::vector<uint64_t> tape(s.tape.begin() + (long)start, s.tape.begin() + (long)s.pos);
  auto again = [&] {
    pbt::Src r;
    r.replay = true;
    r.tape = tape;
    pbt::Ctx q;
    return pbt::run_body(p, r, q, false);
  };
  if (!again())
    return;
  int64_t b = settle(), first = b;
  int grew = 0, n = 0;
  for (; n < 6; n++) {
    if (!again())
      return;
    int64_t a = settle();
    if (a <= b)
      return; // a cache may fill, a leak grows each time
    grew++;
    b = a;
  }
  pbt::track_start();
  again();
  settle();
  c.note("still allocated after one more run, by allocating call:\n%s", pbt::track_report(12).c_str());
  REQUIRE(grew < 6, "grows", "%lld more blocks after %d repetitions of %s %s", (long long)(b - first), n,
          p.id.c_str(), p.name.c_str());
}

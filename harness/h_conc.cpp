// C19: concurrent requests to a registrar and a MASA that run in this process
// on the stand-in transport.  Built with ThreadSanitizer and, separately, with
// AddressSanitizer.
#include "harness/estate.hpp"
#include <atomic>
#include <openssl/err.h>
#include <pthread.h>
#include <set>
#include <sys/stat.h>
using namespace estate;

// Library functions that are documented to answer in a buffer of their own share
// it between threads.  The system's copies are not instrumented, so they are
// replaced by ones whose buffer the sanitizer sees.
static void widen() { usleep(300); } // the answer is used for a while
extern "C" {
struct tm *gmtime(const time_t *t) {
  static struct tm buf;
  struct tm b;
  if (!gmtime_r(t, &b))
    return nullptr;
  buf = b;
  widen();
  return &buf;
}
struct tm *localtime(const time_t *t) {
  static struct tm buf;
  struct tm b;
  if (!localtime_r(t, &b))
    return nullptr;
  buf = b;
  widen();
  return &buf;
}
char *asctime(const struct tm *t) {
  static char buf[64];
  char b[64];
  if (!asctime_r(t, b))
    return nullptr;
  for (size_t i = 0; i < sizeof buf && (buf[i] = b[i]); i++)
    ;
  widen();
  return buf;
}
char *ctime(const time_t *t) {
  struct tm b;
  return localtime_r(t, &b) ? asctime(&b) : nullptr;
}
char *strtok(char *s, const char *d) {
  static char *save;
  char *r = strtok_r(s, d, &save);
  widen();
  return r;
}
char *ERR_error_string(unsigned long e, char *out) {
  static char buf[256];
  if (out) {
    ERR_error_string_n(e, out, 256);
    return out;
  }
  char b[256];
  ERR_error_string_n(e, b, sizeof b);
  for (size_t i = 0; i < sizeof buf && (buf[i] = b[i]); i++)
    ;
  widen();
  return buf;
}
}

struct Job {
  enum Kind { REG, MASA, ENROL, STATUS } kind;
  std::string path, body, sn, why = "good";
  enum HTTP_METHOD method = HTTP_METHOD_POST;
  Bytes peer;
  bool ok = true;
  VModel want;         // the voucher
  Cert asked;          // the certificate to be signed
  bool logged = false; // adds a line to the log
  std::string line;
  int want_status = 0;
  std::string want_body;
  uint64_t seed = 0;
  net::Server *sv = nullptr;
  // the answers of each round
  struct Got {
    int status;
    std::string body, ctype;
  };
  std::vector<Got> got;
};
static Cert device(Src &s, const std::string &sn, int key) {
  CertSpec p;
  p.subject = dn("device", sn);
  p.serial = few_serial(s, 2);
  p.serial[0] |= 1;
  return make_cert(p, ec(key));
}
static std::string other_serial(Src &s, const std::string &v) {
  std::string r = near_serial(s, v);
  return r == v ? r + "y" : r;
}
static std::string hexnum(const Cert &c) {
  uint64_t v = 0;
  ASN1_INTEGER_get_uint64(&v, X509_get0_serialNumber(c.x.get()));
  return pbt::fmt("0x%llx", (unsigned long long)v);
}
struct Run {
  std::vector<Job> *jobs;
  int i, rounds;
  pthread_barrier_t *bar;
};
static void *run_thread(void *p) {
  Run *r = (Run *)p;
  Job &j = (*r->jobs)[(size_t)r->i];
  rng_reseed(j.seed);
  for (int k = 0; k < r->rounds; k++) {
    Peer peer(j.peer);
    std::map<std::string, std::string> h;
    Job::Got g;
    pthread_barrier_wait(r->bar);
    try {
      g.status = net::request(j.sv, j.method, j.path, j.body, "application/voucher-cms+json", peer.x, h, g.body);
      g.ctype = h["Content-Type"];
    } catch (const std::exception &x) {
      g.status = 505;
      g.body = x.what();
    }
    j.got.push_back(g);
  }
  return nullptr;
}
PROPERTY(C19, mix, 100) {
  net::reset();
  struct NG {
    ~NG() { net::reset(); }
  } ng;
  Estate e;
  Opt o;
  o.bad_pct = 4;
  gen_estate(e, s, o);
  RegistrarContext *rctx = nullptr;
  MasaContext *mctx = nullptr;
  REQUIRE(registrar_start(&e.rc, &e.mc, &rctx) == 0 && rctx, "start", "the registrar does not start");
  REQUIRE(masa_start(&e.rc, &e.mc, &e.pc, &mctx) == 0 && mctx, "start", "the MASA does not start");
  snprintf(rctx->log_path, sizeof rctx->log_path, "%s", e.log_path().c_str());
  net::Server *rs = net::find(e.rc.bind_address, (int)e.rc.port), *ms = net::find(e.mc.bind_address, (int)e.mc.port);
  REQUIRE(rs && ms, "start", "a server does not listen where configured");
  net::record = false;
  int n = 3 + (int)s.below(6), rounds = 1 + (int)s.below(3);
  // often many of the same kind
  int theme = (int)s.weighted({40, 20, 20, 20});
  // sometimes most requests fail, and in the same way
  int fail_pct = s.chance(30) ? 85 : 35, same_fault = s.chance(60) ? (int)s.below(35) : -1;
  if (fail_pct == 35)
    same_fault = -1;
  auto fault = [&](unsigned k) { return same_fault >= 0 && s.chance(80) ? (unsigned)same_fault % k : (unsigned)s.below(k); };
  auto junk = [&] { return s.flip() ? "?" + s.str("!-_", s.size(20)) : b64(s.bytes(1 + s.below(200))); };
  std::vector<Job> jobs((size_t)n);
  int enrols = 0, good = 0, bad = 0;
  bool large = theme == Job::ENROL + 1 && s.chance(50); // log lines longer than a buffer
  struct tm t0 = tm_from(pbt::clock_get());
  for (int i = 0; i < n; i++) {
    Job &j = jobs[(size_t)i];
    j.seed = s.below(0);
    int kind = theme && s.chance(75) ? theme - 1 : (int)s.weighted({30, 30, 30, 10});
    j.kind = (Job::Kind)kind;
    j.sn = pbt::fmt("%d-", i) + s.str("0123456789abcdef", 1 + s.size(60));
    bool parties = e.pl.trusted && e.rg.trusted;
    VModel pm = e.pledge_model(t0);
    pm.serial = j.sn;
    pm.has_arr[A_NONCE] = s.chance(80);
    pm.arr[A_NONCE] = pm.has_arr[A_NONCE] ? gen_nonempty(s, 40) : Bytes();
    switch (kind) {
    case Job::REG: {
      j.sv = rs;
      j.path = "/.well-known/brski/requestvoucher";
      Cert d = device(s, j.sn, (int)s.below(3));
      j.peer = d.der;
      bool body64 = true, tamp = false;
      if (s.chance(fail_pct))
        switch (fault(7)) {
        case 0: pm.serial = other_serial(s, j.sn), j.why = "other-serial"; break;
        case 1: pm.arr[A_PROX] = unrelated(s, 1).der, j.why = "other-proximity"; break;
        case 2: pm.assertion = 0, j.why = "no-assertion"; break;
        case 3: j.peer.clear(), j.why = "no-certificate"; break;
        case 4: j.peer = device(s, "", 1).der, j.why = "no-serial"; break;
        case 5: body64 = false, j.why = "junk"; break;
        default: tamp = true, j.why = "tampered";
        }
      std::string pj = vmodel_json(pm);
      Bytes pc = e.sign(e.pl, pj);
      if (tamp && !tamper(s, pc, pj))
        j.why = "good";
      j.body = body64 ? wrap64(s, pc) : junk();
      j.ok = j.why == "good" && parties;
      j.want = e.voucher_model(e.registrar_model(pm, pc, t0), e.domain.der);
      j.want.serial = j.sn;
      break;
    }
    case Job::MASA: {
      j.sv = ms;
      j.path = "/.well-known/brski/requestvoucher";
      j.peer = e.reg_tls.der;
      bool body64 = true, tamp = false;
      VModel rm = e.registrar_model(pm, {}, t0);
      rm.serial = j.sn;
      if (s.chance(fail_pct))
        switch (fault(5)) {
        case 0: rm.serial = other_serial(s, j.sn), j.why = "other-serial"; break;
        case 1:
          if (pm.has_arr[A_NONCE])
            rm.arr[A_NONCE] = near_bytes(s, pm.arr[A_NONCE]), j.why = "other-nonce";
          break;
        case 2: pm.has_serial = false, pm.serial.clear(), j.why = "no-serial"; break;
        case 3: body64 = false, j.why = "junk"; break;
        default: tamp = true, j.why = "tampered";
        }
      rm.arr[A_PRIOR] = e.sign(e.pl, vmodel_json(pm));
      std::string rj = vmodel_json(rm);
      Bytes rc = e.sign(e.rg, rj);
      if (tamp && !tamper(s, rc, rj))
        j.why = "good";
      j.body = body64 ? wrap64(s, rc) : junk();
      j.ok = j.why == "good" && parties;
      j.want = e.voucher_model(rm, e.domain.der);
      j.want.serial = j.sn;
      break;
    }
    case Job::ENROL: {
      j.sv = rs;
      j.path = "/.well-known/est/simpleenroll";
      if (large && s.flip())
        j.sn += s.str("mnop", 1000 + s.below(9000));
      Cert p = device(s, j.sn, 2);
      j.peer = p.der;
      std::string an = pbt::fmt("n%d-", i) + s.str("ghijkl", large ? s.below(12000) : s.size(50));
      j.asked = device(s, an, 6 + (int)s.below(4));
      j.body = wrap64(s, j.asked.der);
      if (s.chance(fail_pct == 35 ? 25 : 80)) {
        j.ok = false;
        j.why = "bad-body";
        j.body = s.flip() ? "" : b64(s.bytes(1 + s.below(200)));
      } else {
        j.logged = true;
        enrols++;
        j.line = pbt::fmt("%lld ", (long long)pbt::clock_get()) + hexnum(p) + " \"" + j.sn + "\" " +
                 hexnum(j.asked) + " \"" + an + "\"\n";
      }
      break;
    }
    default: {
      j.sv = s.flip() ? rs : ms;
      const char *who = j.sv == rs ? "registrar" : "masa";
      const char *w = s.pick<const char *>({"voucher_status", "requestauditlog", "enrollstatus"});
      j.path = std::string("/.well-known/brski/") + w;
      j.body = s.str("%sdn{}", s.size(40));
      j.want_status = 200;
      j.want_body = std::string(who) + "_" + w;
      if (s.chance(20))
        j.path += "x", j.want_status = 404;
    }
    }
    (j.ok ? good : bad)++;
    c.label(pbt::fmt("kind%d-%s", kind, j.why.c_str()));
    c.note("job %d: kind %d serial %s %s", i, kind, j.sn.c_str(), j.why.c_str());
  }
  c.note("%d rounds", rounds);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, (unsigned)n);
  std::vector<Run> rr((size_t)n);
  std::vector<pthread_t> th((size_t)n);
  for (int i = 0; i < n; i++) {
    rr[(size_t)i] = {&jobs, i, rounds, &bar};
    pthread_create(&th[(size_t)i], nullptr, run_thread, &rr[(size_t)i]);
  }
  for (auto t : th)
    pthread_join(t, nullptr);
  pthread_barrier_destroy(&bar);
  registrar_stop(rctx);
  masa_stop(mctx);
  net::record = true;
  c.nontrivial(n >= 3);
  c.units = (uint64_t)(n * rounds);
  c.label(pbt::fmt("threads-%d", n));
  if (large)
    c.label("long-lines");
  // every answer is the one the request gets alone
  std::multiset<std::string> want_log;
  for (auto &j : jobs)
    for (auto &g : j.got) {
      c.note("%s: %d %s", j.why.c_str(), g.status, pbt::quote(g.body, 50).c_str());
      if (j.kind == Job::STATUS) {
        REQUIRE(g.status == j.want_status, "status-route", "%s answered %d %s", j.path.c_str(), g.status, g.body.c_str());
        REQUIRE(j.want_status != 200 || g.body == j.want_body, "status-route", "%s answered %s", j.path.c_str(), g.body.c_str());
        continue;
      }
      if (!j.ok) {
        REQUIRE(g.status >= 400 && g.status <= 599, "bad-accepted", "status %d for a bad request (%s)", g.status, j.why.c_str());
        Bytes d;
        REQUIRE(!(b64d(g.body, d) && (parse_cert(d) || cms_info(d).ok)), "leaked-answer", "a refused request (%s) got %s", j.why.c_str(), pbt::quote(g.body, 80).c_str());
        continue;
      }
      REQUIRE(g.status == 200, "good-refused", "status %d: %s (serial %s)", g.status, pbt::quote(g.body, 80).c_str(), j.sn.c_str());
      Bytes d;
      REQUIRE(b64d(g.body, d), "answer-base64", "%s", pbt::quote(g.body, 80).c_str());
      if (j.kind == Job::ENROL) {
        auto x = parse_cert(d);
        REQUIRE(x != nullptr, "no-certificate", "the answer is no certificate");
        REQUIRE(X509_NAME_cmp(X509_get_subject_name(x.get()), X509_get_subject_name(j.asked.x.get())) == 0 &&
                    ASN1_INTEGER_cmp(X509_get0_serialNumber(x.get()), X509_get0_serialNumber(j.asked.x.get())) == 0 &&
                    same_key(X509_get0_pubkey(x.get()), X509_get0_pubkey(j.asked.x.get())),
                "other-certificate", "another request's certificate");
        REQUIRE(signed_by(x.get(), e.domain_key->p), "signature", "not signed by the authority");
        want_log.insert(j.line);
      } else
        check_out(c, d, j.want, e.ma.ch.leaf.der, e.ma.extra);
    }
  Bytes lb;
  std::string log = read_file(e.log_path(), lb) ? S(lb) : "";
  std::multiset<std::string> got_log;
  for (size_t p = 0; p < log.size();) {
    size_t q = log.find('\n', p);
    q = q == std::string::npos ? log.size() : q + 1;
    got_log.insert(log.substr(p, q - p));
    p = q;
  }
  for (auto &l : got_log)
    REQUIRE(want_log.count(l), "log-line", "the log holds %s", pbt::quote(l, 300).c_str());
  REQUIRE(got_log == want_log, "log-count", "the log holds %zu lines after %zu enrolments", got_log.size(), want_log.size());
}

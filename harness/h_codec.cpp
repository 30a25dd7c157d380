// C04 base64 codec; C21 timestamps and booleans.
#include "engine/env.hpp"
#include <cstring>
using namespace env;

static const char ALPHA[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static bool dec(const Bytes &t, Bytes &out, ssize_t &n) {
  Raw r(t);
  uint8_t *o = (uint8_t *)0x1;
  n = serialize_base64str2array(r.p, r.n, &o);
  if (n < 0) {
    if (o != nullptr) { // a caller that releases its output must be safe
      free(o);
    }
    return false;
  }
  out.assign(o, o + n);
  free(o);
  return true;
}

PROPERTY(C04, roundtrip, 6) {
  size_t len = s.chance(3) ? s.below(20000) : s.length(400, 200000);
  if (s.chance(40))
    len = s.below(16);
  Bytes b = s.bytes(len);
  Raw r(b);
  uint8_t *o = nullptr;
  ssize_t n = serialize_array2base64str(r.p, r.n, &o);
  c.note("encode %s", pbt::hex(b).c_str());
  REQUIRE(n >= 0 && o, "encode-failed", "returned %zd", n);
  std::string t((char *)o);
  free(o);
  std::string want = b64(b);
  REQUIRE((size_t)n == t.size(), "encode-length", "returned %zd, text has %zu",
          n, t.size());
  REQUIRE(t == want, "encode-text", "%s expected %s", t.c_str(), want.c_str());
  c.nontrivial(len >= 1);
  c.label(pbt::fmt("mod%zu", len % 3));
  if (!len)
    return;
  Bytes back;
  ssize_t m;
  REQUIRE(dec(B(t), back, m), "decode-failed", "%s", t.c_str());
  REQUIRE(back == b, "decode-value", "%s decoded to %s", t.c_str(),
          pbt::hex(back).c_str());
}
// line-wrapped text and text with its padding left out decode alike
PROPERTY(C04, wrapped, 3) {
  Bytes b = gen_nonempty(s, 300);
  std::string t = b64(b), u;
  size_t w = 1 + (s.chance(5) ? s.below(2000) : s.below(80));
  bool strip = s.chance(30);
  if (strip)
    while (!t.empty() && t[t.size() - 1] == '=')
      t.erase(t.size() - 1);
  static const std::vector<std::string> NL = {"\n", "\r\n", " ", "\n\n", "\t"};
  std::string nl = s.pick(NL);
  for (size_t i = 0; i < t.size(); i++) {
    if (i && i % w == 0)
      u += nl;
    u += t[i];
  }
  if (s.flip() && !strip)
    u += nl;
  c.label(strip ? "no-padding" : "padding");
  c.nontrivial(u.size() != t.size());
  c.note("%s", pbt::quote(u, 300).c_str());
  Bytes back;
  ssize_t m;
  REQUIRE(dec(B(u), back, m), "wrapped-rejected", "%s", pbt::quote(u, 200).c_str());
  REQUIRE(back == b, "wrapped-value", "%s decoded to %s",
          pbt::quote(u, 200).c_str(), pbt::hex(back).c_str());
}
PROPERTY(C04, rejects, 3) {
  std::string t;
  int k = (int)s.below(3);
  if (k == 0) { // no base64 digit at all
    size_t n = s.length(30, 3000);
    for (size_t i = 0; i < n; i++) {
      uint8_t ch = s.byte();
      if (ch == '=' || (ch && strchr(ALPHA, ch)))
        ch = '!';
      t += (char)ch;
    }
  } else { // three or four padding characters in the last block
    size_t blocks = s.length(10, 300);
    for (size_t i = 0; i < blocks * 4; i++)
      t += ALPHA[s.below(64)];
    t += k == 1 ? std::string(1, ALPHA[s.below(64)]) + "===" : "====";
  }
  c.note("%s", pbt::quote(t).c_str());
  c.nontrivial(!t.empty());
  c.label(k == 0 ? "no-digits" : "padding");
  Bytes back;
  ssize_t m;
  REQUIRE(!dec(B(t), back, m), "invalid-accepted", "%s decoded to %s",
          pbt::quote(t).c_str(), pbt::hex(back).c_str());
}
PROPERTY(C04, arbitrary, 4) {
  // any bytes: bounded output, never a fault, deterministic
  size_t n = s.length(300, 3000);
  Bytes b(n);
  int mode = (int)s.below(3);
  for (auto &x : b)
    x = mode == 0 ? s.byte()
        : mode == 1 ? (uint8_t)ALPHA[s.below(64)]
                    : (s.chance(15) ? (uint8_t)'=' : (uint8_t)ALPHA[s.below(64)]);
  c.note("%s", pbt::quote(S(b), 300).c_str());
  Bytes o1, o2;
  ssize_t n1, n2;
  bool k1 = dec(b, o1, n1), k2 = dec(b, o2, n2);
  c.nontrivial(n > 3);
  c.label(k1 ? "accepted" : "rejected");
  REQUIRE(k1 == k2 && o1 == o2, "nondeterministic", "two decodings differ");
  if (k1) {
    REQUIRE((size_t)n1 <= (n + 3) / 4 * 3, "too-long", "%zd bytes from %zu", n1, n);
    // complete pad-free alphabet text has exactly one meaning
    if (mode == 1 && n % 4 == 0 && n) {
      Bytes want;
      b64d(S(b), want);
      REQUIRE(o1 == want, "decode-value", "%s", pbt::quote(S(b), 200).c_str());
    }
  }
}

// ---------------------------------------------------------------------- C21
PROPERTY(C21, time_roundtrip, 5) {
  struct tm t = gen_tm(s, 1000, 9999);
  if (s.flip()) { // fields other than the calendar ones carry no meaning
    t.tm_isdst = s.range(-1, 1);
    t.tm_wday = s.range(0, 6);
  }
  std::string want = iso(t);
  char *p = serialize_time2str(&t);
  REQUIRE(p != nullptr, "time-null", "%s", want.c_str());
  std::string got = p;
  free(p);
  c.note("%s", want.c_str());
  c.nontrivial(t.tm_year != 70);
  REQUIRE(got == want, "time-text", "%s expected %s", got.c_str(), want.c_str());
  struct tm u;
  memset(&u, 0x5a, sizeof u);
  REQUIRE(serialize_str2time(got.c_str(), &u) == 0, "time-rejected", "%s",
          got.c_str());
  REQUIRE(iso(u) == want, "time-value", "%s read as %s", got.c_str(),
          iso(u).c_str());
  struct tm ref = tm_from(tm_to(t));
  REQUIRE(u.tm_wday == ref.tm_wday && u.tm_yday == ref.tm_yday, "time-derived",
          "%s: weekday %d yearday %d", got.c_str(), u.tm_wday, u.tm_yday);
}
PROPERTY(C21, time_rejects, 3) {
  int k;
  std::string t = bad_time(s, &k);
  c.note("%s", t.c_str());
  c.nontrivial();
  c.label(pbt::fmt("kind%d", k));
  struct tm u;
  REQUIRE(serialize_str2time(t.c_str(), &u) < 0, "bad-time-accepted",
          "%s read as %s", t.c_str(), iso(u).c_str());
}
PROPERTY(C21, boolean, 2) {
  static const std::vector<std::string> T = {
      "true", "false", "0", "1", "True", "FALSE", "tRuE", "2", "", "t", "truee",
      "fals", "falsee", "10", "01", "yes", "no", " true", "true ", "00", "11"};
  std::string t = s.chance(70) ? s.pick(T) : s.str("trueFALS01 ", s.size(8));
  std::string low;
  for (char ch : t)
    low += (char)tolower((unsigned char)ch);
  int want = low == "true" || t == "1" ? 1 : low == "false" || t == "0" ? 0 : -1;
  Raw r(B(t)); // not NUL terminated
  int got = serialize_str2bool((const char *)r.p, r.n);
  c.note("%s -> %d", pbt::quote(t).c_str(), got);
  c.nontrivial(!t.empty());
  c.label(pbt::fmt("%d", want));
  REQUIRE(got == want, "bool-value", "%s read as %d", pbt::quote(t).c_str(), got);
  if (want >= 0) {
    char *p = serialize_bool2str((bool)want);
    std::string back = p ? p : "<null>";
    free(p);
    REQUIRE(back == (want ? "true" : "false"), "bool-text", "%s", back.c_str());
  }
}
// the current time, as it goes into created-on, is the UTC instant
PROPERTY(C21, now_is_utc, 4) {
  static const std::vector<std::string> Z = {
      "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30",
      "<+14>-14", "<-11>11", "NPT-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
  std::string z = s.pick(Z);
  int64_t now = s.chance(20) ? (int64_t)s.below(100)
                             : (int64_t)s.below(4102444800ull); // to 2100
  pbt::clock_set(now);
  setenv("TZ", z.c_str(), 1);
  tzset();
  char *p = serialize_localtime();
  struct tm t;
  memset(&t, 0, sizeof t);
  int rc = get_localtime(&t);
  setenv("TZ", "UTC0", 1);
  tzset();
  std::string got = p ? p : "<null>";
  free(p);
  std::string want = iso(tm_from(now));
  c.note("TZ=%s now=%lld -> %s", z.c_str(), (long long)now, got.c_str());
  c.label(z);
  c.nontrivial(z != "UTC0");
  REQUIRE(rc == 0 && got == want && iso(t) == want, "now-not-utc",
          "at %s (TZ=%s) it says %s / %s", want.c_str(), z.c_str(), got.c_str(),
          iso(t).c_str());
}

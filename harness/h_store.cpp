// C01 voucher attribute store, C02 serialise/parse round trip.
#include "engine/env.hpp"
#include <cstring>
using namespace env;

static const enum VoucherAttributes ALL[11] = {
    ATTR_CREATED_ON,      ATTR_EXPIRES_ON,
    ATTR_ASSERTION,       ATTR_SERIAL_NUMBER,
    ATTR_IDEVID_ISSUER,   ATTR_PINNED_DOMAIN_CERT,
    ATTR_DOMAIN_CERT_REVOCATION_CHECKS, ATTR_NONCE,
    ATTR_LAST_RENEWAL_DATE, ATTR_PRIOR_SIGNED_VOUCHER_REQUEST,
    ATTR_PROXIMITY_REGISTRAR_CERT};
static int time_idx(int a) { return a == 0 ? 0 : a == 1 ? 1 : a == 8 ? 2 : -1; }
static int arr_idx(int a) {
  return a == 4 ? 0 : a == 5 ? 1 : a == 7 ? 2 : a == 9 ? 3 : a == 10 ? 4 : -1;
}

static std::string gen_anystr(Src &s, size_t maxlen) {
  size_t n = s.size(maxlen);
  std::string r;
  for (size_t i = 0; i < n; i++) {
    uint8_t b = s.chance(20) ? s.byte() : (uint8_t)s.range(0x20, 0x7e);
    r += (char)(b ? b : 1);
  }
  return r;
}

static void store_history(Src &s, Ctx &c) {
  // one or two records side by side, each with its own model
  struct Rec {
    VModel m;
    struct Voucher *v = nullptr;
    struct tm full[3];
    Rec() { memset(full, 0, sizeof full); }
  };
  int nrec = s.chance(30) ? 2 : 1;
  std::vector<Rec> recs((size_t)nrec);
  for (auto &r : recs) {
    r.v = init_voucher();
    REQUIRE(r.v != nullptr, "init", "init_voucher returned NULL");
  }
  auto check = [&](int step) {
    for (auto &r : recs) {
      std::string d = vdiff(r.v, r.m);
      REQUIRE(d.empty(), "store-mismatch", "after step %d, record %d: %s", step,
              (int)(&r - &recs[0]), d.c_str());
      for (int i = 0; i < 3; i++) {
        const struct tm *t = get_attr_time_voucher(r.v, TIME_ATTRS[i]);
        if (r.m.has_time[i])
          REQUIRE(memcmp(t, &r.full[i], sizeof *t) == 0, "time-not-exact",
                  "time attribute %d differs from the stored structure", i);
      }
    }
  };
  check(-1);
  int n = 1 + (int)s.length(24, 300), sets = 0, clears = 0, overwrites = 0, own = 0;
  for (int k = 0; k < n; k++) {
    Rec &rec = recs[nrec == 2 ? s.below(2) : 0];
    VModel &m = rec.m;
    struct Voucher *v = rec.v;
    struct tm *full = rec.full;
    size_t op = s.weighted({50, 15, 12, 12, 6, 6});
    int a = (int)s.below(11);
    int rc;
    if (op == 0) { // valid set, typed or generic
      bool generic = s.flip();
      int ti = time_idx(a), ai = arr_idx(a);
      if (ti >= 0) {
        struct tm t = gen_tm(s);
        t.tm_isdst = s.range(0, 1);
        if (m.has_time[ti] && s.chance(25)) { // one field differs
          t = full[ti];
          int *f[] = {&t.tm_sec, &t.tm_min, &t.tm_hour, &t.tm_mday, &t.tm_mon, &t.tm_year};
          int &x = *f[s.below(6)];
          x = x > 1 ? x - 1 : x + 1;
        }
        overwrites += m.has_time[ti];
        rc = generic ? set_attr_voucher(v, ALL[a], &t)
                     : set_attr_time_voucher(v, ALL[a], &t);
        m.has_time[ti] = true;
        m.time[ti] = full[ti] = t;
        memset(&t, 0xee, sizeof t); // the caller's copy may change afterwards
      } else if (ai >= 0) {
        Bytes b = gen_nonempty(s, s.chance(5) ? 5000 : 64);
        if (m.has_arr[ai] && s.chance(25)) { // almost the value it has
          b = m.arr[ai];
          size_t at = s.flip() ? b.size() - 1 : s.below(b.size());
          if (s.chance(70))
            b[at] ^= (uint8_t)(1 + s.below(255));
          else if (s.flip())
            b.push_back(s.flip() ? 0 : s.byte());
          else if (at)
            b.resize(at);
        }
        overwrites += m.has_arr[ai];
        BA x(b);
        rc = generic ? set_attr_voucher(v, ALL[a], &x.a)
                     : set_attr_array_voucher(v, ALL[a], x);
        memset(x.a.array, 0xee, x.a.length);
        m.has_arr[ai] = true;
        m.arr[ai] = b;
      } else if (a == 2) {
        int e = s.range(1, 3);
        overwrites += m.assertion != 0;
        rc = generic ? set_attr_voucher(v, ATTR_ASSERTION, e)
                     : set_attr_enum_voucher(v, ATTR_ASSERTION, e);
        m.assertion = e;
      } else if (a == 3) {
        std::string str = gen_anystr(s, s.chance(20) ? 127 : 24);
        if (m.has_serial && !m.serial.empty() && s.chance(25)) {
          str = m.serial;
          if (s.chance(60))
            str.back() = str.back() == 'q' ? 'r' : 'q';
          else if (s.flip() || str.size() == 127)
            str.pop_back();
          else
            str += 'x';
        }
        overwrites += m.has_serial;
        Raw r(B(str), true);
        rc = generic ? set_attr_voucher(v, ATTR_SERIAL_NUMBER, (char *)r.p)
                     : set_attr_str_voucher(v, ATTR_SERIAL_NUMBER,
                                            (const char *)r.p);
        if (r.n)
          memset(r.p, '!', r.n);
        m.has_serial = true;
        m.serial = str;
      } else {
        bool b = s.flip();
        rc = generic
                 ? set_attr_voucher(v, ALL[a], (int)b)
                 : set_attr_bool_voucher(v, ALL[a], b);
        m.drc = b;
      }
      sets++;
      c.note("set %s%s -> %d", ATTR_NAME[a], generic ? " (generic)" : "", rc);
      REQUIRE(rc == 0, "valid-set-refused", "setting %s returned %d",
              ATTR_NAME[a], rc);
    } else if (op == 1) { // clear
      rc = clear_attr_voucher(v, ALL[a]);
      c.note("clear %s", ATTR_NAME[a]);
      REQUIRE(rc == 0, "clear-refused", "clearing %s returned %d", ATTR_NAME[a],
              rc);
      int ti = time_idx(a), ai = arr_idx(a);
      if (ti >= 0)
        m.has_time[ti] = false;
      else if (ai >= 0)
        m.has_arr[ai] = false, m.arr[ai].clear();
      else if (a == 2)
        m.assertion = 0;
      else if (a == 3)
        m.has_serial = false, m.serial.clear();
      else
        m.drc = false;
      clears++;
    } else if (op == 2) { // attribute of another kind: refused, no effect
      int kind = (int)s.below(5);
      int ti = time_idx(a), ai = arr_idx(a);
      struct tm t = gen_tm(s);
      BA x(gen_nonempty(s, 16));
      int e = s.range(1, 3);
      bool own = false;
      switch (kind) {
        case 0:
          own = ti >= 0;
          rc = own ? -1 : set_attr_time_voucher(v, ALL[a], &t);
          if (!own)
            REQUIRE(!get_attr_time_voucher(v, ALL[a]), "wrong-kind-get",
                    "time getter accepted %s", ATTR_NAME[a]);
          break;
        case 1:
          own = ai >= 0;
          rc = own ? -1 : set_attr_array_voucher(v, ALL[a], x);
          if (!own)
            REQUIRE(!get_attr_array_voucher(v, ALL[a]), "wrong-kind-get",
                    "array getter accepted %s", ATTR_NAME[a]);
          break;
        case 2:
          own = a == 2;
          rc = own ? -1 : set_attr_enum_voucher(v, ALL[a], e);
          if (!own)
            REQUIRE(!get_attr_enum_voucher(v, ALL[a]), "wrong-kind-get",
                    "enum getter accepted %s", ATTR_NAME[a]);
          break;
        case 3:
          own = a == 3;
          rc = own ? -1 : set_attr_str_voucher(v, ALL[a], "abc");
          if (!own)
            REQUIRE(!get_attr_str_voucher(v, ALL[a]), "wrong-kind-get",
                    "string getter accepted %s", ATTR_NAME[a]);
          break;
        default:
          own = a == 6;
          rc = own ? -1 : set_attr_bool_voucher(v, ALL[a], true);
          if (!own)
            REQUIRE(!get_attr_bool_voucher(v, ALL[a]), "wrong-kind-get",
                    "bool getter accepted %s", ATTR_NAME[a]);
      }
      c.note("wrong kind %d for %s -> %d", kind, ATTR_NAME[a], rc);
      REQUIRE(rc < 0, "wrong-kind-accepted", "setter kind %d accepted %s", kind,
              ATTR_NAME[a]);
    } else if (op == 3) { // value out of range: refused, no effect
      int kind = (int)s.below(5);
      if (kind == 0) {
        int bad[] = {0, 4, -1, 5, 100, -100, INT32_MAX, INT32_MIN};
        int e = bad[s.below(8)];
        rc = s.flip() ? set_attr_enum_voucher(v, ATTR_ASSERTION, e)
                      : set_attr_voucher(v, ATTR_ASSERTION, e);
        c.note("assertion %d -> %d", e, rc);
      } else if (kind == 1) {
        size_t len = 128 + s.size(400);
        Raw r(Bytes(len, 'x'), true);
        rc = s.flip() ? set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, (const char *)r.p)
                      : set_attr_voucher(v, ATTR_SERIAL_NUMBER, (char *)r.p);
        c.note("serial of length %zu -> %d", len, rc);
      } else if (kind == 2) {
        rc = s.flip() ? set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, nullptr)
                      : set_attr_voucher(v, ATTR_SERIAL_NUMBER, (char *)nullptr);
        c.note("NULL serial -> %d", rc);
      } else if (kind == 3) {
        int ti = (int)s.below(3);
        rc = s.flip() ? set_attr_time_voucher(v, TIME_ATTRS[ti], nullptr)
                      : set_attr_voucher(v, TIME_ATTRS[ti], (struct tm *)nullptr);
        c.note("NULL time -> %d", rc);
      } else {
        int ai = (int)s.below(5);
        uint8_t one = 1;
        struct BinaryArray z = {nullptr, 0}, zl = {&one, 0}, zp = {nullptr, 5};
        struct BinaryArray *pz[4] = {&z, &zl, &zp, nullptr};
        struct BinaryArray *q = pz[s.below(4)];
        rc = s.flip() ? set_attr_array_voucher(v, ARR_ATTRS[ai], q)
                      : set_attr_voucher(v, ARR_ATTRS[ai], q);
        c.note("empty array -> %d", rc);
      }
      REQUIRE(rc < 0, "bad-value-accepted", "bad value kind %d accepted", kind);
    } else if (op == 5) { // a value of this or the other record is handed in
      Rec &from = recs[s.below((uint64_t)nrec)];
      size_t kind = s.below(3);
      rc = 0;
      if (kind == 0) {
        int d = (int)s.below(5), f = (int)s.below(5);
        if (from.m.has_arr[f]) {
          rc = set_attr_array_voucher(v, ARR_ATTRS[d],
                                      get_attr_array_voucher(from.v, ARR_ATTRS[f]));
          m.has_arr[d] = true;
          Bytes b = from.m.arr[f];
          m.arr[d] = b;
          own++;
        }
      } else if (kind == 1) {
        int d = (int)s.below(3), f = (int)s.below(3);
        if (from.m.has_time[f] && (d != f || &from != &rec)) {
          rc = set_attr_time_voucher(v, TIME_ATTRS[d],
                                     get_attr_time_voucher(from.v, TIME_ATTRS[f]));
          m.has_time[d] = true;
          m.time[d] = from.m.time[f];
          full[d] = from.full[f];
          own++;
        }
      } else if (from.m.has_serial) {
        rc = set_attr_str_voucher(v, ATTR_SERIAL_NUMBER,
                                  *get_attr_str_voucher(from.v, ATTR_SERIAL_NUMBER));
        m.has_serial = true;
        std::string t = from.m.serial;
        m.serial = t;
        own++;
      }
      c.note("stored value handed in, kind %zu -> %d", kind, rc);
      REQUIRE(rc == 0, "valid-set-refused", "a stored value was refused: %d", rc);
    } else { // unknown attribute / no voucher
      auto u = (enum VoucherAttributes)(s.flip() ? 11 + (int)s.below(50) : 11);
      BA x(gen_nonempty(s, 8));
      struct tm t = gen_tm(s);
      REQUIRE(set_attr_array_voucher(v, u, x) < 0 &&
                  set_attr_time_voucher(v, u, &t) < 0 &&
                  set_attr_enum_voucher(v, u, 1) < 0 &&
                  set_attr_bool_voucher(v, u, true) < 0 &&
                  set_attr_str_voucher(v, u, "x") < 0 &&
                  set_attr_voucher(v, u, 1) < 0,
              "unknown-accepted", "attribute %d accepted", (int)u);
      REQUIRE(!is_attr_voucher_nonempty(v, u), "unknown-nonempty",
              "attribute %d reported non-empty", (int)u);
      REQUIRE(set_attr_str_voucher(nullptr, ATTR_SERIAL_NUMBER, "x") < 0 &&
                  clear_attr_voucher(nullptr, ATTR_NONCE) < 0 &&
                  !get_attr_str_voucher(nullptr, ATTR_SERIAL_NUMBER) &&
                  set_attr_time_voucher(nullptr, ATTR_CREATED_ON, &t) < 0 &&
                  set_attr_enum_voucher(nullptr, ATTR_ASSERTION, 1) < 0 &&
                  set_attr_bool_voucher(nullptr, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, true) < 0 &&
                  set_attr_array_voucher(nullptr, ATTR_NONCE, x) < 0 &&
                  !get_attr_time_voucher(nullptr, ATTR_CREATED_ON) &&
                  !get_attr_enum_voucher(nullptr, ATTR_ASSERTION) &&
                  !get_attr_bool_voucher(nullptr, ATTR_DOMAIN_CERT_REVOCATION_CHECKS) &&
                  !get_attr_array_voucher(nullptr, ATTR_NONCE),
              "null-accepted", "a NULL voucher was accepted");
    }
    check(k);
  }
  c.label(nrec == 2 ? "two-records" : "one-record");
  if (own)
    c.label("stored-value");
  if (overwrites)
    c.label("has-overwrite");
  if (clears)
    c.label("has-clear");
  c.nontrivial(sets >= 2 && (overwrites || clears));
  for (auto &r : recs)
    free_voucher(r.v);
}

PROPERTY(C01, history, 8) { store_history(s, c); }

// Whatever happened to a voucher, releasing it gives back all its memory.
PROPERTY(C01, release, 2) {
  struct In {
    int op, a;
    Bytes b;
  };
  std::vector<In> ops;
  int n = 1 + (int)s.size(10);
  int dup = 0;
  bool seen[11] = {};
  for (int i = 0; i < n; i++) {
    In x;
    x.op = (int)s.below(4);
    x.a = s.pick(std::vector<int>{3, 4, 5, 7, 9, 10});
    x.b = gen_nonempty(s, 40);
    for (auto &y : x.b)
      y = y ? y : 1;
    dup += x.op && seen[x.a];
    if (x.op)
      seen[x.a] = true;
    ops.push_back(x);
  }
  BA hold[1];
  int64_t before = pbt::live_blocks();
  {
    struct Voucher *v = init_voucher();
    for (auto &x : ops) {
      if (x.op == 0)
        clear_attr_voucher(v, ALL[x.a]);
      else if (x.a == 3) {
        Raw r(x.b, true);
        (void)!set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, (char *)r.p);
      } else {
        BA y(x.b);
        (void)!set_attr_array_voucher(v, ALL[x.a], y);
      }
    }
    free_voucher(v);
  }
  int64_t after = pbt::live_blocks();
  c.nontrivial(dup > 0);
  if (dup)
    c.label("overwrite");
  REQUIRE(after == before, "leak",
          "%lld block(s) still allocated after releasing the voucher",
          (long long)(after - before));
}

// ---------------------------------------------------------------------- C02
static std::string take_str(char *p) {
  std::string r = p ? p : "";
  free(p);
  return r;
}
static void roundtrip(Src &s, Ctx &c, const VModel &m) {
  c.note("voucher %s", vdesc(m).c_str());
  struct Voucher *v = vbuild(m);
  std::string d0 = vdiff(v, m);
  REQUIRE(d0.empty(), "build", "%s", d0.c_str());
  char *js = serialize_voucher(v);
  REQUIRE(js != nullptr, "serialize-null", "serialize_voucher returned NULL");
  std::string txt = take_str(js), err;
  std::string d1 = vdiff(v, m);
  REQUIRE(d1.empty(), "serialize-changed", "serialising changed it: %s",
          d1.c_str());
  free_voucher(v);
  VModel seen;
  REQUIRE(vmodel_from_json(txt, seen, &err), "not-valid-json", "%s in %s",
          err.c_str(), pbt::quote(txt, 400).c_str());
  struct Voucher *mv = vbuild(seen);
  std::string d2 = vdiff(mv, m);
  free_voucher(mv);
  REQUIRE(d2.empty(), "json-content", "document says: %s (%s)", d2.c_str(),
          pbt::quote(txt, 300).c_str());
  Raw r(B(txt));
  struct Voucher *w = deserialize_voucher(r.p, r.n);
  REQUIRE(w != nullptr, "own-output-rejected", "%s",
          pbt::quote(txt, 400).c_str());
  std::string d3 = vdiff(w, m);
  REQUIRE(d3.empty(), "roundtrip", "parsed back: %s", d3.c_str());
  std::string again = take_str(serialize_voucher(w));
  free_voucher(w);
  REQUIRE(again == txt, "unstable", "second serialisation differs: %s vs %s",
          pbt::quote(again, 200).c_str(), pbt::quote(txt, 200).c_str());
}

PROPERTY(C02, roundtrip, 8) {
  VModel m = gen_vmodel(s, 300);
  int na = 0;
  for (int i = 0; i < 5; i++)
    na += m.has_arr[i];
  for (int i = 0; i < 3; i++)
    na += m.has_time[i];
  na += (m.assertion != 0) + m.has_serial;
  c.label(pbt::fmt("attrs-%02d", na));
  c.nontrivial(na >= 3);
  roundtrip(s, c, m);
}
// serial numbers with characters that JSON must escape
PROPERTY(C02, special_serial, 3) {
  VModel m = gen_vmodel(s, 40);
  m.has_serial = true;
  m.serial.clear();
  size_t n = 1 + s.size(30);
  static const std::vector<std::string> P = {
      "\"", "\\", "/", "{", "}", "[", "]", ":", ",", " ", "a", "Z", "0",
      "\\n", "\\u0041", "\"}", "\",\"nonce\":\"AAAA"};
  for (size_t i = 0; i < n && m.serial.size() < 100; i++)
    m.serial += s.pick(P);
  if (s.chance(20))
    m.serial += gen_unicode(s, 3);
  if (s.chance(20))
    m.serial += s.pick(std::vector<std::string>{"\t", "\n", "\r", "\b", "\f", "\x01", "\x1f"});
  c.nontrivial(m.serial.find_first_of("\"\\") != std::string::npos);
  c.label("special");
  roundtrip(s, c, m);
}
// every size around the base64 block and growth boundaries
PROPERTY(C02, sizes, 1) {
  VModel m;
  int i = (int)s.below(5);
  m.has_arr[i] = true;
  m.arr[i] = s.bytes(1 + (size_t)s.below(s.chance(2) ? 70000 : 600));
  m.drc = s.flip();
  c.label("one-array");
  c.nontrivial();
  roundtrip(s, c, m);
}

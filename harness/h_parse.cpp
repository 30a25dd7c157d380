// C03 parsing of untrusted voucher documents.
#include "engine/env.hpp"
#include <algorithm>
#include <cstring>
using namespace env;

static struct Voucher *parse(const std::string &t) {
  Raw r(B(t));
  return deserialize_voucher(r.p, r.n);
}
static std::string dump(struct Voucher *v) {
  char *p = serialize_voucher(v);
  std::string r = p ? p : "<null>";
  free(p);
  return r;
}

// A document as key/value texts, so that order, spacing and spelling vary.
struct Doc {
  std::string root = "ietf-voucher:voucher";
  std::vector<std::pair<std::string, std::string>> kv; // key, value text
};
static int esc_rate; // how many characters are written as escapes, percent
static std::string esc_some(Src &s, const std::string &in) {
  std::string r = "\"";
  for (size_t i = 0; i < in.size(); i++) {
    unsigned char ch = (unsigned char)in[i];
    bool must = ch == '"' || ch == '\\' || ch < 0x20;
    if (ch < 0x80 && (must || (esc_rate && s.chance(esc_rate)))) {
      static const std::string SH = "\"\\/\b\f\n\r\t", SL = "\"\\/bfnrt";
      size_t k = SH.find((char)ch);
      if (k != std::string::npos && (must ? !s.chance(20) : s.flip()))
        r += "\\" + SL.substr(k, 1);
      else
        r += pbt::fmt(s.flip() ? "\\u%04x" : "\\u%04X", ch);
    } else if (ch >= 0xC2 && esc_rate && s.chance(esc_rate)) {
      // a UTF-8 sequence as \u escapes
      int n = ch >= 0xF0 ? 3 : ch >= 0xE0 ? 2 : 1;
      uint32_t cp = n == 3 ? ch & 7u : n == 2 ? ch & 15u : ch & 31u;
      bool ok = i + (size_t)n < in.size();
      for (int j = 1; ok && j <= n; j++)
        if (((unsigned char)in[i + (size_t)j] & 0xC0) != 0x80)
          ok = false;
        else
          cp = cp << 6 | ((unsigned char)in[i + (size_t)j] & 0x3Fu);
      if (!ok || (cp >= 0xD800 && cp < 0xE000) || cp > 0x10FFFF) {
        r += (char)ch;
        continue;
      }
      if (cp >= 0x10000)
        r += pbt::fmt("\\u%04X\\u%04x", 0xD800 + ((cp - 0x10000) >> 10),
                      0xDC00 + ((cp - 0x10000) & 0x3FF));
      else
        r += pbt::fmt("\\u%04X", cp);
      i += (size_t)n;
    } else
      r += (char)ch;
  }
  return r + "\"";
}
static Doc doc_of(Src &s, const VModel &m) {
  Doc d;
  auto add = [&](int a, const std::string &v) {
    d.kv.push_back({ATTR_NAME[a], v});
  };
  static const int TN[3] = {0, 1, 8}, AN[5] = {4, 5, 7, 9, 10};
  for (int i = 0; i < 3; i++)
    if (m.has_time[i])
      add(TN[i], esc_some(s, iso(m.time[i])));
  if (m.assertion)
    add(2, esc_some(s, ASSERT_NAME[m.assertion]));
  if (m.has_serial)
    add(3, esc_some(s, m.serial));
  for (int i = 0; i < 5; i++)
    if (m.has_arr[i])
      add(AN[i], esc_some(s, b64(m.arr[i])));
  if (m.drc || s.flip())
    add(6, m.drc ? "true" : "false");
  for (size_t i = d.kv.size(); i > 1; i--) // shuffle
    std::swap(d.kv[i - 1], d.kv[s.below(i)]);
  return d;
}
static std::string ws(Src &s, int p) {
  std::string r;
  while (p && s.chance(p) && r.size() < 4)
    r += " \t\n\r"[s.below(4)];
  return r;
}
static std::string render(Src &s, const Doc &d, int p) {
  std::string r = ws(s, p) + "{" + ws(s, p) + esc_some(s, d.root) + ws(s, p) +
                  ":" + ws(s, p) + "{";
  for (size_t i = 0; i < d.kv.size(); i++)
    r += (i ? "," : "") + ws(s, p) + esc_some(s, d.kv[i].first) + ws(s, p) +
         ":" + ws(s, p) + d.kv[i].second + ws(s, p);
  return r + "}" + ws(s, p) + "}" + ws(s, p);
}

// well formed documents are accepted and read faithfully
PROPERTY(C03, wellformed, 4) {
  VModel m = gen_vmodel(s, 100);
  if (m.has_serial && s.chance(20)) {
    m.serial += s.pick(std::vector<std::string>{"\"", "\\", "\n", "/", "\t"});
    if (m.serial.size() > 127)
      m.serial = m.serial.substr(0, 127);
  } else if (m.has_serial && s.chance(15))
    m.serial = gen_unicode(s, 31);
  esc_rate = s.pick(std::vector<int>{0, 0, 5, 40});
  Doc d = doc_of(s, m);
  int sp = s.pick(std::vector<int>{0, 20, 60});
  std::string t = render(s, d, sp);
  c.note("%s", pbt::quote(t, 500).c_str());
  c.nontrivial(d.kv.size() >= 3);
  c.label(esc_rate ? "escapes" : "plain");
  c.label(sp ? "spaced" : "compact");
  struct Voucher *v = parse(t);
  REQUIRE(v != nullptr, "valid-rejected", "%s", pbt::quote(t, 500).c_str());
  std::string e = vdiff(v, m);
  free_voucher(v);
  REQUIRE(e.empty(), "misread", "%s from %s", e.c_str(),
          pbt::quote(t, 400).c_str());
}

// documents that must be refused
PROPERTY(C03, malformed, 6) {
  VModel m = gen_vmodel(s, 60);
  if (!m.has_serial && !m.has_arr[2])
    m.has_serial = true, m.serial = "S1";
  esc_rate = s.pick(std::vector<int>{0, 0, 0, 30});
  Doc d = doc_of(s, m);
  std::string what, t;
  size_t at = d.kv.empty() ? 0 : s.below(d.kv.size());
  auto put = [&](const std::string &k, const std::string &v) {
    for (auto &e : d.kv)
      if (e.first == k) {
        e.second = v;
        return;
      }
    d.kv.insert(d.kv.begin() + (long)at, {k, v});
  };
  int kind = (int)s.below(10);
  int sp = s.pick(std::vector<int>{0, 0, 30});
  static const int TN[3] = {0, 1, 8}, AN[5] = {4, 5, 7, 9, 10};
  switch (kind) {
    case 0: {
      what = "truncated";
      t = render(s, d, sp);
      size_t e = t.find_last_of('}'); // drop at least the last brace
      t = t.substr(0, s.below(e + 1));
      break;
    }
    case 1: {
      what = "unknown key";
      std::string k = s.pick(std::vector<std::string>{
          "nonce2", "created_on", "x", "Nonce", "serialnumber", "", "nonc",
          "serial-numbers", "created-o", "assertion ", "ietf-voucher:voucher"});
      d.kv.insert(d.kv.begin() + (long)at, {k, "\"AAAA\""});
      break;
    }
    case 2: {
      what = "bad date";
      put(ATTR_NAME[TN[s.below(3)]],
          s.flip() ? json_quote(bad_time(s)) : s.pick(std::vector<std::string>{
              "\"yesterday\"", "\"\"", "\"2023-13-01T00:00:00Z\"",
              "\"2023-01-32T00:00:00Z\"", "\"2023-01-01T25:00:00Z\"",
              "\"2023-01-01T00:61:00Z\"", "\"2023-01-01 00:00:00Z\"",
              "\"2023-01-01\"", "\"20230101T000000Z\"", "\"T\"",
              "\"2023-01-01T00:00:00\"", "\"2023/01/01T00:00:00Z\"",
              "\"2023-01-01T00:00:00Zjunk\"", "\"2023-01-01T00:00:00Z \"",
              "\"2023-01-01T00:00:00ZZ\"", "\"2023-01-01T00:00:00+00:00\"",
              "\"2023-01-01T00:00:00Z\\n\"", "\"2023-01-01T00:00:00z\"",
              "\"2023-01-01T00:00:00.000Z\"", "\"2023-01-01T00:00:99Z\"",
              "\"2023-01-01T00:00:00\\u0000\""}));
      break;
    }
    case 3: {
      what = "bad assertion";
      put("assertion",
          s.pick(std::vector<std::string>{
              "\"\"", "\"prox\"", "\"Proximity\"", "\"proximity2\"",
              "\"loggedd\"", "\"verifie\"", "\"none\"", "\"verified logged\"",
              "\"1\""}));
      break;
    }
    case 4: {
      what = "serial too long";
      put("serial-number",
          "\"" + std::string(128 + s.size(300), 'a') + "\"");
      break;
    }
    case 5: {
      what = "bad base64";
      put(ATTR_NAME[AN[s.below(5)]],
          s.pick(std::vector<std::string>{"\"\"", "\"!!!!\"", "\"A===\"",
                                          "\"====\"", "\"*\"", "\"$%&\"",
                                          "\"AAAAA===\""}));
      break;
    }
    case 6: {
      what = "bad boolean";
      put("domain-cert-revocation-checks",
          s.pick(std::vector<std::string>{"\"maybe\"", "\"\"", "\"truee\"",
                                          "\"fals\"", "\"yes\"", "\"2\"",
                                          "\"10\"", "\"tru\""}));
      break;
    }
    case 7: {
      what = "wrong root";
      d.root = s.pick(std::vector<std::string>{
          "ietf-voucher:vouchers", "voucher", "ietf-voucher-request:voucher",
          "", "ietf-voucher", "i", "ietf-voucher:vouche",
          "Ietf-voucher:voucher"});
      if (s.chance(40)) { // the voucher is no member of the document itself
        what = "inner root";
        d.root = "ietf-voucher:voucher";
        t = render(s, d, sp);
        std::string k = s.pick(std::vector<std::string>{"x", "", "voucher", "ietf-voucher:vouchers"}), b = t.substr(t.find('{') + 1);
        b = b.substr(b.find('{'), b.rfind('}') - b.find('{'));
        switch (s.below(5)) {
          case 0: t = "{\"" + k + "\":" + t + "}"; break;
          case 1: t = "{\"" + k + "\":[" + t + "]}"; break;
          case 2: t = "{\"" + k + "\":[\"ietf-voucher:voucher\"," + b + "]}"; break;
          case 3: t = "{\"a\":{\"" + k + "\":" + t + "}}"; break;
          default: t = "{\"a\":1,\"" + k + "\":" + t + ",\"c\":[]}";
        }
      }
      break;
    }
    case 8: {
      what = "root not an object";
      t = "{\"ietf-voucher:voucher\":" +
          s.pick(std::vector<std::string>{"\"abc\"", "1", "null", "true",
                                          "[]", "[{}]", "\"\""}) +
          "}";
      if (s.chance(30))
        t = s.pick(std::vector<std::string>{
            "", "[]", "\"ietf-voucher:voucher\"", "{}", "1", "null",
            "[{\"ietf-voucher:voucher\":{}}]", "{\"a\":{}}", " ", "{",
            "{\"ietf-voucher:voucher\"}"});
      break;
    }
    default: {
      what = "nested value";
      int a = s.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10});
      put(ATTR_NAME[a], s.pick(std::vector<std::string>{
                            "{\"nonce\":\"AAAA\"}", "[\"AAAA\"]",
                            "{\"a\":\"b\"}", "[]", "{}", "[[1,2],3]"}));
    }
  }
  if (t.empty() && kind != 0 && kind != 8)
    t = render(s, d, sp);
  c.note("%s: %s", what.c_str(), pbt::quote(t, 500).c_str());
  c.label(what);
  c.nontrivial();
  struct Voucher *v = parse(t);
  std::string got = v ? dump(v) : "";
  free_voucher(v);
  REQUIRE(v == nullptr, "malformed-accepted", "%s: %s read as %s",
          what.c_str(), pbt::quote(t, 400).c_str(), pbt::quote(got, 200).c_str());
}

// any bytes: no fault, and the outcome depends on the given bytes only
static void arbitrary(Src &s, Ctx &c, Bytes t) {
  c.note("%s", pbt::quote(S(t), 400).c_str());
  struct Voucher *v = parse(S(t));
  c.label(v ? "accepted" : "rejected");
  // the same bytes followed by something else in memory
  Bytes u = t;
  u.insert(u.end(), {'"', '}', '}', '}', 'A', 'A', 'A', 'A', '0', 0});
  Raw r(u);
  struct Voucher *w = deserialize_voucher(r.p, t.size());
  std::string a = v ? dump(v) : "rejected", b = w ? dump(w) : "rejected";
  REQUIRE(a == b, "reads-beyond", "%s vs %s for %s", pbt::quote(a, 200).c_str(),
          pbt::quote(b, 200).c_str(), pbt::quote(S(t), 300).c_str());
  free_voucher(w);
  // what a strict reader of the format understands is read the same way
  VModel m;
  if (vmodel_from_json(S(t), m, nullptr)) {
    bool dom = !m.has_serial || (m.serial.size() <= 127 && !m.serial.empty() &&
                                 m.serial.find('\0') == std::string::npos);
    for (int i = 0; i < 5; i++)
      dom = dom && (!m.has_arr[i] || !m.arr[i].empty());
    if (dom) {
      c.label("understood");
      REQUIRE(v != nullptr, "valid-rejected", "%s",
              pbt::quote(S(t), 500).c_str());
      std::string e = vdiff(v, m);
      REQUIRE(e.empty(), "misread", "%s from %s", e.c_str(),
              pbt::quote(S(t), 400).c_str());
    }
  }
  if (v && a != "<null>") { // what was accepted is a voucher like any other
    std::string e;
    struct Voucher *x = parse(a);
    REQUIRE(x != nullptr, "accepted-not-stable", "%s then %s",
            pbt::quote(S(t), 300).c_str(), pbt::quote(a, 300).c_str());
    std::string a2 = dump(x);
    free_voucher(x);
    REQUIRE(a2 == a, "accepted-not-stable", "%s then %s",
            pbt::quote(a, 200).c_str(), pbt::quote(a2, 200).c_str());
  }
  free_voucher(v);
}
PROPERTY(C03, mutated, 8) {
  VModel m = gen_vmodel(s, 30);
  esc_rate = s.pick(std::vector<int>{0, 0, 20});
  Doc d = doc_of(s, m);
  // duplicate / nested / odd members
  if (s.chance(30) && !d.kv.empty())
    d.kv.push_back(s.pick(d.kv));
  if (s.chance(20))
    for (int i = 0; i < 12; i++)
      d.kv.push_back({"nonce", "\"AAAA\""});
  std::string t = render(s, d, s.pick(std::vector<int>{0, 30}));
  Bytes b = B(t);
  int n = 1 + (int)s.size(6);
  static const std::string TOK = "{}[]\":,\\=0 \nunte-Z";
  for (int i = 0; i < n && !b.empty(); i++) {
    size_t p = s.below(b.size());
    switch (s.below(6)) {
      case 0: b[p] = s.byte(); break;
      case 1: b[p] = (uint8_t)TOK[s.below(TOK.size())]; break;
      case 2: b.erase(b.begin() + (long)p); break;
      case 3: b.insert(b.begin() + (long)p, (uint8_t)TOK[s.below(TOK.size())]); break;
      case 4: b.resize(p); break;
      default: {
        size_t q = s.below(b.size()), l = std::min<size_t>(1 + s.size(30), b.size() - q);
        Bytes part(b.begin() + (long)q, b.begin() + (long)(q + l));
        b.insert(b.begin() + (long)p, part.begin(), part.end());
      }
    }
  }
  c.nontrivial(b.size() > 20);
  arbitrary(s, c, b);
}
PROPERTY(C03, grammar, 4) {
  // random token soup, including deep nesting and partial tokens
  static const std::vector<std::string> T = {
      "{", "}", "[", "]", ",", ":", "\"", "\\", "\"nonce\"", "\"serial-number\"",
      "\"assertion\"", "\"proximity\"", "\"ietf-voucher:voucher\"", "{\"ietf-voucher:voucher\":{",
      "\"created-on\":\"2023-02-03T04:05:06Z\"", "\"AAAA\"", "\"A===\"", "true",
      "false", "null", "1", "\"domain-cert-revocation-checks\":", "\"\\u0041\"",
      "\"\\u00", "\"ietf\"", "\"\"", " ", "\x80", "}}", "\"pinned-domain-cert\":\"QUJD\""};
  std::string t;
  if (s.chance(70))
    t = "{\"ietf-voucher:voucher\":{";
  int n = 1 + (int)s.size(25);
  for (int i = 0; i < n; i++)
    t += s.pick(T);
  if (s.chance(60))
    t += "}}";
  c.nontrivial(n > 4);
  arbitrary(s, c, B(t));
}
PROPERTY(C03, bytes, 1) {
  Bytes b = s.bytes(s.size(200));
  c.nontrivial(b.size() > 4);
  arbitrary(s, c, b);
}

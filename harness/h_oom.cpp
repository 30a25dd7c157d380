// C24: running out of memory.  Every operation is run once with memory to
// count its allocations, then again and again with one allocation failing, or
// all of them from one point on, and once more with memory.  Under a failure
// the operation must report failure or give the very result it gives with
// memory; what it refuses with memory it must go on refusing.
#include "harness/estate.hpp"
#include <climits>
#include <functional>
#include <openssl/err.h>
#include <sys/stat.h>
using namespace estate;

namespace {
// one run of an operation under a failure plan
struct Run {
  int scope = 3;
  int64_t from = 0, to = 0; // which allocations fail; 0: none
  int64_t count = 0, failed = 0;
  std::string broken; // a violated clause
  // the library call; an exception out of a C++ function reports failure
  bool threw = false;
  template <class F> void call(F f) {
    pbt::oom_arm(scope, from, to);
    try {
      f();
    } catch (const std::exception &) {
      threw = true;
    }
    pbt::oom_disarm();
    count += pbt::oom_count();
    failed += pbt::oom_failed();
  }
  void check(bool ok, const std::string &w) {
    if (!ok && broken.empty())
      broken = w;
  }
};
const std::string FAIL = "FAIL";
typedef std::function<std::string(Run &)> Op; // result text, FAIL on failure
std::string hx(const Bytes &b) { return std::to_string(b.size()) + ":" + pbt::hex(b, 4096); }
std::string hx(const void *p, size_t n) { return hx(Bytes((const uint8_t *)p, (const uint8_t *)p + n)); }
std::string owned(char *p) { // a string handed out
  if (!p)
    return FAIL;
  std::string r = "=" + std::string(p);
  free(p);
  return r;
}
std::string owned(struct BinaryArray *a) {
  return a ? "=" + hx(take(a)) : FAIL;
}
std::string owned_out(ssize_t n, uint8_t *p) { // length and buffer handed out
  std::string r = n < 0 ? FAIL : "=" + hx(p, (size_t)n);
  free(p);
  return r;
}
std::string signed_text(const Bytes &m) { // what a signed message says
  CmsInfo i = cms_info(m);
  std::string r = pbt::fmt("=%d%d%d signers %zu", i.ok, i.attached, i.sig_ok, i.signers.size());
  for (auto &x : i.signers)
    r += " " + hx(x);
  auto cs = i.certs;
  std::sort(cs.begin(), cs.end());
  for (auto &x : cs)
    r += " cert " + hx(x);
  return r + " content " + S(i.content);
}
std::string list_text(const BinaryArrayList *l) {
  if (!l)
    return " nolist";
  std::string r = " list";
  for (auto &i : items(l))
    r += " " + hx(i.first) + "/" + std::to_string(i.second);
  return r;
}
std::string set_text(const BinaryArrayList *l) {
  if (!l)
    return " nolist";
  std::vector<std::string> v;
  for (auto &i : items(l))
    v.push_back(hx(i.first));
  std::sort(v.begin(), v.end());
  std::string r = " set";
  for (auto &x : v)
    r += " " + x;
  return r;
}
std::string cert_text(const Bytes &d) { // all but the signature value
  auto x = parse_cert(d);
  if (!x)
    return "=no certificate";
  std::string r = "=";
  auto name = [&](X509_NAME *n) {
    for (auto &kv : get_name(n))
      r += kv.first + "=" + kv.second + ";";
    r += "|";
  };
  name(X509_get_subject_name(x.get()));
  name(X509_get_issuer_name(x.get()));
  unsigned char *o = nullptr;
  int n = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x.get()), &o);
  r += hx(o, (size_t)n);
  OPENSSL_free(o);
  const ASN1_INTEGER *sn = X509_get0_serialNumber(x.get());
  r += "|" + hx(sn->data, (size_t)sn->length);
  for (auto t : {X509_get0_notBefore(x.get()), X509_get0_notAfter(x.get())})
    r += "|" + std::string((const char *)t->data, (size_t)t->length);
  for (int i = 0; i < X509_get_ext_count(x.get()); i++) {
    auto e = X509_get_ext(x.get(), i);
    char b[80];
    OBJ_obj2txt(b, sizeof b, X509_EXTENSION_get_object(e), 1);
    auto v = X509_EXTENSION_get_data(e);
    r += "|" + std::string(b) + hx(v->data, (size_t)v->length);
  }
  return r;
}
std::string meta_text(const struct crypto_cert_meta &m) {
  std::string r = pbt::fmt("=%llx %ld %ld", (unsigned long long)m.serial_number, m.not_before, m.not_after);
  for (auto l : {m.issuer, m.subject}) {
    r += " |";
    struct keyvalue_list *el;
    dl_list_for_each(el, &l->list, struct keyvalue_list, list) r += std::string(" ") + el->key + "=" + el->value;
  }
  return r;
}
} // namespace

// runs op under many failure plans.  OpenSSL's own signing code double-frees and
// ignores failures of its own allocations, so operations that sign only see
// failing allocations of the library; what others hand out in OpenSSL's encoding
// is not judged when an allocation of OpenSSL failed.
static void explore(Src &s, Ctx &c, const std::string &name, const Op &op, int scope, int budget,
                    bool produces = false) {
  uint64_t rng = rng_state();
  auto run = [&](Run &r) {
    rng_restore(rng);
    ERR_clear_error();
    std::string t = op(r);
    if (r.threw)
      t = FAIL;
    REQUIRE(r.broken.empty(), "inconsistent", "%s: %s (allocations %lld to %lld of %lld failed)", name.c_str(),
            r.broken.c_str(), (long long)r.from, (long long)r.to, (long long)r.count);
    return t;
  };
  Run r0;
  r0.scope = scope;
  std::string want = run(r0);
  int64_t n = r0.count;
  c.label(name);
  c.note("%s: %lld allocations, result %s", name.c_str(), (long long)n, pbt::quote(want, 160).c_str());
  c.label(want == FAIL ? "refused" : "done");
  if (n == 0)
    return;
  int done = 0, failed = 0;
  // each plan: where the failures begin, and whether memory comes back
  std::vector<std::pair<int64_t, bool>> plans;
  if (2 * n <= budget)
    for (int64_t i = 1; i <= n; i++)
      plans.push_back({i, false}), plans.push_back({i, true});
  else
    for (int i = 0; i < budget; i++)
      plans.push_back({1 + (int64_t)s.below((uint64_t)n), s.chance(30)});
  for (auto &p : plans) {
    Run r;
    r.scope = scope;
    r.from = p.first;
    r.to = p.second ? INT64_MAX : p.first + 1;
    std::string got = run(r);
    done++;
    failed += got == FAIL;
    bool judged = want == FAIL || !produces || !(scope & 2);
    REQUIRE(got == FAIL || got == want || !judged, want == FAIL ? "accepted-without-memory" : "wrong-without-memory",
            "%s with allocation %lld%s of %lld failing gives %s, with memory %s", name.c_str(), (long long)p.first,
            p.second ? " and all later ones" : "", (long long)n, pbt::quote(got, 300).c_str(),
            pbt::quote(want, 300).c_str());
  }
  Run r1;
  r1.scope = scope;
  std::string again = run(r1);
  REQUIRE(again == want, "not-recovered", "%s after the failures gives %s, before %s", name.c_str(),
          pbt::quote(again, 300).c_str(), pbt::quote(want, 300).c_str());
  c.units = (uint64_t)done + 2;
  c.nontrivial(done > 0);
  c.label(failed ? "some-plans-failed" : "all-plans-survived");
}
static int sc(Src &s) { return s.pick(std::vector<int>{1, 1, 2, 3}); }

// --------------------------------------------------------- lists and helpers
PROPERTY(C24, lists, 8) {
  int k = 1 + (int)s.size(6);
  std::vector<std::pair<Bytes, int>> in;
  for (int i = 0; i < k; i++)
    in.push_back({gen_nonempty(s, 40), s.range(0, 3)});
  std::vector<std::unique_ptr<Raw>> raw;
  for (auto &i : in)
    raw.emplace_back(new Raw(i.first));
  std::vector<std::pair<std::string, std::string>> kv;
  for (int i = 0; i < k; i++)
    kv.push_back({s.str("abcdef", 1 + s.size(8)), s.str("abc\"\\\n x", s.size(20))});
  switch (s.below(3)) {
  case 0:
    explore(s, c, "array-list", [&](Run &r) {
      struct BinaryArrayList *l = nullptr;
      std::vector<int> rc(in.size(), -1);
      r.call([&] {
        l = init_array_list();
        for (size_t i = 0; l && i < in.size(); i++)
          rc[i] = push_array_list(l, raw[i]->p, raw[i]->n, in[i].second);
      });
      if (!l)
        return FAIL;
      bool all = true;
      std::vector<std::pair<Bytes, int>> want;
      for (size_t i = 0; i < in.size(); i++)
        if (rc[i] == 0)
          want.push_back(in[i]);
        else
          all = false;
      r.check(items(l) == want, "the list does not hold exactly the accepted items");
      std::string t = list_text(l);
      free_array_list(l);
      return all ? t : FAIL;
    }, 1, 60);
    break;
  case 1:
    explore(s, c, "keyvalue-list", [&](Run &r) {
      struct keyvalue_list *l = nullptr;
      std::vector<int> rc(kv.size(), -1);
      r.call([&] {
        l = init_keyvalue_list();
        for (size_t i = 0; l && i < kv.size(); i++)
          rc[i] = push_keyvalue_list(l, (char *)kv[i].first.c_str(), (char *)kv[i].second.c_str());
      });
      if (!l)
        return FAIL;
      std::vector<std::pair<std::string, std::string>> want, got;
      bool all = true;
      for (size_t i = 0; i < kv.size(); i++)
        if (rc[i] == 0)
          want.push_back(kv[i]);
        else
          all = false;
      struct keyvalue_list *el;
      dl_list_for_each(el, &l->list, struct keyvalue_list, list) got.push_back({el->key, el->value});
      r.check(got == want, "the list does not hold exactly the accepted pairs");
      free_keyvalue_list(l);
      return all ? std::string("=all") : FAIL;
    }, 1, 60);
    break;
  default: {
    struct keyvalue_list *l = init_keyvalue_list();
    for (auto &e : kv) {
      std::string v = json_quote(e.second);
      push_keyvalue_list(l, (char *)e.first.c_str(), (char *)v.c_str());
    }
    explore(s, c, "keyvalue-json", [&](Run &r) {
      char *p = nullptr;
      r.call([&] { p = serialize_keyvalue2json(l); });
      return owned(p);
    }, 1, 60);
    free_keyvalue_list(l);
  }
  }
}
PROPERTY(C24, helpers, 6) {
  Bytes b = gen_nonempty(s, 200);
  std::string text = s.str("abc\"\\\n\t\x01\x7f 09", s.size(60));
  struct tm t = gen_tm(s);
  Raw raw(b), b6(B(b64(b))), tx(B(text), true);
  std::string esc = json_quote(text);
  Raw es(B(esc.substr(1, esc.size() - 2)), true);
  std::vector<std::pair<const char *, Op>> ops = {
      {"base64-encode", [&](Run &r) {
         uint8_t *o = nullptr;
         ssize_t n = -1;
         r.call([&] { n = serialize_array2base64str(raw.p, raw.n, &o); });
         return owned_out(n, o);
       }},
      {"base64-decode", [&](Run &r) {
         uint8_t *o = nullptr;
         ssize_t n = -1;
         r.call([&] { n = serialize_base64str2array(b6.p, b6.n, &o); });
         return owned_out(n, o);
       }},
      {"escape", [&](Run &r) { char *p = nullptr; r.call([&] { p = serialize_escapestr((char *)tx.p); }); return owned(p); }},
      {"unescape", [&](Run &r) { char *p = nullptr; r.call([&] { p = serialize_unescapestr((char *)es.p, es.n); }); return owned(p); }},
      {"time-text", [&](Run &r) { char *p = nullptr; r.call([&] { p = serialize_time2str(&t); }); return owned(p); }},
      {"now-text", [&](Run &r) { char *p = nullptr; r.call([&] { p = serialize_localtime(); }); return owned(p); }},
      {"bool-text", [&](Run &r) { char *p = nullptr; r.call([&] { p = serialize_bool2str(b[0] & 1); }); return owned(p); }},
      {"strdup", [&](Run &r) { char *p = nullptr; r.call([&] { p = sys_strdup((char *)tx.p); }); return owned(p); }},
      {"strndup", [&](Run &r) { char *p = nullptr; r.call([&] { p = sys_strndup((char *)tx.p, text.size() / 2); }); return owned(p); }},
      {"memdup", [&](Run &r) {
         void *p = nullptr;
         r.call([&] { p = sys_memdup(raw.p, raw.n); });
         std::string x = p ? "=" + hx(p, raw.n) : FAIL;
         free(p);
         return x;
       }},
      {"copy-array", [&](Run &r) {
         struct BinaryArray d = {nullptr, 0}, a = {raw.p, raw.n};
         int rc = -1;
         r.call([&] { rc = copy_binary_array(&d, &a); });
         r.check(rc == 0 || d.array == nullptr || d.length == 0, "a refused copy left a dangling array");
         std::string x = rc == 0 ? "=" + hx(d.array, d.length) : FAIL;
         free_binary_array_content(&d);
         return x;
       }}};
  auto &o = ops[s.below(ops.size())];
  explore(s, c, o.first, o.second, 1, 40);
}
// ---------------------------------------------------------- voucher documents
PROPERTY(C24, voucher_history, 10) {
  // sets and clears on one record; a refused operation changes at most its own attribute
  struct Step {
    int kind, idx;
    VModel v;
  };
  VModel m0 = gen_vmodel(s, 60);
  std::vector<Step> steps;
  int k = 2 + (int)s.size(8);
  for (int i = 0; i < k; i++)
    steps.push_back({(int)s.below(5), (int)s.below(5), gen_vmodel(s, 60)});
  std::vector<std::unique_ptr<BA>> arrs;
  for (auto &st : steps) {
    int a = st.idx;
    arrs.emplace_back(new BA(st.v.has_arr[a] ? st.v.arr[a] : Bytes{1, 2, 3}));
    if (!st.v.has_serial)
      st.v.has_serial = true, st.v.serial = "S-1";
    st.v.time[a % 3] = gen_tm(s);
  }
  explore(s, c, "voucher-history", [&](Run &r) {
    struct Voucher *v = vbuild(m0);
    std::vector<int> rc(steps.size());
    r.call([&] {
      for (size_t i = 0; i < steps.size(); i++) {
        auto &st = steps[i];
        switch (st.kind) {
        case 0: case 1: rc[i] = set_attr_array_voucher(v, ARR_ATTRS[st.idx], *arrs[i]); break;
        case 2: rc[i] = set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, st.v.serial.c_str()); break;
        case 3: rc[i] = clear_attr_voucher(v, ARR_ATTRS[st.idx]); break;
        default: rc[i] = set_attr_time_voucher(v, TIME_ATTRS[st.idx % 3], &st.v.time[st.idx % 3]); break;
        }
      }
    });
    VModel m = m0;
    bool all = true, loose_serial = false, loose[5] = {};
    for (size_t i = 0; i < steps.size(); i++) {
      auto &st = steps[i];
      bool ok = rc[i] == 0;
      all = all && ok;
      switch (st.kind) {
      case 0: case 1:
        loose[st.idx] = !ok; // the old value or none
        if (ok) m.has_arr[st.idx] = true, m.arr[st.idx] = bytes(&arrs[i]->a);
        break;
      case 2:
        loose_serial = !ok;
        if (ok) m.has_serial = true, m.serial = st.v.serial;
        break;
      case 3: if (ok) m.has_arr[st.idx] = false, m.arr[st.idx].clear(), loose[st.idx] = false; break;
      default: if (ok) m.has_time[st.idx % 3] = true, m.time[st.idx % 3] = st.v.time[st.idx % 3];
      }
    }
    if (loose_serial && !is_attr_voucher_nonempty(v, ATTR_SERIAL_NUMBER))
      m.has_serial = false, m.serial.clear();
    for (int a = 0; a < 5; a++)
      if (loose[a] && !is_attr_voucher_nonempty(v, ARR_ATTRS[a]))
        m.has_arr[a] = false, m.arr[a].clear();
    std::string e = vdiff(v, m);
    r.check(e.empty(), e);
    char *p = serialize_voucher(v);
    std::string t = p ? p : "<null>";
    free(p);
    free_voucher(v);
    return all ? t : FAIL;
  }, 1, 60);
}
PROPERTY(C24, documents, 10) {
  VModel m = gen_vmodel(s, 100);
  bool bad = s.chance(25);
  std::string j = bad ? broken_json(s, vmodel_json(m)) : vmodel_json(m);
  if (s.flip()) {
    struct Voucher *v = vbuild(m);
    explore(s, c, "serialize", [&](Run &r) {
      char *p = nullptr;
      r.call([&] { p = serialize_voucher(v); });
      return owned(p);
    }, 1, 120);
    free_voucher(v);
    return;
  }
  Raw raw(B(j));
  explore(s, c, bad ? "deserialize-bad" : "deserialize", [&](Run &r) {
    struct Voucher *v = nullptr;
    r.call([&] { v = deserialize_voucher(raw.p, raw.n); });
    if (!v)
      return FAIL;
    char *p = serialize_voucher(v);
    free_voucher(v);
    return owned(p);
  }, 1, 120);
}
// --------------------------------------------------------- keys, certificates
PROPERTY(C24, certificates, 14) {
  const Key &k = any_key(s, 1, 25, 0);
  Chain ch = chain(s, "c", 4, (int)s.below(3), any_key(s, 4, 20, 0), dn("leaf", "SN-1"));
  Bytes cert = ch.leaf.der;
  bool bad = s.chance(25);
  if (bad)
    cert = s.flip() ? mutate(s, cert) : s.bytes(1 + s.size(100));
  Bytes kb = bad && s.flip() ? s.bytes(1 + s.size(80)) : k.der;
  Raw rk(kb), rc(cert), ca(ch.root.der);
  struct crypto_cert_meta meta = {};
  meta.serial_number = 1 + s.below(1000);
  meta.not_after = 3600;
  if (s.flip())
    meta.not_after = 0, meta.not_after_absolute = "99991231235959Z";
  meta.issuer = init_keyvalue_list();
  meta.subject = init_keyvalue_list();
  push_keyvalue_list(meta.subject, (char *)"CN", (char *)"generated");
  push_keyvalue_list(meta.subject, (char *)"serialNumber", (char *)"G-7");
  push_keyvalue_list(meta.issuer, (char *)"C", (char *)"IE");
  push_keyvalue_list(meta.issuer, (char *)"CN", (char *)"maker");
  if (s.flip())
    meta.basic_constraints = (char *)"CA:false";
  Peer px(ch.leaf.der);
  const Key &rootk = *[&] { return ch.self_signed ? ch.leaf_key : ch.root.key; }();
  Raw rootkey(rootk.der);
  std::vector<std::pair<const char *, Op>> ops = {
      {"key-context", [&](Run &r) {
         CRYPTO_KEY p = nullptr;
         r.call([&] { p = crypto_key2context(rk.p, rk.n); });
         bool ok = p != nullptr;
         if (p)
           crypto_free_keycontext(p);
         return ok ? std::string("=key") : FAIL;
       }},
      {"cert-context", [&](Run &r) {
         CRYPTO_CERT p = nullptr;
         r.call([&] { p = crypto_cert2context(rc.p, rc.n); });
         bool ok = p != nullptr;
         if (p)
           crypto_free_certcontext(p);
         return ok ? std::string("=cert") : FAIL;
       }},
      {"cert-copy", [&](Run &r) {
         CRYPTO_CERT p = nullptr;
         r.call([&] { p = crypto_copycert((CRYPTO_CERT)px.x); });
         std::string t = FAIL;
         if (p) {
           t = "=" + hx(take(crypto_cert2buf(p)));
           crypto_free_certcontext(p);
         }
         return t;
       }},
      {"cert-bytes", [&](Run &r) {
         struct BinaryArray *a = nullptr;
         r.call([&] { a = crypto_cert2buf((CRYPTO_CERT)px.x); });
         return owned(a);
       }},
      {"cert-meta", [&](Run &r) {
         struct crypto_cert_meta m = {};
         m.issuer = init_keyvalue_list(), m.subject = init_keyvalue_list();
         int rc2 = -1;
         r.call([&] { rc2 = crypto_getcert_meta((CRYPTO_CERT)px.x, &m); });
         std::string t = rc2 == 0 ? meta_text(m) : FAIL;
         free_keyvalue_list(m.issuer), free_keyvalue_list(m.subject);
         return t;
       }},
      {"cert-issuer", [&](Run &r) {
         struct BinaryArray *a = nullptr;
         r.call([&] { a = crypto_getcert_issuer((CRYPTO_CERT)px.x); });
         return owned(a);
       }},
      {"generate-eckey", [&](Run &r) {
         uint8_t *o = nullptr;
         ssize_t n = -1;
         r.call([&] { n = crypto_generate_eckey(&o); });
         std::string t = FAIL;
         if (n >= 0) {
           Key kk = key_from_der(Bytes(o, o + n));
           t = kk.p ? pbt::fmt("=%d bits", EVP_PKEY_bits(kk.p)) : "=unreadable";
           EVP_PKEY_free(kk.p);
         }
         free(o);
         return t;
       }},
      {"generate-cert", [&](Run &r) {
         uint8_t *o = nullptr;
         ssize_t n = -1;
         r.call([&] {
           n = k.rsa ? crypto_generate_rsacert(&meta, rk.p, rk.n, &o) : crypto_generate_eccert(&meta, rk.p, rk.n, &o);
         });
         std::string t = n < 0 ? FAIL : cert_text(Bytes(o, o + n));
         if (n >= 0) {
           auto x = parse_cert(Bytes(o, o + n));
           r.check(x && signed_by(x.get(), k.p), "the generated certificate is not signed by its key");
         }
         if (n >= 0) // on failure nothing is handed out
           free(o);
         return t;
       }},
      {"sign-cert", [&](Run &r) {
         Bytes in = cert;
         uint8_t *o = (uint8_t *)malloc(in.size());
         memcpy(o, in.data(), in.size());
         ssize_t n = -1;
         r.call([&] { n = crypto_sign_cert(rootkey.p, rootkey.n, ca.p, ca.n, in.size(), &o); });
         std::string t = FAIL;
         if (n >= 0)
           t = cert_text(Bytes(o, o + n));
         else
           r.check(o && Bytes(o, o + in.size()) == in, "a refused signing changed the caller's certificate");
         free(o);
         return t;
       }},
      {"verify-cert", [&](Run &r) {
         List mid(ch.inter_der()), st(std::vector<Bytes>{ch.root.der});
         int rc2 = -1;
         r.call([&] { rc2 = crypto_verify_cert(rc.p, rc.n, mid, st); });
         return rc2 == 0 ? std::string("=genuine") : FAIL;
       }},
      {"verify-other-anchor", [&](Run &r) {
         CertSpec q;
         q.subject = get_name(X509_get_subject_name(ch.root.x.get()));
         q.ca = 1;
         List mid(ch.inter_der()), st(std::vector<Bytes>{make_cert(q, ec(11)).der});
         int rc2 = -1;
         r.call([&] { rc2 = crypto_verify_cert(rc.p, rc.n, mid, st); });
         return rc2 == 0 ? std::string("=genuine") : FAIL;
       }}};
  auto &o = ops[s.below(ops.size())];
  bool signs = !strcmp(o.first, "generate-cert") || !strcmp(o.first, "sign-cert");
  explore(s, c, std::string(o.first) + (bad ? "-bad" : ""), o.second, signs ? 1 : sc(s), 40,
          strncmp(o.first, "verify", 6) != 0);
  free_keyvalue_list(meta.issuer);
  free_keyvalue_list(meta.subject);
}
// ------------------------------------------------------------ signed messages
PROPERTY(C24, messages, 14) {
  Bytes data = content(s, 200);
  if (data.empty())
    data = {1};
  VModel m = gen_vmodel(s, 60);
  std::string j = vmodel_json(m);
  bool voucher = s.flip();
  if (s.flip()) { // signing
    SignKit k = gen_kit(s, 1, "signer", 15);
    Raw d(data), ce(k.cert_b), ke(k.key_b);
    BA bce(k.cert_b), bke(k.key_b);
    List ex(k.extra);
    struct Voucher *v = vbuild(m);
    explore(s, c, voucher ? "sign-voucher" : "sign-cms", [&](Run &r) {
      if (voucher) {
        struct BinaryArray *a = nullptr;
        r.call([&] { a = sign_cms_voucher(v, bce, bke, ex); });
        return a ? signed_text(take(a)) : FAIL;
      }
      uint8_t *o = nullptr;
      ssize_t n = -1;
      r.call([&] { n = crypto_sign_cms(d.p, d.n, ce.p, ce.n, ke.p, ke.n, ex, &o); });
      std::string t = n < 0 ? FAIL : signed_text(Bytes(o, o + n));
      if (n >= 0)
        free(o);
      return t;
    }, 1, 24, true);
    free_voucher(v);
    return;
  }
  PledgeReq p = gen_pledge(s, m, 6, "pl", 40);
  BA cms(p.cms);
  explore(s, c, std::string(voucher ? "verify-voucher" : "verify-cms") + (p.verifies ? "" : "-bad"), [&](Run &r) {
    struct BinaryArrayList *out = nullptr;
    std::string t = FAIL;
    if (voucher) {
      struct Voucher *v = nullptr;
      r.call([&] { v = verify_cms_voucher(cms, p.t.cl(), p.t.sl(), &out); });
      if (v) {
        char *q = serialize_voucher(v);
        t = owned(q) + set_text(out);
        free_voucher(v);
      }
    } else {
      uint8_t *o = nullptr;
      ssize_t n = -1;
      r.call([&] { n = crypto_verify_cms(cms, p.t.cl(), p.t.sl(), &o, &out); });
      if (n >= 0) {
        t = "=" + hx(o, (size_t)n) + set_text(out);
        free(o);
      }
    }
    free_array_list(out);
    return t;
  }, sc(s), 24);
}
// ------------------------------------------------------------------- requests
namespace {
struct Pin {
  Bytes cert;
  bool fail = false;
};
int pin_cb(const char *, const struct BinaryArrayList *, void *u, struct BinaryArray *out) {
  Pin *p = (Pin *)u;
  if (p->fail)
    return -1;
  struct BinaryArray a = {p->cert.data(), p->cert.size()};
  return copy_binary_array(out, &a);
}
} // namespace
PROPERTY(C24, requests, 16) {
  std::string serial = ser(s);
  while (serial.empty())
    serial = ser(s);
  Bytes nonce = gen_nonempty(s, 30);
  struct tm t = gen_tm(s);
  Cert dom = [&] {
    CertSpec q;
    q.subject = dn("domain");
    q.ca = 1;
    return make_cert(q, ec(3));
  }();
  Cert reg = tls_cert(s, 4, &dom);
  SignKit k = gen_kit(s, 1, "signer", 8);
  BA ce(k.cert_b), ke(k.key_b), tls(reg.der), nb(nonce);
  List ex(k.extra);
  VModel pm;
  pm.assertion = VOUCHER_ASSERTION_PROXIMITY;
  pm.has_serial = true, pm.serial = s.chance(15) ? near_serial(s, serial) : serial;
  pm.has_arr[A_PROX] = true, pm.arr[A_PROX] = s.chance(10) ? near_bytes(s, reg.der) : reg.der;
  pm.has_arr[A_NONCE] = true, pm.arr[A_NONCE] = s.chance(12) ? near_bytes(s, nonce) : nonce;
  if (pm.arr[A_NONCE].empty())
    pm.arr[A_NONCE] = {7};
  int kind = (int)s.below(4);
  int sp = sc(s), n = 20;
  if (kind == 0) {
    const char *sn = serial.c_str();
    explore(s, c, "pledge-request", [&](Run &r) {
      struct BinaryArray *a = nullptr;
      r.call([&] { a = sign_pledge_voucher_request(&t, sn, nb, tls, ce, ke, ex); });
      return a ? signed_text(take(a)) : FAIL;
    }, 1, n, true);
    return;
  }
  PledgeReq p = gen_pledge(s, pm, 6, "pl", 20);
  if (kind == 1) {
    BA cms(p.cms), iss(B("CN = issuer"));
    const char *sn = serial.c_str();
    explore(s, c, "registrar-request", [&](Run &r) {
      struct BinaryArray *a = nullptr;
      r.call([&] { a = sign_voucher_request(cms, &t, sn, iss, tls, ce, ke, p.t.cl(), p.t.sl(), ex); });
      return a ? signed_text(take(a)) : FAIL;
    }, 1, n, true);
    return;
  }
  if (kind == 2) {
    VModel rm;
    rm.has_serial = true, rm.serial = serial;
    rm.has_arr[A_NONCE] = true, rm.arr[A_NONCE] = nonce;
    rm.has_arr[A_PRIOR] = true, rm.arr[A_PRIOR] = p.cms;
    PledgeReq q = gen_pledge(s, rm, 9, "rg", 15);
    Pin pin;
    pin.cert = dom.der;
    pin.fail = s.chance(5);
    BA cms(q.cms);
    explore(s, c, "voucher", [&](Run &r) {
      struct BinaryArray *a = nullptr;
      r.call([&] {
        a = sign_masa_pledge_voucher(cms, &t, pin_cb, &pin, ce, ke, q.t.cl(), q.t.sl(), p.t.cl(), p.t.sl(), ex);
      });
      return a ? signed_text(take(a)) : FAIL;
    }, 1, n, true);
    return;
  }
  VModel vm;
  vm.assertion = VOUCHER_ASSERTION_PROXIMITY;
  vm.has_serial = true, vm.serial = pm.serial;
  vm.has_arr[A_NONCE] = true, vm.arr[A_NONCE] = pm.arr[A_NONCE];
  vm.has_arr[A_PINNED] = true, vm.arr[A_PINNED] = s.chance(15) ? unrelated(s, 1).der : dom.der;
  PledgeReq v = gen_pledge(s, vm, 6, "ma", 20);
  BA cms(v.cms);
  bool want_out = s.flip();
  const char *sn = serial.c_str();
  explore(s, c, "accept-voucher", [&](Run &r) {
    struct BinaryArrayList *out = nullptr;
    struct BinaryArray pin = {nullptr, 0};
    int rc = -1;
    r.call([&] {
      rc = verify_masa_pledge_voucher(cms, sn, nb, tls, nullptr, v.t.cl(), v.t.sl(), want_out ? &out : nullptr, &pin);
    });
    std::string x = rc == 0 ? "=" + hx(pin.array, pin.length) + set_text(out) : FAIL;
    r.check(rc == 0 || (pin.array == nullptr && pin.length == 0), "a refused voucher handed out a certificate");
    free_binary_array_content(&pin);
    free_array_list(out);
    return x;
  }, sp, n);
}
// ---------------------------------------------------- files and configuration
PROPERTY(C24, files, 10) {
  Estate e;
  gen_estate(e, s, Opt());
  std::string out = pbt::scratch() + "/oom.out";
  Bytes cert = e.idevid.der, key = e.idev.leaf_key->der, msg = e.sign(e.pl, "{}");
  BA bc(cert), bk(key), bm(msg);
  auto back = [&] {
    Bytes f;
    return read_file(out, f) ? "=" + S(f) : "=nothing";
  };
  std::string cfg = "[pledge]\ncreatedOn = 2020\nserialNumber = \"s 1\"\ncmsAdditionalCertPath = a\ncmsAdditionalCertPath = b\n"
                    "[registrar]\nport = 77\ntlsCertPath = x\ncmsVerifyCertPath = q\n[masa]\nexpiresOn = z\nbindAddress = h\n";
  std::string cp = pbt::scratch() + "/oom.ini";
  write_file(cp, cfg);
  std::string kt = S(Bytes()), ct;
  std::vector<std::pair<const char *, Op>> ops = {
      {"read-cert", [&](Run &r) { struct BinaryArray *a = nullptr; r.call([&] { a = file_to_x509buf(e.pc.idevid_cert_path); }); return owned(a); }},
      {"read-key", [&](Run &r) { struct BinaryArray *a = nullptr; r.call([&] { a = file_to_keybuf(e.pc.idevid_key_path); }); return owned(a); }},
      {"write-cert", [&](Run &r) { int rc = -1; unlink(out.c_str()); r.call([&] { rc = certbuf_to_file(bc, out.c_str()); }); return rc == 0 ? back() : FAIL; }},
      {"write-key", [&](Run &r) { int rc = -1; unlink(out.c_str()); r.call([&] { rc = keybuf_to_file(bk, out.c_str()); }); return rc == 0 ? back() : FAIL; }},
      {"write-cms", [&](Run &r) { int rc = -1; unlink(out.c_str()); r.call([&] { rc = cmsbuf_to_file(bm, out.c_str()); }); return rc == 0 ? back() : FAIL; }},
      {"load-certs", [&](Run &r) {
         struct BinaryArrayList *l = nullptr;
         int rc = -1;
         r.call([&] { rc = load_cert_files(e.pc.cms_add_certs_paths, &l); });
         std::string t = rc == 0 ? "=" + list_text(l) : FAIL;
         free_array_list(l);
         return t;
       }},
      {"load-config", [&](Run &r) {
         struct brski_config g = {};
         int rc = -1;
         r.call([&] { rc = load_brski_config(cp.c_str(), &g); });
         auto z = [](const char *p) { return std::string(p ? p : "<null>") + ";"; };
         std::string t = rc < 0 ? FAIL
                                : "=" + z(g.pconf.created_on) + z(g.pconf.serial_number) +
                                      list_text(g.pconf.cms_add_certs_paths) + std::to_string(g.rconf.port) +
                                      z(g.rconf.tls_cert_path) + z(g.rconf.bind_address) +
                                      list_text(g.rconf.cms_verify_certs_paths) + z(g.mconf.expires_on) +
                                      z(g.mconf.bind_address);
         free_config_content(&g);
         return t;
       }}};
  auto &o = ops[s.below(ops.size())];
  bool cms = std::string(o.first) == "write-cms";
  explore(s, c, o.first, o.second, cms ? 1 : sc(s), 40, strncmp(o.first, "load-config", 11) != 0);
}
// ------------------------------------------------------------ HTTP handlers
PROPERTY(C24, handlers, 12) {
  net::reset();
  Estate e;
  Opt o;
  o.bad_pct = 10;
  gen_estate(e, s, o);
  VModel pm = e.pledge_model(gen_tm(s));
  if (s.chance(15))
    pm.serial = near_serial(s, e.serial);
  Bytes pcms = e.sign(e.pl, vmodel_json(pm));
  std::string body;
  Handler h;
  void *ctx;
  const char *name;
  std::string masa_says = b64(gen_nonempty(s, 60));
  net::Server *sv = nullptr;
  switch (s.below(3)) {
  case 0:
    name = "registrar-handler", h = registrar_requestvoucher, ctx = &e.rctx, body = b64(pcms);
    sv = new net::Server();
    sv->host = e.mc.bind_address, sv->port = (int)e.mc.port;
    sv->cert_path = e.mc.tls_cert_path, sv->key_path = e.mc.tls_key_path;
    sv->routes.push_back({PATH_BRSKI_REQUESTVOUCHER, HTTP_METHOD_POST,
                          [&](const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &,
                              std::string &r, void *) {
                            r = masa_says;
                            return 200;
                          }});
    net::servers.push_back(sv);
    break;
  case 1: {
    name = "masa-handler", h = masa_requestvoucher, ctx = &e.mctx;
    VModel rm = e.registrar_model(pm, pcms, gen_tm(s));
    body = b64(e.sign(e.rg, vmodel_json(rm)));
    break;
  }
  default:
    name = "enrol-handler", h = post_est_simpleenroll, ctx = &e.rctx;
    body = b64(s.chance(80) ? unrelated(s, 2).der : s.bytes(40));
  }
  explore(s, c, name, [&](Run &r) {
    Peer p(e.idevid.der);
    RequestHeader rq;
    rq["Content-Type"] = "application/voucher-cms+json";
    ResponseHeader rs;
    std::string out;
    int st = -1;
    r.call([&] { st = h(rq, body, (CRYPTO_CERT)p.x, rs, out, ctx); });
    if (r.threw || st < 200 || st > 299) {
      Bytes d;
      r.check(r.threw || !(b64d(out, d) && (cms_info(d).ok || parse_cert(d))), "a result in an error answer");
      return FAIL;
    }
    Bytes d;
    if (h == registrar_requestvoucher)
      return "=" + out;
    b64d(out, d);
    return h == masa_requestvoucher ? signed_text(d) : cert_text(d);
  }, 1, 40);
  net::reset();
}

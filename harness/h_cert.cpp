// C11 certificate generation and issuing, C12 chain verification, C13 device
// identity.
#include "engine/pki.hpp"
#include <algorithm>
#include <cstring>
#include <openssl/err.h>
#include <openssl/rsa.h>
#include <openssl/x509v3.h>
using namespace env;
using namespace pki;

struct KV { // keyvalue list adapter
  struct keyvalue_list *l;
  KV() { l = init_keyvalue_list(); }
  ~KV() { free_keyvalue_list(l); }
  KV(const KV &) = delete;
  void fill(const Name &n) {
    for (auto &e : n) {
      std::string k = e.first, v = e.second;
      if (push_keyvalue_list(l, &k[0], &v[0]) < 0)
        abort();
    }
  }
  Name get() const {
    Name r;
    struct keyvalue_list *el;
    dl_list_for_each(el, &l->list, struct keyvalue_list, list)
        r.push_back({el->key ? el->key : "(null)", el->value ? el->value : "(null)"});
    return r;
  }
};
static const std::vector<std::string> DNK = {
    "C", "ST", "L", "O", "OU", "CN", "emailAddress", "serialNumber", "SN", "GN"};
static std::string dn_val(Src &s, const std::string &k) {
  static const std::string AZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  static const std::string PR = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWX"
                                "YZ0123456789 '()+,-./:=?";
  static const std::string AS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWX"
                                "YZ0123456789 '()+,-./:=?_@&\"\\#*!;<>";
  if (k == "C")
    return s.str(AZ, 2);
  if (k == "serialNumber") {
    size_t n = s.chance(10) ? 64 : 1 + s.size(30);
    return s.str(PR, n);
  }
  if (k == "emailAddress")
    return s.str("abcdef0123456789.-@", 1 + s.size(60));
  size_t n = s.chance(6) ? (k == "SN" || k == "GN" ? 100 : 64) : 1 + s.size(20);
  if (k == "GN" || k == "SN")
    n = std::min<size_t>(n, 30);
  return s.str(AS, n);
}
static Name gen_name(Src &s, int maxn = 6) {
  Name n;
  int k = (int)s.below(s.chance(4) ? 46 : (uint64_t)maxn + 1);
  for (int i = 0; i < k; i++) {
    std::string key = s.pick(DNK);
    n.push_back({key, dn_val(s, key)});
  }
  return n;
}
static std::string show(const Name &n) {
  std::string r;
  for (auto &e : n)
    r += e.first + "=" + pbt::quote(e.second, 40) + " ";
  return r;
}
static int64_t asn1_time(const ASN1_TIME *t) {
  struct tm m;
  if (!t || !ASN1_TIME_to_tm(t, &m))
    return INT64_MIN;
  return tm_to(m);
}
static Bytes spki(X509 *x) {
  unsigned char *out = nullptr;
  int n = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x), &out);
  Bytes r(out, out + (n > 0 ? n : 0));
  OPENSSL_free(out);
  ERR_clear_error();
  return r;
}
static std::vector<Bytes> exts(X509 *x) {
  std::vector<Bytes> r;
  for (int i = 0; i < X509_get_ext_count(x); i++) {
    unsigned char *out = nullptr;
    int n = i2d_X509_EXTENSION(X509_get_ext(x, i), &out);
    r.push_back(Bytes(out, out + (n > 0 ? n : 0)));
    OPENSSL_free(out);
  }
  return r;
}
static Bytes serial_of(X509 *x) {
  const ASN1_INTEGER *ai = X509_get0_serialNumber(x);
  const unsigned char *p = ASN1_STRING_get0_data(ai);
  Bytes b(p, p + ASN1_STRING_length(ai));
  while (!b.empty() && !b[0])
    b.erase(b.begin());
  return b;
}
static Bytes u64be(uint64_t v) {
  Bytes b;
  for (int i = 7; i >= 0; i--)
    if (!b.empty() || (v >> (8 * i)) & 255)
      b.push_back((uint8_t)(v >> (8 * i)));
  return b;
}

// ------------------------------------------------------------------- C11
struct Meta {
  KV iss, sub;
  struct crypto_cert_meta m;
  std::string nas, bc;
  Name in, sn;
  int64_t nb, na;
  int ca = -1, pathlen = -1;
};
static void gen_meta(Src &s, Meta &M) {
  memset(&M.m, 0, sizeof M.m);
  uint64_t pool[] = {0, 1, 127, 128, 255, 256, 0x7fffffff, 0x80000000ull,
                     0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  M.m.serial_number = s.flip() ? pool[s.below(11)] : s.below(0);
  int64_t now = pbt::clock_get();
  // ASN.1 times hold years 0000 to 9999
  auto off = [&]() -> long {
    switch (s.weighted({40, 30, 20, 10})) {
    case 0:
      return (long)s.below(86400 * 800) - 86400 * 400;
    case 1:
      return (long)s.below(3600);
    case 2: { // around the change of the time encoding in 2050
      int64_t t = 2524608000ll + (int64_t)s.below(200000) - 100000;
      return (long)(t - now);
    }
    default: {
      int64_t t = (int64_t)s.below(253402300799ull);
      return (long)(t - now);
    }
    }
  };
  M.m.not_before = off();
  M.nb = now + M.m.not_before;
  if (s.chance(40)) {
    int64_t t = s.chance(30) ? 253402300799ll
                             : (int64_t)s.below(253402300799ull);
    struct tm x = tm_from(t);
    M.nas = pbt::fmt("%04d%02d%02d%02d%02d%02dZ", x.tm_year + 1900, x.tm_mon + 1,
                     x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec);
    M.m.not_after_absolute = M.nas.c_str();
    M.na = t;
  } else {
    M.m.not_after = off();
    M.na = now + M.m.not_after;
  }
  M.in = gen_name(s);
  M.sn = gen_name(s);
  M.iss.fill(M.in);
  M.sub.fill(M.sn);
  M.m.issuer = s.chance(90) ? M.iss.l : nullptr;
  M.m.subject = s.chance(90) ? M.sub.l : nullptr;
  if (!M.m.issuer)
    M.in.clear();
  if (!M.m.subject)
    M.sn.clear();
  switch (s.below(5)) {
  case 0:
    break;
  case 1:
    M.ca = 0, M.bc = "CA:FALSE";
    break;
  case 2:
    M.ca = 1, M.bc = "CA:TRUE";
    break;
  case 3:
    M.ca = 1, M.bc = "critical,CA:TRUE";
    break;
  default:
    M.ca = 1, M.pathlen = (int)s.below(6);
    M.bc = "critical,CA:TRUE,pathlen:" + std::to_string(M.pathlen);
  }
  if (!M.bc.empty())
    M.m.basic_constraints = &M.bc[0];
}
static void check_bc(Ctx &c, X509 *x, int ca, int pathlen, bool critical) {
  int crit = -1;
  BASIC_CONSTRAINTS *bc = (BASIC_CONSTRAINTS *)X509_get_ext_d2i(
      x, NID_basic_constraints, &crit, nullptr);
  if (ca < 0) {
    bool none = bc == nullptr && X509_get_ext_count(x) == 0;
    BASIC_CONSTRAINTS_free(bc);
    REQUIRE(none, "extensions", "unexpected extensions");
    return;
  }
  REQUIRE(bc, "extensions", "no basic constraints");
  bool got_ca = bc->ca != 0;
  long pl = bc->pathlen ? ASN1_INTEGER_get(bc->pathlen) : -1;
  BASIC_CONSTRAINTS_free(bc);
  REQUIRE(got_ca == (ca == 1) && pl == pathlen && (crit == 1) == critical &&
              X509_get_ext_count(x) == 1,
          "basic-constraints", "CA %d pathlen %ld critical %d, %d extensions",
          (int)got_ca, pl, crit, X509_get_ext_count(x));
}
PROPERTY(C11, generate, 10) {
  Meta M;
  gen_meta(s, M);
  const Key &k = s.chance(12) ? rsa((int)s.below(4))
                 : s.chance(15) ? p384()
                                : ec((int)s.below(16));
  c.note("serial %llx not-before %lld not-after %s %lld issuer{%s} subject{%s} "
         "constraints %s key %s",
         (unsigned long long)M.m.serial_number, (long long)M.nb, M.nas.c_str(),
         (long long)M.na, show(M.in).c_str(), show(M.sn).c_str(), M.bc.c_str(),
         k.rsa ? "rsa" : "ec");
  Raw kr(k.der);
  uint8_t *out = (uint8_t *)0x1;
  ssize_t n = k.rsa ? crypto_generate_rsacert(&M.m, kr.p, kr.n, &out)
                    : crypto_generate_eccert(&M.m, kr.p, kr.n, &out);
  REQUIRE(n > 0 && out, "generate-refused", "generation returned %zd", n);
  Bytes der(out, out + n);
  free(out);
  c.nontrivial(!M.sn.empty());
  c.label(k.rsa ? "rsa" : "ec");
  auto x = parse_cert(der);
  REQUIRE(x, "not-a-certificate", "output does not parse");
  REQUIRE(X509_get_version(x.get()) == 2, "version", "version %ld",
          X509_get_version(x.get()));
  REQUIRE(serial_of(x.get()) == u64be(M.m.serial_number), "serial",
          "serial %s for %llx", pbt::hex(serial_of(x.get())).c_str(),
          (unsigned long long)M.m.serial_number);
  REQUIRE(asn1_time(X509_get0_notBefore(x.get())) == M.nb, "not-before",
          "%lld instead of %lld",
          (long long)asn1_time(X509_get0_notBefore(x.get())), (long long)M.nb);
  REQUIRE(asn1_time(X509_get0_notAfter(x.get())) == M.na, "not-after",
          "%lld instead of %lld",
          (long long)asn1_time(X509_get0_notAfter(x.get())), (long long)M.na);
  Name gi = get_name(X509_get_issuer_name(x.get())),
       gs = get_name(X509_get_subject_name(x.get()));
  REQUIRE(gi == M.in, "issuer", "issuer {%s}", show(gi).c_str());
  REQUIRE(gs == M.sn, "subject", "subject {%s}", show(gs).c_str());
  check_bc(c, x.get(), M.ca, M.pathlen, M.bc.find("critical") == 0);
  REQUIRE(same_key(X509_get0_pubkey(x.get()), k.p), "public-key",
          "another public key");
  REQUIRE(signed_by(x.get(), k.p), "signature",
          "does not verify under its own key");
  int md = 0;
  REQUIRE(X509_get_signature_info(x.get(), &md, nullptr, nullptr, nullptr) &&
              md == NID_sha256,
          "digest", "signed with digest %d", md);
  // what the library reads back
  Raw dr(der);
  CRYPTO_CERT cc = crypto_cert2context(dr.p, dr.n);
  REQUIRE(cc, "reread", "the library does not read its own certificate");
  struct BinaryArray *back = crypto_cert2buf(cc);
  crypto_free_certcontext(cc);
  REQUIRE(back, "reread", "crypto_cert2buf failed");
  Bytes bb = bytes(back);
  free_binary_array(back);
  REQUIRE(bb == der, "reread", "certificate differs after reading it back");
}
PROPERTY(C11, generate_refused, 3) {
  Meta M;
  gen_meta(s, M);
  const Key &good = ec(3);
  int mode = (int)s.below(7);
  Bytes kd = good.der;
  bool use_rsa = false;
  const struct crypto_cert_meta *mp = &M.m;
  bool null_key = false;
  std::string badv;
  if (mode == 0) { // key of the other type
    use_rsa = s.flip();
    kd = use_rsa ? ec(2).der : rsa(1).der;
  } else if (mode == 1) { // damaged key
    use_rsa = s.flip();
    kd = use_rsa ? rsa(1).der : good.der;
    kd.resize(s.below(kd.size()));
    if (kd.empty())
      kd.push_back(0);
  } else if (mode == 2) {
    M.nas = s.pick(std::vector<std::string>{"", "x", "2024", "20240230000000Z",
                                            "20241301000000Z", "99991231235959",
                                            "2024-01-01T00:00:00Z"});
    M.m.not_after_absolute = M.nas.c_str();
    M.m.not_after = 0;
  } else if (mode == 3) {
    M.nas = "99991231235959Z";
    M.m.not_after_absolute = M.nas.c_str();
    M.m.not_after = 5;
  } else if (mode == 4) { // unknown or oversized name part
    M.sub.fill({s.flip() ? std::pair<std::string, std::string>{"C", "IRL"}
                         : std::pair<std::string, std::string>{"nosuchname", "x"}});
    M.m.subject = M.sub.l;
  } else if (mode == 5) {
    badv = s.pick(std::vector<std::string>{"CA:MAYBE", "nonsense", "CA:TRUE,x:1"});
    M.m.basic_constraints = &badv[0];
  } else {
    if (s.flip())
      mp = nullptr;
    else
      null_key = true;
  }
  c.note("mode %d rsa %d", mode, (int)use_rsa);
  c.label("mode" + std::to_string(mode));
  c.nontrivial();
  Raw kr(kd);
  uint8_t *out = (uint8_t *)0x1;
  const uint8_t *kp = null_key ? nullptr : kr.p;
  ssize_t n = use_rsa ? crypto_generate_rsacert(mp, kp, kr.n, &out)
                      : crypto_generate_eccert(mp, kp, kr.n, &out);
  REQUIRE(n < 0, "bad-input-accepted", "mode %d: returned %zd", mode, n);
  REQUIRE(out == nullptr, "output-on-failure", "mode %d: output set", mode);
}
// further extensions of a certificate, each identifier once
static std::vector<CertSpec::Ext> gen_exts(Src &s) {
  std::vector<CertSpec::Ext> r;
  if (s.chance(30)) { // the key identifier of another issuer
    Bytes v = {0x30, 0x16, 0x80, 0x14}, id = s.bytes(20);
    v.insert(v.end(), id.begin(), id.end());
    r.push_back({"2.5.29.35", false, v});
  }
  if (s.chance(30)) { // subject alternative names
    std::string n = "dev" + s.str("abc-.", s.below(40)) + ".example";
    Bytes v = {0x30, (uint8_t)(n.size() + 2), 0x82, (uint8_t)n.size()};
    v.insert(v.end(), n.begin(), n.end());
    r.push_back({"2.5.29.17", s.flip(), v});
  }
  if (s.chance(20)) // certificate policies
    r.push_back({"2.5.29.32", s.flip(), {0x30, 0x06, 0x30, 0x04, 0x06, 0x02, 0x2a, (uint8_t)(3 + s.below(40))}});
  if (s.chance(20)) // the MASA's address in a device certificate
    r.push_back({"1.3.6.1.5.5.7.1.32", false, {0x16, 0x04, 'm', 'a', 's', (uint8_t)('a' + s.below(20))}});
  if (s.chance(20)) // TLS feature
    r.push_back({"1.3.6.1.5.5.7.1.24", false, {0x30, 0x03, 0x02, 0x01, 0x05}});
  for (int i = 0, n = s.chance(30) ? 1 + (int)s.below(s.chance(10) ? 40 : 4) : 0; i < n; i++) {
    Bytes v = s.bytes(s.size(100));
    v.insert(v.begin(), {0x04, (uint8_t)v.size()});
    r.push_back({pbt::fmt("1.3.6.1.4.1.%d.%d", 50000 + i, (int)s.below(5)), s.chance(20), v});
  }
  shuffle(s, r);
  return r;
}
PROPERTY(C11, issue, 8) {
  // a certificate to be signed, by the library or by standard tools
  const Key &k = s.chance(10) ? rsa(0) : s.chance(15) ? p384() : ec(0);
  CertSpec sp;
  sp.subject = gen_name(s);
  if (s.flip())
    sp.issuer = dn("someone else");
  sp.serial = s.bytes(1 + s.size(18));
  sp.serial[0] &= 0x7f;
  if (!sp.serial[0])
    sp.serial[0] = 1;
  int64_t now = pbt::clock_get();
  sp.nb = now - (int64_t)s.below(1000000);
  sp.na = s.chance(20) ? 253402300799ll : now + (int64_t)s.below(100000000);
  sp.ca = s.range(-1, 1);
  sp.skid = s.flip();
  if (s.flip())
    sp.ku = "digitalSignature";
  if (s.chance(30))
    sp.eku = "clientAuth,serverAuth";
  sp.more = gen_exts(s);
  const Key &ck = s.chance(10) ? rsa(1) : ec(1);
  CertSpec cp;
  cp.subject = gen_name(s);
  if (cp.subject.empty())
    cp.subject = dn("an authority");
  // the certificate may be akin to the authority's
  int akin = s.chance(25) ? 1 + (int)s.below(4) : 0;
  if (akin == 1)
    sp.subject = cp.subject;
  if (akin == 2)
    sp.issuer = cp.subject;
  if (akin == 3)
    cp.serial = sp.serial;
  c.label(pbt::fmt("akin-%d", akin));
  bool own_key = akin == 4;
  Cert t = make_cert(sp, own_key ? ck : k);
  cp.ca = s.range(-1, 1);
  cp.skid = s.flip();
  bool inter = s.flip();
  CertSpec rp;
  rp.subject = dn("root of authority");
  rp.ca = 1;
  Cert root = make_cert(rp, ec(2));
  Cert ca = inter ? make_cert(cp, ck, &root) : make_cert(cp, ck);
  c.note("subject {%s} authority {%s} serial %s", show(sp.subject).c_str(),
         show(cp.subject).c_str(), pbt::hex(sp.serial).c_str());
  c.nontrivial();
  Raw kr(ck.der), cr(ca.der);
  uint8_t *buf = (uint8_t *)malloc(t.der.size());
  memcpy(buf, t.der.data(), t.der.size());
  ssize_t n =
      crypto_sign_cert(kr.p, kr.n, cr.p, cr.n, t.der.size(), &buf);
  if (n < 0)
    free(buf);
  REQUIRE(n > 0, "issue-refused", "signing returned %zd", n);
  Bytes der(buf, buf + n);
  free(buf);
  auto x = parse_cert(der);
  REQUIRE(x, "not-a-certificate", "output does not parse");
  X509 *o = t.x.get(), *g = x.get();
  REQUIRE(serial_of(g) == serial_of(o), "serial", "serial number changed");
  REQUIRE(asn1_time(X509_get0_notBefore(g)) == asn1_time(X509_get0_notBefore(o)) &&
              asn1_time(X509_get0_notAfter(g)) == asn1_time(X509_get0_notAfter(o)),
          "validity", "validity changed");
  REQUIRE(X509_NAME_cmp(X509_get_subject_name(g), X509_get_subject_name(o)) == 0,
          "subject", "subject changed");
  REQUIRE(get_name(X509_get_issuer_name(g)) ==
              get_name(X509_get_subject_name(ca.x.get())),
          "issuer", "issuer {%s}",
          show(get_name(X509_get_issuer_name(g))).c_str());
  REQUIRE(spki(g) == spki(o), "public-key", "public key changed");
  REQUIRE(exts(g) == exts(o), "extensions", "extensions changed");
  REQUIRE(signed_by(g, ck.p), "signature", "not verified by the authority's key");
  REQUIRE((own_key || !signed_by(g, k.p)) && !signed_by(g, ec(9).p), "signature",
          "verifies under another key");
}
PROPERTY(C11, issue_refused, 4) {
  CertSpec sp;
  sp.subject = dn("t");
  Cert t = make_cert(sp, ec(0));
  CertSpec cp;
  cp.subject = dn("ca");
  cp.ca = 1;
  Cert ca = make_cert(cp, ec(1));
  Bytes kd = ec(1).der, cd = ca.der, td = t.der;
  int mode = (int)s.below(4);
  Bytes &v = mode == 0 ? kd : mode == 1 ? cd : td;
  if (mode < 3) {
    if (s.flip())
      v.resize(s.below(v.size()));
    else
      v = s.bytes(1 + s.size(60));
    if (v.empty())
      v.push_back(0x30);
    v[0] = s.flip() ? v[0] : (uint8_t)0x31;
  }
  c.note("mode %d input %s", mode, pbt::hex(v).c_str());
  c.nontrivial();
  Raw kr(kd), cr(cd);
  uint8_t *buf = (uint8_t *)malloc(td.size());
  memcpy(buf, td.data(), td.size());
  uint8_t *before = buf;
  int which = mode == 3 ? (int)s.below(3) : -1;
  uint8_t *none = nullptr;
  ssize_t n = crypto_sign_cert(which == 0 ? nullptr : kr.p, kr.n, cr.p, cr.n,
                               td.size(),
                               which == 1   ? nullptr
                               : which == 2 ? &none
                                            : &buf);
  bool same = buf == before && memcmp(buf, td.data(), td.size()) == 0;
  free(buf);
  REQUIRE(n < 0, "bad-input-accepted", "mode %d returned %zd", mode, n);
  REQUIRE(same, "caller-certificate", "mode %d: the caller's certificate changed",
          mode);
}
PROPERTY(C11, keys, 1) {
  c.nontrivial();
  if (s.chance(70)) {
    uint8_t *a = nullptr, *b = nullptr;
    rng_reseed(s.below(0));
    ssize_t n = crypto_generate_eckey(&a), m = crypto_generate_eckey(&b);
    REQUIRE(n > 0 && m > 0, "keygen", "returned %zd %zd", n, m);
    Bytes x(a, a + n), y(b, b + m);
    free(a);
    free(b);
    Key k = key_from_der(x), l = key_from_der(y);
    REQUIRE(k.p && l.p && !k.rsa && !l.rsa, "key-type", "not an EC key");
    char g[64] = "";
    size_t gl = 0;
    EVP_PKEY_get_group_name(k.p, g, sizeof g, &gl);
    bool p256 = std::string(g) == "prime256v1";
    bool same = same_key(k.p, l.p);
    EVP_PKEY_CTX *cx = EVP_PKEY_CTX_new(k.p, nullptr);
    bool okp = EVP_PKEY_pairwise_check(cx) == 1;
    EVP_PKEY_CTX_free(cx);
    // usable as a signing key
    CertSpec sp;
    sp.subject = dn("k");
    KV sub;
    sub.fill(sp.subject);
    struct crypto_cert_meta m1 = {};
    m1.not_after = 100;
    m1.subject = sub.l;
    m1.issuer = sub.l;
    Raw kr(x);
    uint8_t *ce = nullptr;
    ssize_t cn = crypto_generate_eccert(&m1, kr.p, kr.n, &ce);
    auto cx5 = cn > 0 ? parse_cert(Bytes(ce, ce + cn)) : nullptr;
    bool sig = cx5 && signed_by(cx5.get(), k.p);
    free(ce);
    CRYPTO_KEY k1 = crypto_eckey2context(kr.p, kr.n),
               k2 = crypto_key2context(kr.p, kr.n),
               k3 = crypto_rsakey2context(kr.p, kr.n);
    bool ctxs = k1 && k2 && !k3 && same_key((EVP_PKEY *)k1, k.p) &&
                same_key((EVP_PKEY *)k2, k.p);
    crypto_free_keycontext(k1);
    crypto_free_keycontext(k2);
    crypto_free_keycontext(k3);
    EVP_PKEY_free(k.p);
    EVP_PKEY_free(l.p);
    REQUIRE(p256, "key-type", "curve %s", g);
    REQUIRE(!same, "key-not-fresh", "two generated keys are equal");
    REQUIRE(okp && sig && ctxs, "key-unusable", "pair %d sign %d contexts %d",
            (int)okp, (int)sig, (int)ctxs);
    c.label("ec");
  } else if (s.chance(20)) {
    int bits = s.pick(std::vector<int>{512, 1024});
    struct BinaryArray *a = crypto_generate_rsakey(bits);
    REQUIRE(a, "keygen", "no RSA key of %d bits", bits);
    Bytes x = bytes(a);
    free_binary_array(a);
    Key k = key_from_der(x);
    bool ok = k.p && k.rsa && EVP_PKEY_get_bits(k.p) == bits;
    Raw kr(x);
    CRYPTO_KEY k1 = crypto_rsakey2context(kr.p, kr.n),
               k3 = crypto_eckey2context(kr.p, kr.n);
    ok = ok && k1 && !k3 && same_key((EVP_PKEY *)k1, k.p);
    crypto_free_keycontext(k1);
    crypto_free_keycontext(k3);
    EVP_PKEY_free(k.p);
    REQUIRE(ok, "key-type", "not a usable RSA key of %d bits", bits);
    c.label("rsa");
  } else {
    int bits = s.pick(std::vector<int>{-1, 0, 1, 100, 511});
    struct BinaryArray *a = crypto_generate_rsakey(bits);
    bool none = a == nullptr;
    free_binary_array(a);
    REQUIRE(none, "keygen-bits", "RSA key of %d bits produced", bits);
    c.label("rsa-bad-bits");
  }
}
PROPERTY(C11, random_bytes, 1) {
  size_t n = 16 + s.size(100);
  rng_reseed(s.below(0));
  BA a((Bytes(n, 0))), b((Bytes(n, 0)));
  REQUIRE(crypto_getrand(a) == 0 && crypto_getrand(b) == 0, "getrand", "failed");
  REQUIRE(bytes(a) != bytes(b), "getrand-repeats", "the same bytes twice");
  REQUIRE(std::count(a.a.array, a.a.array + n, 0) < (long)n / 2 + 4,
          "getrand-zero", "mostly zero");
  struct BinaryArray e = {};
  REQUIRE(crypto_getrand(nullptr) == -1 && crypto_getrand(&e) == -1,
          "getrand-null", "accepted nothing to fill");
  c.nontrivial();
}

// ------------------------------------------------------------------- C12
struct Node {
  Cert c;
  int parent; // entity that is named as issuer
  bool genuine;
};
static int verify(const Bytes &t, const std::vector<Bytes> &certs,
                  const std::vector<Bytes> *store) {
  Raw r(t);
  List cl(certs, false);
  std::unique_ptr<List> sl;
  if (store)
    sl.reset(new List(*store, false));
  return crypto_verify_cert(r.p, r.n, cl, sl ? sl->l : nullptr);
}
static std::shared_ptr<X509> lenient(const Bytes &b) { // trailing bytes allowed
  const unsigned char *q = b.data();
  X509 *x = d2i_X509(nullptr, &q, (long)b.size());
  ERR_clear_error();
  return std::shared_ptr<X509>(x, X509_free);
}
static bool issued(const Bytes &child, const Bytes &par) {
  auto x = lenient(child), p = lenient(par);
  return x && p &&
         X509_NAME_cmp(X509_get_issuer_name(x.get()),
                       X509_get_subject_name(p.get())) == 0 &&
         signed_by(x.get(), X509_get0_pubkey(p.get()));
}
static bool self_signed(const Bytes &b) { return issued(b, b); }
PROPERTY(C12, graph, 10) {
  // entities in a forest; entity i has key i; links may be forged
  bool deep = s.chance(10);
  int n = 2 + (int)s.below(deep ? 18 : 5);
  std::vector<Node> g;
  bool ids = s.flip();
  // keys of any kind, also for those who forge; a forger may have a name too
  auto kind = [&](int i, int pct) -> const Key & {
    return s.chance(pct) ? (s.chance(70) ? rsa(i) : p384()) : ec(i);
  };
  const Key &forger = kind(9, 30);
  int forged_name = -1;
  for (int i = 0; i < n; i++) {
    Node nd;
    nd.parent = i == 0 || s.chance(deep ? 2 : 12) ? i
                : (int)(s.chance(deep ? 90 : 50) ? i - 1 : s.below(i));
    nd.genuine = nd.parent == i || !s.chance(deep ? 5 : 15);
    CertSpec p;
    p.subject = dn("entity-" + std::to_string(i));
    p.serial = {(uint8_t)(1 + i)};
    p.ca = s.chance(80) ? 1 : s.range(-1, 0);
    p.skid = ids;
    p.akid = ids && s.flip();
    if (nd.parent == i)
      nd.c = make_cert(p, kind(i, 12));
    else if (nd.genuine)
      nd.c = make_cert(p, kind(i, 12), &g[(size_t)nd.parent].c);
    else {
      // a forged link copies name and identifiers but uses another key
      nd.c = make_cert(p, kind(i, 12), &g[(size_t)nd.parent].c,
                       s.flip() ? &forger : &kind(10 + (int)s.below(3), 20));
      forged_name = nd.parent;
    }
    g.push_back(nd);
  }
  int target = s.chance(75) ? n - 1 : (int)s.below((uint64_t)n);
  const Bytes &T = g[(size_t)target].c.der;
  std::vector<Bytes> certs, store;
  bool unique = true;
  for (int i = 0; i < n; i++)
    if (i != target && s.chance(deep ? 95 : 70))
      certs.push_back(g[(size_t)i].c.der);
  if (s.chance(15))
    certs.push_back(T);
  for (int i = (int)s.below(3); i > 0; i--)
    certs.push_back(unrelated(s, i).der);
  auto many = crowd(s);
  certs.insert(certs.end(), many.begin(), many.end());
  if (!many.empty())
    c.label("crowd");
  bool use_store = s.chance(70);
  if (use_store) {
    for (int i = 0; i < n; i++) {
      bool root = g[(size_t)i].parent == i;
      if (s.chance(root ? 80 : 10))
        store.push_back(g[(size_t)i].c.der);
    }
    if (s.chance(30))
      store.push_back(unrelated(s, 3).der);
    auto more = crowd(s, 5);
    store.insert(store.end(), more.begin(), more.end());
  }
  if (s.chance(20)) { // somebody bearing an entity's name with another key
    int i = forged_name >= 0 && s.flip() ? forged_name : (int)s.below((uint64_t)n);
    CertSpec p;
    p.subject = get_name(X509_get_subject_name(g[(size_t)i].c.x.get()));
    p.ca = 1;
    p.serial = {0x55};
    p.skid = s.flip();
    Cert imp = make_cert(p, s.chance(70) ? forger : kind(11, 20));
    (use_store && s.flip() ? store : certs).push_back(imp.der);
    unique = false;
    c.label("namesake");
  }
  shuffle(s, certs);
  shuffle(s, store);
  std::vector<Bytes> all = certs;
  all.insert(all.end(), store.begin(), store.end());
  // every certificate reached from the target over genuine signatures
  std::vector<Bytes> reach = {T};
  for (size_t i = 0; i < reach.size(); i++)
    for (auto &x : all)
      if (std::find(reach.begin(), reach.end(), x) == reach.end() &&
          issued(reach[i], x))
        reach.push_back(x);
  bool anchored = false, anchored_self = false, direct = false;
  for (auto &x : reach)
    if (std::find(store.begin(), store.end(), x) != store.end()) {
      anchored = true;
      if (self_signed(x))
        anchored_self = true;
    }
  for (auto &x : certs)
    if (x == T || issued(T, x))
      direct = true;
  // anchors proper are self-signed; an intermediate among them may end the
  // search for its own issuer
  for (auto &x : store)
    if (!self_signed(x))
      anchored_self = false;
  bool must_accept = unique && (use_store ? anchored_self : direct);
  bool must_refuse = use_store ? !anchored : !direct;
  std::string d;
  for (int i = 0; i < n; i++)
    d += pbt::fmt("%d<-%d%s ", i, g[(size_t)i].parent,
                  g[(size_t)i].genuine ? "" : "(forged)");
  c.note("%s target %d certs %zu store %zu%s", d.c_str(), target, certs.size(),
         store.size(), use_store ? "" : " (none)");
  c.label(must_accept ? "must-accept" : must_refuse ? "must-refuse" : "free");
  c.nontrivial(must_accept || must_refuse);
  int rc = verify(T, certs, use_store ? &store : nullptr);
  REQUIRE(rc == 0 || rc == -1, "return-value", "returned %d", rc);
  if (must_accept)
    REQUIRE(rc == 0, "genuine-refused", "a genuine chain was refused");
  if (must_refuse)
    REQUIRE(rc == -1, "forged-accepted",
            "accepted without a chain of genuine signatures");
}
PROPERTY(C12, corrupted, 4) {
  // a byte of a certificate on the only chain changes
  int depth = 1 + (int)s.below(3);
  Chain ch = chain(s, "a", 0, depth, ec(0), dn("device"));
  std::vector<Bytes> path = {ch.leaf.der};
  for (auto &i : ch.inter)
    path.push_back(i.der);
  size_t w = s.below(path.size());
  Bytes orig = path[w];
  path[w] = mutate(s, path[w], 2);
  if (path[w].empty())
    path[w].push_back(0);
  std::vector<Bytes> certs(path.begin() + 1, path.end()), store = {ch.root.der};
  shuffle(s, certs);
  int rc = verify(path[0], certs, &store);
  c.nontrivial(path[w] != orig);
  c.note("certificate %zu: was %s now %s", w, pbt::hex(orig, 900).c_str(), pbt::hex(path[w], 900).c_str());
  // accepted: the signed part of the changed certificate must be the same
  if (rc == 0 && path[w] != orig) {
    bool links = true;
    for (size_t i = 0; i + 1 < path.size(); i++)
      links = links && issued(path[i], path[i + 1]);
    links = links && issued(path.back(), ch.root.der);
    REQUIRE(links, "forged-accepted", "accepted with certificate %zu changed", w);
  }
  c.label(rc ? "refused" : "accepted");
}
PROPERTY(C12, malformed, 3) {
  Chain ch = chain(s, "a", 0, 1, ec(0), dn("device"));
  Bytes bad = s.chance(50) ? s.bytes(1 + s.size(200)) : ch.leaf.der;
  if (bad == ch.leaf.der)
    bad.resize(1 + s.below(bad.size() - 1));
  if (parse_cert(bad))
    return;
  int pos = (int)s.below(3);
  std::vector<Bytes> certs, store;
  certs.push_back(unrelated(s, 1).der);
  store.push_back(ch.root.der);
  c.nontrivial();
  c.note("malformed %s in position %d", pbt::hex(bad).c_str(), pos);
  Bytes t = ch.leaf.der;
  bool use_store = pos == 2 || s.flip();
  if (pos == 0)
    t = bad;
  else
    (pos == 1 ? certs : store).push_back(bad);
  int rc = verify(t, certs, use_store ? &store : nullptr);
  REQUIRE(rc == -1, "malformed-accepted", "position %d accepted", pos);
  Raw r(ch.leaf.der);
  List cl(certs, false);
  REQUIRE(crypto_verify_cert(nullptr, 0, cl, nullptr) == -1 &&
              crypto_verify_cert(r.p, r.n, nullptr, nullptr) == -1,
          "missing-accepted", "missing parameters accepted");
}

// ------------------------------------------------------------------- C13
static Name meta_of(const Name &n) { // first value per name, in fixed order
  Name r;
  for (auto &k : DNK)
    for (auto &e : n)
      if (e.first == k) {
        r.push_back(e);
        break;
      }
  return r;
}
static std::string utf8_val(Src &s, const std::string &k) {
  if (k == "C" || k == "serialNumber" || k == "emailAddress" || s.chance(70))
    return dn_val(s, k);
  static const std::vector<std::string> U = {"é", "ü", "ß", "中", "Ω", "я", "a", " "};
  std::string r;
  for (int i = 1 + (int)s.below(8); i > 0; i--)
    r += s.pick(U);
  return r;
}
static Name gen_uname(Src &s) {
  Name n;
  for (int i = (int)s.below(s.chance(4) ? 46 : 8); i > 0; i--) {
    std::string k = s.pick(DNK);
    n.push_back({k, utf8_val(s, k)});
  }
  if (s.chance(30))
    n.push_back({s.pick(std::vector<std::string>{"title", "DC", "name", "UID"}),
                 "x1"});
  return n;
}
// string types for the values of a name; some values become longer than usual
static std::vector<int> gen_types(Src &s, Name &n) {
  std::vector<int> r;
  bool rdn = s.chance(20);
  for (auto &e : n) {
    bool ascii = true;
    for (char ch : e.second)
      ascii = ascii && (uint8_t)ch < 0x80;
    int t = 0;
    if (s.chance(50)) {
      t = s.pick(std::vector<int>{V_ASN1_UTF8STRING, V_ASN1_T61STRING, V_ASN1_BMPSTRING, V_ASN1_UNIVERSALSTRING,
                                  ascii ? V_ASN1_PRINTABLESTRING : V_ASN1_UTF8STRING,
                                  ascii ? V_ASN1_IA5STRING : V_ASN1_UTF8STRING});
      if (s.chance(10))
        e.second += s.str("xyz 0123", s.length(200, 5000));
      else if (s.chance(5))
        e.second.clear();
      else if (t == V_ASN1_T61STRING && s.chance(50))
        e.second += "\xc3\xbc\xc3\x9f";
    }
    r.push_back(t | (rdn && s.chance(40) ? NAME_SAME_RDN : 0));
  }
  return r;
}
static std::string oneline(X509_NAME *n) {
  BIO *b = BIO_new(BIO_s_mem());
  X509_NAME_print_ex(b, n, 0, XN_FLAG_ONELINE);
  char *p = nullptr;
  long l = BIO_get_mem_data(b, &p);
  std::string r(p, (size_t)l);
  BIO_free(b);
  return r;
}
PROPERTY(C13, identity, 10) {
  CertSpec sp;
  sp.subject = gen_uname(s);
  sp.issuer = gen_uname(s);
  if (sp.issuer.empty())
    sp.issuer = dn("issuer");
  if (s.chance(60)) {
    sp.subject.insert(
        sp.subject.begin() + (long)s.below(sp.subject.size() + 1),
        {"serialNumber", dn_val(s, "serialNumber")});
  }
  if (s.chance(40)) {
    sp.stypes = gen_types(s, sp.subject);
    sp.itypes = gen_types(s, sp.issuer);
    c.label("types");
  }
  sp.serial = s.bytes(1 + s.size(s.chance(20) ? 15 : 7));
  if (s.flip())
    sp.serial[0] |= 0x80;
  sp.ca = s.range(-1, 1);
  sp.skid = s.flip();
  if (s.chance(30))
    sp.ku = "digitalSignature";
  const Key &k = s.chance(8) ? rsa(0) : ec(0);
  Cert t = make_cert(sp, k);
  c.note("subject {%s} issuer {%s}", show(sp.subject).c_str(),
         show(sp.issuer).c_str());
  c.nontrivial(!sp.subject.empty());
  Raw r(t.der);
  CRYPTO_CERT cc = crypto_cert2context(r.p, r.n);
  REQUIRE(cc, "certificate-refused", "well-formed certificate refused");
  KV iss, sub;
  struct crypto_cert_meta m = {};
  m.issuer = iss.l;
  m.subject = sub.l;
  int rc = crypto_getcert_meta(cc, &m);
  const char *sn = rc == 0 ? crypto_getcert_serial(&m) : nullptr;
  std::string got = sn ? sn : "";
  bool have = sn != nullptr;
  struct BinaryArray *ia = crypto_getcert_issuer(cc);
  Bytes ib = ia ? bytes(ia) : Bytes();
  bool hi = ia != nullptr;
  free_binary_array(ia);
  CRYPTO_CERT cp = crypto_copycert(cc);
  struct BinaryArray *cb = cp ? crypto_cert2buf(cp) : nullptr;
  Bytes cbb = cb ? bytes(cb) : Bytes();
  free_binary_array(cb);
  crypto_free_certcontext(cp);
  crypto_free_certcontext(cc);
  REQUIRE(rc == 0, "meta-refused", "metadata refused");
  // what the certificate really holds (re-read by the harness)
  Name ws = get_name(X509_get_subject_name(t.x.get())),
       wi = get_name(X509_get_issuer_name(t.x.get()));
  bool want = false;
  std::string wsn;
  for (auto &e : ws)
    if (e.first == "serialNumber") {
      want = true;
      wsn = e.second;
      break;
    }
  c.label(want ? "with-serial" : "no-serial");
  REQUIRE(have == want && got == wsn, "device-serial",
          "device serial %s instead of %s", pbt::quote(got).c_str(),
          pbt::quote(wsn).c_str());
  REQUIRE(sub.get() == meta_of(ws), "subject-names", "subject {%s}",
          show(sub.get()).c_str());
  REQUIRE(iss.get() == meta_of(wi), "issuer-names", "issuer {%s}",
          show(iss.get()).c_str());
  std::string wo = oneline(X509_get_issuer_name(t.x.get()));
  REQUIRE(hi && S(ib) == wo, "issuer-text", "issuer %s instead of %s",
          pbt::quote(S(ib)).c_str(), pbt::quote(wo).c_str());
  Bytes ser = serial_of(t.x.get());
  if (ser.size() <= 8) {
    uint64_t v = 0;
    for (auto b : ser)
      v = v << 8 | b;
    REQUIRE(m.serial_number == v, "certificate-serial", "%llx instead of %s",
            (unsigned long long)m.serial_number, pbt::hex(ser).c_str());
  }
  REQUIRE(cbb == t.der, "copy", "copied certificate differs");
}
// A name value that cannot be text is refused, not cut off or left out.
PROPERTY(C13, unreadable, 2) {
  CertSpec sp;
  sp.subject = gen_uname(s);
  sp.issuer = gen_uname(s);
  bool in_issuer = s.chance(30);
  Name &n = in_issuer ? sp.issuer : sp.subject;
  std::string k = s.chance(50) ? "serialNumber" : s.pick(DNK), v = dn_val(s, k);
  // (OpenSSL refuses certificates with ill-formed UTF-8 as a whole)
  v.insert(s.below(v.size() + 1), 1 + s.below(2), '\0');
  size_t at = s.below(n.size() + 1);
  for (size_t i = 0; i < at; i++)
    if (n[i].first == k) // the first of its kind counts
      at = i;
  n.insert(n.begin() + (long)at, {k, v});
  std::vector<int> ty(n.size(), 0);
  ty[at] = s.pick(std::vector<int>{NAME_RAW, V_ASN1_PRINTABLESTRING, V_ASN1_IA5STRING, V_ASN1_T61STRING, V_ASN1_BMPSTRING, V_ASN1_UNIVERSALSTRING});
  (in_issuer ? sp.itypes : sp.stypes) = ty;
  if (sp.issuer.empty())
    sp.issuer = dn("issuer");
  Cert t = make_cert(sp, ec(0));
  c.note("%s %s=%s", in_issuer ? "issuer" : "subject", k.c_str(), pbt::quote(v).c_str());
  c.nontrivial();
  Raw r(t.der);
  CRYPTO_CERT cc = crypto_cert2context(r.p, r.n);
  if (!cc)
    return; // refused as a whole
  KV iss, sub;
  struct crypto_cert_meta m = {};
  m.issuer = iss.l;
  m.subject = sub.l;
  int rc = crypto_getcert_meta(cc, &m);
  crypto_free_certcontext(cc);
  REQUIRE(rc < 0, "unreadable-accepted", "a name value that is not text was read");
}
PROPERTY(C13, malformed, 4) {
  CertSpec sp;
  sp.subject = gen_uname(s);
  sp.issuer = dn("i");
  Cert t = make_cert(sp, ec(0));
  Bytes b;
  switch (s.below(3)) {
  case 0:
    b = mutate(s, t.der);
    break;
  case 1:
    b = s.bytes(1 + s.size(300));
    break;
  default:
    b = t.der;
    b.resize(s.below(b.size()));
  }
  if (b.empty())
    b.push_back(0);
  Raw r(b);
  auto ref = [&] {
    const unsigned char *q = b.data();
    X509 *x = d2i_X509(nullptr, &q, (long)b.size());
    ERR_clear_error();
    return std::shared_ptr<X509>(x, X509_free);
  }();
  c.note("%s", pbt::hex(b, 600).c_str());
  c.nontrivial();
  CRYPTO_CERT cc = crypto_cert2context(r.p, r.n);
  REQUIRE((cc != nullptr) == (ref != nullptr), "malformed-accepted",
          "accepted %d, standard parser %d", cc != nullptr, ref != nullptr);
  c.label(cc ? "parsed" : "refused");
  if (!cc)
    return;
  KV iss, sub;
  struct crypto_cert_meta m = {};
  m.issuer = iss.l;
  m.subject = sub.l;
  int rc = crypto_getcert_meta(cc, &m);
  if (rc == 0) {
    const char *sn = crypto_getcert_serial(&m);
    Name ws = get_name(X509_get_subject_name(ref.get()));
    std::string w;
    bool have = false;
    for (auto &e : ws)
      if (e.first == "serialNumber") {
        w = e.second.c_str();
        have = true;
        break;
      }
    REQUIRE((sn != nullptr) == have && (!sn || w == sn), "device-serial",
            "device serial %s", sn ? sn : "(none)");
  }
  struct BinaryArray *ia = crypto_getcert_issuer(cc);
  free_binary_array(ia);
  crypto_free_certcontext(cc);
}
PROPERTY(C13, missing_params, 1) {
  struct crypto_cert_meta m = {};
  KV iss, sub;
  m.issuer = iss.l;
  m.subject = sub.l;
  c.nontrivial();
  REQUIRE(crypto_getcert_meta(nullptr, &m) == -1, "missing-accepted", "no certificate");
  REQUIRE(crypto_getcert_issuer(nullptr) == nullptr, "missing-accepted", "no certificate");
  REQUIRE(crypto_cert2buf(nullptr) == nullptr, "missing-accepted", "no certificate");
  REQUIRE(crypto_copycert(nullptr) == nullptr, "missing-accepted", "no certificate");
  REQUIRE(crypto_getcert_serial(&m) == nullptr, "device-serial", "serial of nothing");
}

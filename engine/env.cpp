#include "env.hpp"
#include <unordered_map>

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <sys/stat.h>
#include <unistd.h>

#ifndef FIXTURES
#define FIXTURES "/verif/fixtures"
#endif

namespace env {

// ------------------------------------------------------------- C adapters
void BA::set(const Bytes &b) {
  a.array = (uint8_t *)malloc(b.size() ? b.size() : 1);
  if (b.size())
    memcpy(a.array, b.data(), b.size());
  a.length = b.size();
}
BA::~BA() { free(a.array); }
Raw::Raw(const Bytes &b, bool nul) {
  n = b.size();
  p = (uint8_t *)malloc(n + (nul ? 1 : 0) + (n || nul ? 0 : 1));
  if (n)
    memcpy(p, b.data(), n);
  if (nul)
    p[n] = 0;
}
Raw::~Raw() { free(p); }
List::List(const std::vector<Bytes> &v, bool null_if_empty) {
  if (v.empty() && null_if_empty)
    return;
  l = init_array_list();
  for (auto &b : v) {
    Raw r(b);
    push_array_list(l, r.p, r.n, 0);
  }
}
List::List(const std::vector<std::pair<Bytes, int>> &v) {
  l = init_array_list();
  for (auto &b : v) {
    Raw r(b.first);
    push_array_list(l, r.p, r.n, b.second);
  }
}
List::~List() { free_array_list(l); }
Bytes bytes(const struct BinaryArray *a) {
  if (!a || !a->array)
    return Bytes();
  return Bytes(a->array, a->array + a->length);
}
std::vector<std::pair<Bytes, int>> items(const struct BinaryArrayList *l) {
  std::vector<std::pair<Bytes, int>> r;
  if (!l)
    return r;
  const struct BinaryArrayList *el;
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) {
    r.push_back({Bytes(el->arr, el->arr + el->length), el->flags});
  }
  return r;
}
Bytes take(struct BinaryArray *a) {
  Bytes r = bytes(a);
  free_binary_array(a);
  return r;
}

// ------------------------------------------------------------------- files
void write_file(const std::string &path, const Bytes &b) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) {
    perror(path.c_str());
    _exit(2);
  }
  if (b.size())
    fwrite(b.data(), 1, b.size(), f);
  fclose(f);
}
void write_file(const std::string &path, const std::string &s) {
  write_file(path, B(s));
}
bool read_file(const std::string &path, Bytes &out) {
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f)
    return false;
  uint8_t buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0)
    out.insert(out.end(), buf, buf + n);
  fclose(f);
  return true;
}
std::string pem(const char *label, const Bytes &der) {
  std::string b = b64(der), r = std::string("-----BEGIN ") + label + "-----\n";
  for (size_t i = 0; i < b.size(); i += 64)
    r += b.substr(i, 64) + "\n";
  return r + "-----END " + label + "-----\n";
}
std::string put_cert(const std::string &name, const Bytes &der) {
  std::string p = pbt::scratch() + "/" + name;
  write_file(p, pem("CERTIFICATE", der));
  return p;
}
std::string put_key(const std::string &name, const Key &k) {
  std::string p = pbt::scratch() + "/" + name;
  write_file(p, pem(k.rsa ? "RSA PRIVATE KEY" : "EC PRIVATE KEY", k.der));
  return p;
}

// ------------------------------------------------------------------- keys
Key key_from_der(const Bytes &der) {
  Key k;
  k.der = der;
  const unsigned char *q = der.data();
  k.p = d2i_AutoPrivateKey(nullptr, &q, (long)der.size());
  if (k.p)
    k.rsa = EVP_PKEY_base_id(k.p) == EVP_PKEY_RSA;
  else
    ERR_clear_error();
  return k;
}
static Key load_fixture(const std::string &name) {
  Bytes b;
  if (!read_file(std::string(FIXTURES) + "/" + name, b)) {
    fprintf(stderr, "harness: missing fixture %s\n", name.c_str());
    _exit(2);
  }
  Key k = key_from_der(b);
  if (!k.p)
    _exit(2);
  return k;
}
static std::vector<Key> g_ec, g_rsa;
static Key g_p384;
const Key &ec(int i) { return g_ec[(size_t)i % g_ec.size()]; }
const Key &rsa(int i) { return g_rsa[(size_t)i % g_rsa.size()]; }
const Key &p384() { return g_p384; }
bool same_key(EVP_PKEY *a, EVP_PKEY *b) {
  return a && b && EVP_PKEY_eq(a, b) == 1;
}
static bool g_loud = false;
void begin(pbt::Src &s) {
  if (g_loud)
    log_set_quiet(!s.chance(10));
}
void init() {
  // In some cases every message is formatted, and thrown away. Not where the
  // log itself is judged, where allocations are counted, or under several
  // threads (the log is not to be used by them without a lock).
  const std::string &id = pbt::prop_id();
  if (getenv("VERIF_LOG"))
    log_set_quiet(false);
  else if (id == "C19" || id == "C24" || id == "C25" || id == "C27")
    log_set_quiet(true);
  else {
    static char null[] = "/dev/null";
    log_set_quiet(true);
    log_set_level(0);
    g_loud = log_open_file(null) == 0;
  }
  setenv("TZ", "UTC0", 1);
  tzset();
  if (g_ec.empty()) {
    for (int i = 0; i < N_EC; i++)
      g_ec.push_back(load_fixture("ec" + std::to_string(i) + ".der"));
    for (int i = 0; i < N_RSA; i++)
      g_rsa.push_back(load_fixture("rsa" + std::to_string(i) + ".der"));
    g_p384 = load_fixture("p384.der");
  }
}

// ----------------------------------------------------------- certificates
std::shared_ptr<X509> parse_cert(const Bytes &der) {
  const unsigned char *q = der.data();
  X509 *x = d2i_X509(nullptr, &q, (long)der.size());
  if (x && q != der.data() + der.size()) {
    X509_free(x);
    x = nullptr;
  }
  ERR_clear_error();
  if (!x)
    return nullptr;
  return std::shared_ptr<X509>(x, X509_free);
}
Cert cert_from(const Bytes &der, const Key *key) {
  Cert c;
  c.der = der;
  c.x = parse_cert(der);
  c.key = key;
  return c;
}
static std::vector<uint32_t> code_points(const std::string &u) {
  std::vector<uint32_t> r;
  for (size_t i = 0; i < u.size();) {
    uint8_t b = (uint8_t)u[i];
    int n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
    uint32_t c = n == 1 ? b : b & (0xff >> (n + 1));
    for (int k = 1; k < n && i + (size_t)k < u.size(); k++)
      c = c << 6 | ((uint8_t)u[i + (size_t)k] & 0x3f);
    r.push_back(c);
    i += (size_t)n;
  }
  return r;
}
static const char *PRINTABLE = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz '()+,-./:=?";
static X509_NAME *mk_name(const Name &n, const std::vector<int> &types) {
  X509_NAME *r = X509_NAME_new();
  for (size_t i = 0; i < n.size(); i++) {
    auto &e = n[i];
    int t = i < types.size() ? types[i] : 0, set = t & NAME_SAME_RDN && i ? -1 : 0;
    t &= 255;
    std::string v = e.second;
    if (!t && e.first == "serialNumber" && (e.second.size() > 64 || e.second.find_first_not_of(PRINTABLE) != std::string::npos))
      t = NAME_RAW;
    if (t == V_ASN1_T61STRING || t == V_ASN1_BMPSTRING || t == V_ASN1_UNIVERSALSTRING) {
      int w = t == V_ASN1_T61STRING ? 1 : t == V_ASN1_BMPSTRING ? 2 : 4;
      v.clear();
      for (uint32_t c : code_points(e.second)) {
        if (w < 4 && c >> (8 * w)) { // has no form in this type
          t = V_ASN1_UTF8STRING;
          break;
        }
        for (int k = w - 1; k >= 0; k--)
          v += (char)(c >> (8 * k));
      }
      if (t == V_ASN1_UTF8STRING)
        v = e.second;
    }
    if (!X509_NAME_add_entry_by_txt(r, e.first.c_str(), !t ? MBSTRING_UTF8 : t == NAME_RAW ? V_ASN1_UTF8STRING : t,
                                    (const unsigned char *)v.data(), (int)v.size(), -1, set)) {
      fprintf(stderr, "harness: bad DN %s=%s (%d)\n", e.first.c_str(), e.second.c_str(), t);ERR_print_errors_fp(stderr);
      _exit(2);
    }
  }
  return r;
}
static void add_ext(X509V3_CTX *ctx, X509 *x, int nid, const std::string &v) {
  X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, ctx, nid, v.c_str());
  if (!e) {
    fprintf(stderr, "harness: bad extension %s\n", v.c_str());
    ERR_print_errors_fp(stderr);
    _exit(2);
  }
  X509_add_ext(x, e, -1);
  X509_EXTENSION_free(e);
}
static int do_sign(X509 *x, const Key &k) {
  return X509_sign(x, k.p, EVP_sha256());
}
static Cert make_cert_(const CertSpec &sp, const Key &key, const Cert *signer,
                       const Key *sign_key) {
  X509 *x = X509_new();
  X509_set_version(x, 2);
  BIGNUM *bn = BN_bin2bn(sp.serial.data(), (int)sp.serial.size(), nullptr);
  BN_to_ASN1_INTEGER(bn, X509_get_serialNumber(x));
  BN_free(bn);
  int64_t now = pbt::clock_get();
  int64_t nb = sp.nb ? sp.nb : now - 86400, na = sp.na ? sp.na : now + 86400 * 3650LL;
  ASN1_TIME_adj(X509_getm_notBefore(x), (time_t)nb, 0, 0);
  ASN1_TIME_adj(X509_getm_notAfter(x), (time_t)na, 0, 0);
  X509_NAME *sn = mk_name(sp.subject, sp.stypes);
  X509_set_subject_name(x, sn);
  if (!sp.issuer.empty()) {
    X509_NAME *in = mk_name(sp.issuer, sp.itypes);
    X509_set_issuer_name(x, in);
    X509_NAME_free(in);
  } else if (signer)
    X509_set_issuer_name(x, X509_get_subject_name(signer->x.get()));
  else
    X509_set_issuer_name(x, sn);
  X509_NAME_free(sn);
  X509_set_pubkey(x, key.p);
  X509V3_CTX ctx;
  X509V3_set_ctx_nodb(&ctx);
  X509V3_set_ctx(&ctx, signer ? signer->x.get() : x, x, nullptr, nullptr, 0);
  if (sp.ca >= 0) {
    std::string v = sp.ca ? "critical,CA:TRUE" : "CA:FALSE";
    if (sp.ca && sp.pathlen >= 0)
      v += ",pathlen:" + std::to_string(sp.pathlen);
    add_ext(&ctx, x, NID_basic_constraints, v);
  }
  if (!sp.ku.empty())
    add_ext(&ctx, x, NID_key_usage, sp.ku);
  if (!sp.eku.empty())
    add_ext(&ctx, x, NID_ext_key_usage, sp.eku);
  if (sp.skid)
    add_ext(&ctx, x, NID_subject_key_identifier, "hash");
  if (sp.akid && signer &&
      X509_get_ext_by_NID(signer->x.get(), NID_subject_key_identifier, -1) >= 0)
    add_ext(&ctx, x, NID_authority_key_identifier, "keyid:always");
  for (auto &e : sp.more) {
    ASN1_OBJECT *o = OBJ_txt2obj(e.oid.c_str(), 0);
    ASN1_OCTET_STRING *v = ASN1_OCTET_STRING_new();
    ASN1_OCTET_STRING_set(v, e.value.data(), (int)e.value.size());
    X509_EXTENSION *ext = X509_EXTENSION_create_by_OBJ(nullptr, o, e.critical, v);
    X509_add_ext(x, ext, -1);
    X509_EXTENSION_free(ext);
    ASN1_OCTET_STRING_free(v);
    ASN1_OBJECT_free(o);
  }
  const Key &sk = sign_key ? *sign_key : signer ? *signer->key : key;
  if (!do_sign(x, sk)) {
    ERR_print_errors_fp(stderr);
    _exit(2);
  }
  unsigned char *out = nullptr;
  int n = i2d_X509(x, &out);
  Cert c;
  c.der.assign(out, out + n);
  OPENSSL_free(out);
  X509_free(x);
  c.x = parse_cert(c.der);
  c.key = &key;
  return c;
}
// A certificate is a function of its specification alone (the signature's
// randomness is seeded from it), so that it can be remembered.
Cert make_cert(const CertSpec &sp, const Key &key, const Cert *signer,
               const Key *sign_key) {
  std::string k = pbt::fmt(
      "%p %p %lld %lld %lld %d %d %d %d ", (void *)key.p,
      (void *)(sign_key ? sign_key->p : signer ? signer->key->p : key.p),
      (long long)pbt::clock_get(), (long long)sp.nb, (long long)sp.na, sp.ca,
      sp.pathlen, (int)sp.skid, (int)sp.akid);
  auto add = [&](const std::string &x) { k += std::to_string(x.size()) + ":" + x; };
  for (auto *n : {&sp.subject, &sp.issuer}) {
    for (auto &e : *n)
      add(e.first), add(e.second);
    k += "|";
  }
  add(S(sp.serial)), add(sp.ku), add(sp.eku);
  for (auto *v : {&sp.stypes, &sp.itypes}) {
    for (int x : *v)
      k += std::to_string(x) + ",";
    k += "|";
  }
  for (auto &e : sp.more)
    add(e.oid), add(S(e.value)), k += e.critical ? "!" : ".";
  if (signer)
    add(S(signer->der));
  static std::unordered_map<std::string, Cert> memo;
  auto it = memo.find(k);
  if (it != memo.end()) {
    Cert c = it->second;
    c.key = &key;
    return c;
  }
  uint64_t h = 1469598103934665603ull, keep = rng_state();
  // pointers differ between runs: seed from the rest
  for (char ch : k.substr(k.find(' ', k.find(' ') + 1)))
    h = (h ^ (uint8_t)ch) * 1099511628211ull;
  rng_reseed(h);
  Cert c = make_cert_(sp, key, signer, sign_key);
  rng_restore(keep);
  if (memo.size() > 3000)
    memo.clear();
  memo[k] = c;
  return c;
}
Bytes make_crl(const Cert &ca, const std::vector<Bytes> &revoked) {
  X509_CRL *crl = X509_CRL_new();
  X509_CRL_set_version(crl, 1);
  X509_CRL_set_issuer_name(crl, X509_get_subject_name(ca.x.get()));
  ASN1_TIME *t = ASN1_TIME_adj(nullptr, (time_t)pbt::clock_get() - 3600, 0, 0);
  X509_CRL_set1_lastUpdate(crl, t);
  ASN1_TIME_adj(t, (time_t)pbt::clock_get() + 86400 * 30, 0, 0);
  X509_CRL_set1_nextUpdate(crl, t);
  ASN1_TIME_adj(t, (time_t)pbt::clock_get() - 3600, 0, 0);
  for (auto &s : revoked) {
    X509_REVOKED *r = X509_REVOKED_new();
    BIGNUM *bn = BN_bin2bn(s.data(), (int)s.size(), nullptr);
    ASN1_INTEGER *ai = BN_to_ASN1_INTEGER(bn, nullptr);
    BN_free(bn);
    X509_REVOKED_set_serialNumber(r, ai);
    ASN1_INTEGER_free(ai);
    X509_REVOKED_set_revocationDate(r, t);
    X509_CRL_add0_revoked(crl, r);
  }
  ASN1_TIME_free(t);
  X509_CRL_sort(crl);
  X509_CRL_sign(crl, ca.key->p, EVP_sha256());
  unsigned char *out = nullptr;
  int n = i2d_X509_CRL(crl, &out);
  Bytes r(out, out + n);
  OPENSSL_free(out);
  X509_CRL_free(crl);
  return r;
}
Name get_name(X509_NAME *n) {
  Name r;
  for (int i = 0; i < X509_NAME_entry_count(n); i++) {
    X509_NAME_ENTRY *e = X509_NAME_get_entry(n, i);
    unsigned char *u = nullptr;
    int l = ASN1_STRING_to_UTF8(&u, X509_NAME_ENTRY_get_data(e));
    r.push_back({OBJ_nid2sn(OBJ_obj2nid(X509_NAME_ENTRY_get_object(e))),
                 l > 0 ? std::string((char *)u, (size_t)l) : ""});
    OPENSSL_free(u);
  }
  return r;
}
bool signed_by(X509 *x, EVP_PKEY *k) {
  bool r = X509_verify(x, k) == 1;
  ERR_clear_error();
  return r;
}

// -------------------------------------------------------------------- CMS
Bytes cms_sign(const Bytes &data, const Cert &c, const Key &k,
               const std::vector<Cert> &extra, bool attach,
               bool include_signer) {
  BIO *in =
      BIO_new_mem_buf(data.empty() ? (void *)"" : data.data(), (int)data.size());
  STACK_OF(X509) *st = sk_X509_new_null();
  for (auto &e : extra)
    sk_X509_push(st, e.x.get());
  unsigned flags = CMS_BINARY;
  if (!attach)
    flags |= CMS_DETACHED;
  if (!include_signer)
    flags |= CMS_NOCERTS;
  CMS_ContentInfo *ci =
      CMS_sign(c.x.get(), k.p, st, in, flags | CMS_NOSMIMECAP);
  Bytes r;
  if (ci) {
    unsigned char *out = nullptr;
    int n = i2d_CMS_ContentInfo(ci, &out);
    r.assign(out, out + n);
    OPENSSL_free(out);
    CMS_ContentInfo_free(ci);
  }
  BIO_free(in);
  sk_X509_free(st);
  ERR_clear_error();
  return r;
}
static Bytes x2b(X509 *x) {
  unsigned char *out = nullptr;
  int n = i2d_X509(x, &out);
  Bytes r(out, out + (n > 0 ? n : 0));
  OPENSSL_free(out);
  return r;
}
CmsInfo cms_info(const Bytes &der, const std::vector<Bytes> &certs) {
  CmsInfo r;
  const unsigned char *q = der.data();
  CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)der.size());
  if (!ci || q != der.data() + der.size()) {
    CMS_ContentInfo_free(ci);
    ERR_clear_error();
    return r;
  }
  r.ok = true;
  char oid[80] = "";
  if (CMS_get0_eContentType(ci))
    OBJ_obj2txt(oid, sizeof oid, CMS_get0_eContentType(ci), 1);
  r.econtent_oid = oid;
  ASN1_OCTET_STRING **pos = CMS_get0_content(ci);
  if (pos && *pos) {
    r.attached = true;
    const unsigned char *d = ASN1_STRING_get0_data(*pos);
    r.content.assign(d, d + ASN1_STRING_length(*pos));
  }
  STACK_OF(X509) *cs = CMS_get1_certs(ci);
  for (int i = 0; i < sk_X509_num(cs); i++)
    r.certs.push_back(x2b(sk_X509_value(cs, i)));
  sk_X509_pop_free(cs, X509_free);
  STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(ci);
  r.n_signers = si ? sk_CMS_SignerInfo_num(si) : 0;
  STACK_OF(X509) *more = sk_X509_new_null();
  std::vector<std::shared_ptr<X509>> hold;
  for (auto &c : certs) {
    auto x = parse_cert(c);
    if (x) {
      hold.push_back(x);
      sk_X509_push(more, x.get());
    }
  }
  BIO *out = BIO_new(BIO_s_mem());
  r.sig_ok = CMS_verify(ci, more, nullptr, nullptr, out,
                        CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY) == 1;
  BIO_free(out);
  if (r.sig_ok) {
    STACK_OF(X509) *ss = CMS_get0_signers(ci);
    for (int i = 0; i < sk_X509_num(ss); i++)
      r.signers.push_back(x2b(sk_X509_value(ss, i)));
    sk_X509_free(ss);
  }
  sk_X509_free(more);
  CMS_ContentInfo_free(ci);
  ERR_clear_error();
  return r;
}

// --------------------------------------------------------- reference codecs
static const char B64A[] =
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const Bytes &b) {
  std::string r;
  size_t i = 0;
  while (i < b.size()) {
    uint32_t v = 0;
    int k = 0;
    for (; k < 3; k++)
      v = (v << 8) | (i + (size_t)k < b.size() ? b[i + (size_t)k] : 0);
    size_t have = std::min<size_t>(3, b.size() - i);
    for (int j = 0; j < 4; j++)
      r += (size_t)j <= have ? B64A[(v >> (18 - 6 * j)) & 63] : '=';
    i += 3;
  }
  return r;
}
bool b64d(const std::string &s, Bytes &out) {
  out.clear();
  if (s.size() % 4)
    return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t v = 0;
    int pad = 0;
    for (size_t j = 0; j < 4; j++) {
      char ch = s[i + j];
      const char *p = ch ? strchr(B64A, ch) : nullptr;
      if (ch == '=' && i + 4 == s.size() && j >= 2) {
        pad++;
        v <<= 6;
      } else if (p && !pad)
        v = (v << 6) | (uint32_t)(p - B64A);
      else
        return false;
    }
    out.push_back((uint8_t)(v >> 16));
    if (pad < 2)
      out.push_back((uint8_t)(v >> 8));
    if (pad < 1)
      out.push_back((uint8_t)v);
    if ((pad == 2 && (v & 0xffff)) || (pad == 1 && (v & 0xff)))
      return false;
  }
  return true;
}
static int64_t days(int64_t y, int m, int d) { // civil to days since epoch
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = (unsigned)(y - era * 400);
  unsigned doy = (unsigned)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
int64_t tm_to(const struct tm &t) {
  return days(t.tm_year + 1900LL, t.tm_mon + 1, t.tm_mday) * 86400 +
         t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec;
}
struct tm tm_from(int64_t s) {
  int64_t z = s / 86400, r = s % 86400;
  if (r < 0)
    r += 86400, z--;
  int64_t z0 = z;
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  unsigned doe = (unsigned)(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t y = (int64_t)yoe + era * 400;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  unsigned d = doy - (153 * mp + 2) / 5 + 1;
  unsigned m = mp < 10 ? mp + 3 : mp - 9;
  y += m <= 2;
  struct tm t;
  memset(&t, 0, sizeof t);
  t.tm_year = (int)(y - 1900);
  t.tm_mon = (int)m - 1;
  t.tm_mday = (int)d;
  t.tm_hour = (int)(r / 3600);
  t.tm_min = (int)(r / 60 % 60);
  t.tm_sec = (int)(r % 60);
  t.tm_yday = (int)(z0 - days(y, 1, 1));
  t.tm_wday = (int)(((z0 % 7) + 11) % 7);
  return t;
}
std::string iso(const struct tm &t) {
  return pbt::fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", t.tm_year + 1900,
                  t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
}
bool iso_parse(const std::string &s, struct tm &t) {
  if (s.size() != 20)
    return false;
  static const char pat[] = "dddd-dd-ddTdd:dd:ddZ";
  for (size_t i = 0; i < 20; i++)
    if (pat[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != pat[i])
      return false;
  memset(&t, 0, sizeof t);
  int y = atoi(s.substr(0, 4).c_str());
  t.tm_year = y - 1900;
  t.tm_mon = atoi(s.substr(5, 2).c_str()) - 1;
  t.tm_mday = atoi(s.substr(8, 2).c_str());
  t.tm_hour = atoi(s.substr(11, 2).c_str());
  t.tm_min = atoi(s.substr(14, 2).c_str());
  t.tm_sec = atoi(s.substr(17, 2).c_str());
  static const int md[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (t.tm_mon < 0 || t.tm_mon > 11 || t.tm_mday < 1 || t.tm_hour > 23 ||
      t.tm_min > 59 || t.tm_sec > 60)
    return false;
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  int dm = md[t.tm_mon] + (t.tm_mon == 1 && leap ? 1 : 0);
  if (t.tm_mday > dm)
    return false;
  return true;
}

// ------------------------------------------------------------------- JSON
const JV *JV::get(const std::string &k) const {
  for (auto &e : o)
    if (e.first == k)
      return &e.second;
  return nullptr;
}
namespace {
struct JP {
  const std::string &s;
  size_t i = 0;
  std::string err;
  int depth = 0;
  JP(const std::string &t) : s(t) {}
  void ws() {
    while (i < s.size() &&
           (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
      i++;
  }
  bool bad(const char *m) {
    if (err.empty())
      err = pbt::fmt("%s at %zu", m, i);
    return false;
  }
  static void utf8(std::string &o, uint32_t cp) {
    if (cp < 0x80)
      o += (char)cp;
    else if (cp < 0x800) {
      o += (char)(0xc0 | (cp >> 6));
      o += (char)(0x80 | (cp & 63));
    } else if (cp < 0x10000) {
      o += (char)(0xe0 | (cp >> 12));
      o += (char)(0x80 | ((cp >> 6) & 63));
      o += (char)(0x80 | (cp & 63));
    } else {
      o += (char)(0xf0 | (cp >> 18));
      o += (char)(0x80 | ((cp >> 12) & 63));
      o += (char)(0x80 | ((cp >> 6) & 63));
      o += (char)(0x80 | (cp & 63));
    }
  }
  bool hex4(uint32_t &v) {
    if (i + 4 > s.size())
      return bad("short \\u");
    v = 0;
    for (int k = 0; k < 4; k++, i++) {
      char ch = s[i];
      int d = ch >= '0' && ch <= '9'   ? ch - '0'
              : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10
              : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10
                                       : -1;
      if (d < 0)
        return bad("bad \\u");
      v = v * 16 + (uint32_t)d;
    }
    return true;
  }
  bool str(std::string &o) {
    if (i >= s.size() || s[i] != '"')
      return bad("string expected");
    i++;
    while (i < s.size() && s[i] != '"') {
      unsigned char ch = (unsigned char)s[i++];
      if (ch < 0x20)
        return bad("raw control character in string");
      if (ch != '\\') {
        o += (char)ch;
        continue;
      }
      if (i >= s.size())
        return bad("short escape");
      char e = s[i++];
      switch (e) {
        case '"': o += '"'; break;
        case '\\': o += '\\'; break;
        case '/': o += '/'; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          uint32_t v;
          if (!hex4(v))
            return false;
          if (v >= 0xd800 && v < 0xdc00) {
            if (i + 1 < s.size() && s[i] == '\\' && s[i + 1] == 'u') {
              i += 2;
              uint32_t w;
              if (!hex4(w))
                return false;
              if (w < 0xdc00 || w > 0xdfff)
                return bad("bad surrogate");
              v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
            } else
              return bad("lone surrogate");
          }
          utf8(o, v);
          break;
        }
        default: return bad("bad escape");
      }
    }
    if (i >= s.size())
      return bad("unterminated string");
    i++;
    return true;
  }
  bool val(JV &v) {
    if (++depth > 64)
      return bad("too deep");
    ws();
    if (i >= s.size())
      return bad("value expected");
    bool r = val2(v);
    depth--;
    return r;
  }
  bool lit(const char *w) {
    size_t n = strlen(w);
    if (s.compare(i, n, w) == 0) {
      i += n;
      return true;
    }
    return bad("bad literal");
  }
  bool val2(JV &v) {
    char ch = s[i];
    if (ch == '{') {
      v.t = JV::OBJ;
      i++;
      ws();
      if (i < s.size() && s[i] == '}') {
        i++;
        return true;
      }
      for (;;) {
        ws();
        std::string k;
        if (!str(k))
          return false;
        ws();
        if (i >= s.size() || s[i] != ':')
          return bad("':' expected");
        i++;
        JV e;
        if (!val(e))
          return false;
        v.o.push_back({k, e});
        ws();
        if (i < s.size() && s[i] == ',') {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == '}') {
          i++;
          return true;
        }
        return bad("',' or '}' expected");
      }
    }
    if (ch == '[') {
      v.t = JV::ARR;
      i++;
      ws();
      if (i < s.size() && s[i] == ']') {
        i++;
        return true;
      }
      for (;;) {
        JV e;
        if (!val(e))
          return false;
        v.a.push_back(e);
        ws();
        if (i < s.size() && s[i] == ',') {
          i++;
          continue;
        }
        if (i < s.size() && s[i] == ']') {
          i++;
          return true;
        }
        return bad("',' or ']' expected");
      }
    }
    if (ch == '"') {
      v.t = JV::STR;
      return str(v.s);
    }
    if (ch == 't') {
      v.t = JV::BOOL;
      v.b = true;
      return lit("true");
    }
    if (ch == 'f') {
      v.t = JV::BOOL;
      return lit("false");
    }
    if (ch == 'n')
      return lit("null");
    if (ch == '-' || (ch >= '0' && ch <= '9')) {
      v.t = JV::NUM;
      size_t b = i;
      if (s[i] == '-')
        i++;
      if (i < s.size() && s[i] == '0')
        i++;
      else if (i < s.size() && s[i] >= '1' && s[i] <= '9')
        while (i < s.size() && isdigit((unsigned char)s[i]))
          i++;
      else
        return bad("bad number");
      if (i < s.size() && s[i] == '.') {
        i++;
        size_t d0 = i;
        while (i < s.size() && isdigit((unsigned char)s[i]))
          i++;
        if (i == d0)
          return bad("bad number");
      }
      if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
          i++;
        size_t d0 = i;
        while (i < s.size() && isdigit((unsigned char)s[i]))
          i++;
        if (i == d0)
          return bad("bad number");
      }
      v.s = s.substr(b, i - b);
      return true;
    }
    return bad("bad value");
  }
};
} // namespace
bool json_parse(const std::string &txt, JV &out, std::string *err) {
  JP p(txt);
  bool r = p.val(out);
  if (r) {
    p.ws();
    if (p.i != txt.size())
      r = p.bad("trailing data");
  }
  if (!r && err)
    *err = p.err;
  return r;
}
std::string json_quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch < 0x20)
      r += pbt::fmt("\\u%04x", ch);
    else
      r += (char)ch;
  }
  return r + "\"";
}

// ------------------------------------------------------------ voucher model
const enum VoucherAttributes TIME_ATTRS[3] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON,
                                              ATTR_LAST_RENEWAL_DATE};
const enum VoucherAttributes ARR_ATTRS[5] = {
    ATTR_IDEVID_ISSUER, ATTR_PINNED_DOMAIN_CERT, ATTR_NONCE,
    ATTR_PRIOR_SIGNED_VOUCHER_REQUEST, ATTR_PROXIMITY_REGISTRAR_CERT};
const char *ATTR_NAME[11] = {
    "created-on",     "expires-on",          "assertion",
    "serial-number",  "idevid-issuer",       "pinned-domain-cert",
    "domain-cert-revocation-checks",         "nonce",
    "last-renewal-date", "prior-signed-voucher-request",
    "proximity-registrar-cert"};
const char *ASSERT_NAME[4] = {nullptr, "verified", "logged", "proximity"};

static const int TIME_NAME[3] = {0, 1, 8};
static const int ARR_NAME[5] = {4, 5, 7, 9, 10};

bool vmodel_from_json(const std::string &txt, VModel &m, std::string *err) {
  std::string e;
  JV d;
  auto bad = [&](const std::string &w) {
    if (err)
      *err = w;
    return false;
  };
  if (!json_parse(txt, d, &e))
    return bad("not JSON: " + e);
  if (d.t != JV::OBJ || d.o.size() != 1 ||
      d.o[0].first != "ietf-voucher:voucher" || d.o[0].second.t != JV::OBJ)
    return bad("no single ietf-voucher:voucher object");
  std::map<std::string, int> seen;
  for (auto &kv : d.o[0].second.o) {
    int a = -1;
    for (int i = 0; i < 11; i++)
      if (kv.first == ATTR_NAME[i])
        a = i;
    if (a < 0)
      return bad("unknown key " + kv.first);
    if (seen[kv.first]++)
      return bad("duplicate key " + kv.first);
    const JV &v = kv.second;
    if (a == 6) {
      if (v.t != JV::BOOL)
        return bad("revocation flag not boolean");
      m.drc = v.b;
      continue;
    }
    if (v.t != JV::STR)
      return bad(kv.first + " not a string");
    if (a == 2) {
      for (int i = 1; i < 4; i++)
        if (v.s == ASSERT_NAME[i])
          m.assertion = i;
      if (!m.assertion)
        return bad("bad assertion " + v.s);
    } else if (a == 3) {
      m.has_serial = true;
      m.serial = v.s;
    } else {
      for (int i = 0; i < 3; i++)
        if (TIME_NAME[i] == a) {
          m.has_time[i] = true;
          if (!iso_parse(v.s, m.time[i]))
            return bad(kv.first + " not a UTC date-time: " + v.s);
        }
      for (int i = 0; i < 5; i++)
        if (ARR_NAME[i] == a) {
          m.has_arr[i] = true;
          if (!b64d(v.s, m.arr[i]))
            return bad(kv.first + " not base64: " + v.s);
        }
    }
  }
  return true;
}
std::string vmodel_json(const VModel &m) {
  std::string r = "{\"ietf-voucher:voucher\":{";
  auto kv = [&](int a, const std::string &v) {
    if (r[r.size() - 1] != '{')
      r += ",";
    r += std::string("\"") + ATTR_NAME[a] + "\":" + v;
  };
  if (m.has_time[0])
    kv(0, "\"" + iso(m.time[0]) + "\"");
  if (m.has_time[1])
    kv(1, "\"" + iso(m.time[1]) + "\"");
  if (m.assertion)
    kv(2, std::string("\"") + ASSERT_NAME[m.assertion] + "\"");
  if (m.has_serial)
    kv(3, json_quote(m.serial));
  if (m.has_arr[0])
    kv(4, "\"" + b64(m.arr[0]) + "\"");
  if (m.has_arr[1])
    kv(5, "\"" + b64(m.arr[1]) + "\"");
  kv(6, m.drc ? "true" : "false");
  if (m.has_arr[2])
    kv(7, "\"" + b64(m.arr[2]) + "\"");
  if (m.has_time[2])
    kv(8, "\"" + iso(m.time[2]) + "\"");
  if (m.has_arr[3])
    kv(9, "\"" + b64(m.arr[3]) + "\"");
  if (m.has_arr[4])
    kv(10, "\"" + b64(m.arr[4]) + "\"");
  return r + "}}";
}
static bool same_tm(const struct tm &a, const struct tm &b) {
  return a.tm_year == b.tm_year && a.tm_mon == b.tm_mon &&
         a.tm_mday == b.tm_mday && a.tm_hour == b.tm_hour &&
         a.tm_min == b.tm_min && a.tm_sec == b.tm_sec;
}
std::string vdiff(struct Voucher *v, const VModel &m) {
  for (int i = 0; i < 3; i++) {
    bool ne = is_attr_voucher_nonempty(v, TIME_ATTRS[i]);
    if (ne != m.has_time[i])
      return pbt::fmt("%s present=%d expected=%d", ATTR_NAME[TIME_NAME[i]], ne,
                      m.has_time[i]);
    const struct tm *t = get_attr_time_voucher(v, TIME_ATTRS[i]);
    if (!t)
      return pbt::fmt("%s getter returned NULL", ATTR_NAME[TIME_NAME[i]]);
    if (ne && !same_tm(*t, m.time[i]))
      return pbt::fmt("%s is %s expected %s", ATTR_NAME[TIME_NAME[i]],
                      iso(*t).c_str(), iso(m.time[i]).c_str());
  }
  {
    bool ne = is_attr_voucher_nonempty(v, ATTR_ASSERTION);
    const int *a = get_attr_enum_voucher(v, ATTR_ASSERTION);
    if (!a)
      return "assertion getter returned NULL";
    if (ne != (m.assertion != 0) || *a != m.assertion)
      return pbt::fmt("assertion is %d expected %d", *a, m.assertion);
  }
  {
    bool ne = is_attr_voucher_nonempty(v, ATTR_SERIAL_NUMBER);
    const char *const *sn = get_attr_str_voucher(v, ATTR_SERIAL_NUMBER);
    if (!sn)
      return "serial-number getter returned NULL";
    if (ne != m.has_serial || (ne && !*sn))
      return pbt::fmt("serial-number present=%d expected=%d", ne, m.has_serial);
    if (ne && m.serial != *sn)
      return "serial-number is " + pbt::quote(*sn) + " expected " +
             pbt::quote(m.serial);
  }
  for (int i = 0; i < 5; i++) {
    bool ne = is_attr_voucher_nonempty(v, ARR_ATTRS[i]);
    if (ne != m.has_arr[i])
      return pbt::fmt("%s present=%d expected=%d", ATTR_NAME[ARR_NAME[i]], ne,
                      m.has_arr[i]);
    const struct BinaryArray *a = get_attr_array_voucher(v, ARR_ATTRS[i]);
    if (!a)
      return pbt::fmt("%s getter returned NULL", ATTR_NAME[ARR_NAME[i]]);
    if (ne && bytes(a) != m.arr[i])
      return pbt::fmt("%s is %s expected %s", ATTR_NAME[ARR_NAME[i]],
                      pbt::hex(bytes(a)).c_str(), pbt::hex(m.arr[i]).c_str());
  }
  const bool *d =
      get_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS);
  if (!d)
    return "revocation flag getter returned NULL";
  if (*d != m.drc)
    return pbt::fmt("revocation flag is %d expected %d", *d, m.drc);
  return "";
}
struct Voucher *vbuild(const VModel &m) {
  struct Voucher *v = init_voucher();
  for (int i = 0; i < 3; i++)
    if (m.has_time[i])
      set_attr_time_voucher(v, TIME_ATTRS[i], &m.time[i]);
  if (m.assertion)
    set_attr_enum_voucher(v, ATTR_ASSERTION, m.assertion);
  if (m.has_serial)
    set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, m.serial.c_str());
  for (int i = 0; i < 5; i++)
    if (m.has_arr[i]) {
      BA b(m.arr[i]);
      set_attr_array_voucher(v, ARR_ATTRS[i], b);
    }
  set_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, m.drc);
  return v;
}
std::string vdesc(const VModel &m) {
  std::string j = vmodel_json(m);
  return j.size() > 400 ? j.substr(0, 400) + "..." : j;
}

// --------------------------------------------------------------- generators
std::string gen_serial(Src &s, size_t maxlen) {
  static const std::string P =
      "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
      " '()+,-./:=?";
  size_t n = 1 + s.size(maxlen - 1);
  return s.str(P, n);
}
std::string bad_time(Src &s, int *kind) {
  std::string t = iso(gen_tm(s));
  int k = (int)s.below(14);
  char buf[16];
  switch (k) {
  case 0: snprintf(buf, sizeof buf, "%02d", s.chance(20) ? 0 : s.range(13, 99)); t.replace(5, 2, buf); break;
  case 1: snprintf(buf, sizeof buf, "%02d", s.chance(20) ? 0 : s.range(32, 99)); t.replace(8, 2, buf); break;
  case 2: snprintf(buf, sizeof buf, "%02d", s.range(24, 99)); t.replace(11, 2, buf); break;
  case 3: snprintf(buf, sizeof buf, "%02d", s.range(60, 99)); t.replace(14, 2, buf); break;
  case 4: t = t.substr(0, 1 + s.below(t.size() - 1)); break;
  case 5: {
    static const size_t P[] = {4, 7, 10, 13, 16, 19};
    t[P[s.below(6)]] = s.pick(std::vector<char>{'x', '_', '#', '?', 'q'});
    break;
  }
  case 6: t += s.flip() ? s.pick(std::vector<std::string>{" ", "Z", "junk", "\n", "0", "+00:00"})
                        : s.str("xZ0 :-.", 1 + s.size(20)); break;
  case 7: snprintf(buf, sizeof buf, "%02d", s.range(62, 99)); t.replace(17, 2, buf); break;
  case 8: t.replace(19, 1, s.pick(std::vector<std::string>{"z", "+00:00", ".5Z", " Z", "UTC"})); break;
  case 11: { // a digit missing
    static const size_t P[] = {5, 8, 11, 14, 17};
    size_t p = P[s.below(5)];
    t.erase(p + (t[p] != '0'), 1);
    break;
  }
  case 12: // a day the month hasn't got
    if (s.flip())
      t.replace(5, 5, s.pick(std::vector<std::string>{"02-30", "02-31", "04-31", "06-31", "09-31", "11-31"}));
    else {
      int y = s.range(1970, 9999);
      if (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))
        y++;
      snprintf(buf, sizeof buf, "%04d", y > 9999 ? 9999 : y), t.replace(0, 10, std::string(buf) + "-02-29");
    }
    break;
  case 13: { // blanks
    static const size_t P[] = {0, 5, 8, 11, 14, 17};
    size_t p = P[s.below(6)];
    if (s.flip() && p && t[p] == '0')
      t[p] = ' ';
    else
      t.insert(p, 1, s.pick(std::vector<char>{' ', '\t', '\n'}));
    break;
  }
  case 9: t = s.pick(std::vector<std::string>{"0", "00", "x", "now", "0x", "\"", "Z"}) + (s.flip() ? t : ""); break;
  default: t[s.below(19)] = s.pick(std::vector<char>{'x', '_', '#', '?', 'q'});
  }
  if (kind)
    *kind = k;
  return t;
}
std::string gen_odd_serial(Src &s, size_t maxlen) {
  std::string r;
  for (size_t n = 1 + s.below(4); n > 0; n--)
    r += s.pick(std::vector<std::string>{"%s", "%n", "%d%s", "%", "%99999c", "\"", "\\", "\\u0041", "\n", "\t", "\x7f", "\x01", "{", "}", "</",
                                         "$(id)", "`", "'", ";", "&", "@", "*", "#", "\u00e9", "\u20ac", "\U0001f511", "a", "7"});
  while (r.size() > maxlen) {
    r.pop_back();
    while (!r.empty() && ((unsigned char)r.back() & 0x80)) // whole characters only
      r.pop_back();
  }
  return r.empty() ? "%" : r;
}
std::string gen_unicode(Src &s, size_t maxchars) {
  std::string r;
  for (size_t n = 1 + s.size(maxchars - 1); n > 0; n--) {
    uint32_t cp;
    switch (s.below(6)) {
    case 0: cp = 0x20 + (uint32_t)s.below(0x5f); break;
    case 1: cp = 0x80 + (uint32_t)s.below(0x780); break;
    case 2: cp = 0x800 + (uint32_t)s.below(0xd000); break;
    case 3: cp = 0xe000 + (uint32_t)s.below(0x2000); break;
    case 4: cp = 0x10000 + (uint32_t)s.below(0x100000); break;
    default: cp = s.pick(std::vector<uint32_t>{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x2ffff, 0xfffff, 0x100000, 0x10ffff}); break;
    }
    JP::utf8(r, cp);
  }
  return r;
}
Bytes gen_nonempty(Src &s, size_t maxlen) {
  if (maxlen < 40)
    return s.bytes(1 + s.size(maxlen - 1));
  return s.bytes(1 + s.length(maxlen - 1, 20000));
}
struct tm gen_tm(Src &s, int ylo, int yhi) {
  int64_t lo = days(ylo, 1, 1), hi = days(yhi, 12, 31);
  int64_t d = lo + (int64_t)s.below((uint64_t)(hi - lo + 1));
  if (s.chance(10)) { // month ends, leap days
    struct tm t = tm_from(d * 86400);
    int y = t.tm_year + 1900;
    int mon = (int)s.below(12) + 1;
    int64_t next = mon == 12 ? days(y + 1, 1, 1) : days(y, mon + 1, 1);
    d = next - 1;
  }
  int64_t sec = (int64_t)s.below(86400);
  if (s.chance(10))
    sec = s.flip() ? 0 : 86399;
  return tm_from(d * 86400 + sec);
}
VModel gen_vmodel(Src &s, size_t maxarr) {
  VModel m;
  int density = s.pick(std::vector<int>{50, 20, 80, 100});
  for (int i = 0; i < 3; i++)
    if (s.chance(density)) {
      m.has_time[i] = true;
      m.time[i] = gen_tm(s);
    }
  if (s.chance(density))
    m.assertion = s.range(1, 3);
  if (s.chance(density)) {
    m.has_serial = true;
    m.serial = gen_serial(s, s.chance(10) ? 127 : 40);
  }
  for (int i = 0; i < 5; i++)
    if (s.chance(density)) {
      m.has_arr[i] = true;
      m.arr[i] = gen_nonempty(s, s.chance(5) ? 3000 : maxarr);
    }
  m.drc = s.flip();
  return m;
}
std::string gen_dn_value(Src &s, size_t maxlen) {
  static const std::string P =
      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-/,+=";
  return s.str(P, 1 + s.size(maxlen - 1));
}
} // namespace env

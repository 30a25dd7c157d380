// C05 signed messages verify and return the content; C06 tampered, unsigned
// or untrusted messages are refused.
#include "engine/pki.hpp"
#include <algorithm>
#include <cstring>
#include <openssl/err.h>
using namespace env;
using namespace pki;

static Bytes lib_sign(int how, const Bytes &data, const Bytes &cert,
                      const Key &k, const std::vector<Bytes> &extra,
                      ssize_t *rc) {
  Raw d(data), ce(cert), ke(k.der);
  List ex(extra);
  uint8_t *out = (uint8_t *)0x1;
  ssize_t n;
  if (how == 0)
    n = crypto_sign_cms(d.p, d.n, ce.p, ce.n, ke.p, ke.n, ex, &out);
  else if (how == 1)
    n = crypto_sign_eccms(d.p, d.n, ce.p, ce.n, ke.p, ke.n, ex, &out);
  else
    n = crypto_sign_rsacms(d.p, d.n, ce.p, ce.n, ke.p, ke.n, ex, &out);
  *rc = n;
  Bytes r;
  if (n >= 0) {
    r.assign(out, out + n);
    free(out);
  } else if (out != nullptr)
    r = {0xde, 0xad}; // reported by the caller
  return r;
}
struct Verified {
  bool ok = false;
  Bytes data;
  std::vector<Bytes> signers;
  bool certs_null = true;
};
static Verified lib_verify(const Bytes &cms, const std::vector<Bytes> *certs,
                           const std::vector<std::pair<Bytes, int>> *store,
                           bool want_certs = true) {
  BA m(cms);
  std::unique_ptr<List> ce, st;
  if (certs)
    ce.reset(new List(*certs, false));
  if (store)
    st.reset(new List(*store));
  uint8_t *data = nullptr;
  struct BinaryArrayList *out = nullptr;
  ssize_t n = crypto_verify_cms(m, ce ? ce->l : nullptr, st ? st->l : nullptr,
                                &data, want_certs ? &out : nullptr);
  Verified v;
  v.ok = n >= 0;
  if (n >= 0) {
    if (n)
      v.data.assign(data, data + n);
    free(data);
  }
  v.certs_null = out == nullptr;
  v.signers = list_bytes(out);
  free_array_list(out);
  return v;
}
typedef std::vector<std::pair<Bytes, int>> Store;
static BIO *mem(const Bytes &b) {
  return BIO_new_mem_buf(b.empty() ? (const void *)"" : b.data(),
                         (int)b.size());
}

// ------------------------------------------------------------------- C05
static void sign_verify(Src &s, Ctx &c) {
  const Key &k = any_key(s, 0, 15, 15);
  int depth = (int)s.weighted({35, 40, 25});
  Chain ch = chain(s, "a", 0, depth, k, dn("signer", s.flip() ? "sn1" : ""));
  Bytes data = content(s, s.chance(10) ? 20000 : 400);
  std::vector<Bytes> extra;
  int nx = (int)s.below(4);
  for (int i = 0; i < nx; i++)
    extra.push_back(unrelated(s, i).der);
  auto many = crowd(s, 4);
  extra.insert(extra.end(), many.begin(), many.end());
  // intermediates travel in the message; the list given to the verifier only
  // serves to find the signer's certificate
  for (auto &x : ch.inter)
    extra.push_back(x.der);
  shuffle(s, extra);
  int how = s.flip() ? 0 : (k.rsa ? 2 : 1);
  c.note("key %s depth %d content %zu bytes %s extra %zu entry %d",
         k.rsa ? "rsa" : "ec", depth, data.size(), pbt::hex(data, 24).c_str(),
         extra.size(), how);
  ssize_t rc;
  Bytes m = lib_sign(how, data, ch.leaf.der, k, extra, &rc);
  REQUIRE(rc > 0, "sign-refused", "signing returned %zd", rc);
  c.nontrivial(data.size() > 1);
  c.label(k.rsa ? "rsa" : "ec");
  c.label("depth" + std::to_string(depth));
  CmsInfo info = cms_info(m);
  REQUIRE(info.ok, "not-cms", "output is not a DER CMS structure");
  REQUIRE(info.econtent_oid == "1.2.840.113549.1.7.1", "econtent-type",
          "content type %s", info.econtent_oid.c_str());
  REQUIRE(info.attached && info.content == data, "content-differs",
          "embedded content (%zu bytes, attached %d) is not the signed content",
          info.content.size(), (int)info.attached);
  REQUIRE(info.n_signers == 1 && info.sig_ok, "standard-verify",
          "standard verification: signers %d ok %d", info.n_signers,
          (int)info.sig_ok);
  REQUIRE(info.signers.size() == 1 && info.signers[0] == ch.leaf.der,
          "signer-cert", "the message names another signer");
  std::vector<Bytes> want = extra;
  want.push_back(ch.leaf.der);
  REQUIRE(same_set(info.certs, want), "certs-differ",
          "message carries %zu certificates, expected %zu (or others)",
          info.certs.size(), want.size());
  // the library's own verification
  std::vector<Bytes> given;
  for (int i = 0; i < 2; i++)
    if (s.chance(30))
      given.push_back(unrelated(s, 4 + i).der);
  many = crowd(s, 4);
  given.insert(given.end(), many.begin(), many.end());
  if (s.chance(30) &&
      std::find(given.begin(), given.end(), ch.leaf.der) == given.end())
    given.push_back(ch.leaf.der);
  shuffle(s, given);
  Store st = {{ch.root.der, CRYPTO_CERTIFICATE_VALID}};
  if (s.chance(40)) {
    st.push_back({unrelated(s, 6).der, CRYPTO_CERTIFICATE_VALID});
    for (auto &x : crowd(s, 8))
      st.push_back({x, CRYPTO_CERTIFICATE_VALID});
    shuffle(s, st);
  }
  bool use_store = s.chance(70);
  bool use_certs = !given.empty() || s.flip();
  bool want_certs = s.chance(80);
  Verified v = lib_verify(m, use_certs ? &given : nullptr,
                          use_store ? &st : nullptr, want_certs);
  REQUIRE(v.ok, "verify-refused",
          "genuine message refused (store %d, certs %zu, depth %d)",
          (int)use_store, given.size(), depth);
  REQUIRE(v.data == data, "verify-content",
          "verification returned %zu bytes %s", v.data.size(),
          pbt::hex(v.data, 24).c_str());
  if (want_certs)
    REQUIRE(v.signers.size() == 1 && v.signers[0] == ch.leaf.der,
            "verify-signers", "%zu signer certificates reported",
            v.signers.size());
}
PROPERTY(C05, sign_verify, 10) { sign_verify(s, c); }

PROPERTY(C05, standard_messages, 3) {
  // messages made by standard tools, with and without the signer certificate
  const Key &k = any_key(s, 0, 12, 12);
  int depth = (int)s.weighted({40, 40, 20});
  Chain ch = chain(s, "a", 0, depth, k, dn("signer"));
  Bytes data = content(s, 600);
  bool incl = depth == 2 || s.flip();
  std::vector<Cert> extra = ch.inter;
  for (int i = (int)s.below(3); i > 0; i--)
    extra.push_back(unrelated(s, i));
  shuffle(s, extra);
  Bytes m = cms_sign(data, ch.leaf, k, extra, true, incl);
  REQUIRE(!m.empty(), "harness", "reference signing failed");
  std::vector<Bytes> given;
  if (!incl || s.chance(20))
    given.push_back(ch.leaf.der);
  if (s.flip())
    given.push_back(unrelated(s, 5).der);
  shuffle(s, given);
  Store st = {{ch.root.der, CRYPTO_CERTIFICATE_VALID}};
  bool use_store = s.flip();
  c.note("included %d depth %d given %zu store %d", (int)incl, depth,
         given.size(), (int)use_store);
  c.nontrivial(!incl || depth > 0);
  Verified v = lib_verify(m, given.empty() ? nullptr : &given,
                          use_store ? &st : nullptr);
  REQUIRE(v.ok, "verify-refused", "genuine standard message refused");
  REQUIRE(v.data == data, "verify-content", "%zu bytes returned",
          v.data.size());
  REQUIRE(v.signers.size() == 1 && v.signers[0] == ch.leaf.der,
          "verify-signers", "%zu signer certificates reported",
          v.signers.size());
}
PROPERTY(C05, unusable_key, 3) {
  // a key that is not the certificate's, of the wrong type, or no key at all
  const Key &k = any_key(s, 0, 15, 10);
  Chain ch = chain(s, "a", 0, (int)s.below(2), k, dn("signer"));
  Bytes data = content(s, 100);
  int mode = (int)s.below(5);
  ssize_t rc = 0;
  Bytes r;
  c.note("mode %d key %s", mode, k.rsa ? "rsa" : "ec");
  c.nontrivial();
  c.label("mode" + std::to_string(mode));
  if (mode == 0) { // other key of any type
    const Key &o = s.flip() ? ec(5) : rsa(2);
    r = lib_sign(s.flip() ? 0 : (o.rsa ? 2 : 1), data, ch.leaf.der, o, {}, &rc);
  } else if (mode == 1) { // specific entry point of the other type
    r = lib_sign(k.rsa ? 1 : 2, data, ch.leaf.der, k, {}, &rc);
  } else if (mode == 2) { // damaged key
    Key bad = k;
    bad.p = nullptr;
    bad.der.resize(s.below(bad.der.size()));
    r = lib_sign((int)s.below(3), data, ch.leaf.der, bad, {}, &rc);
  } else if (mode == 3) { // damaged certificate
    Bytes bad = ch.leaf.der;
    bad.resize(s.below(bad.size()));
    r = lib_sign(0, data, bad, k, {}, &rc);
  } else { // damaged additional certificate
    Bytes bad = unrelated(s, 1).der;
    bad.resize(s.below(bad.size()));
    std::vector<Bytes> ex = {unrelated(s, 2).der};
    if (!bad.empty())
      ex.push_back(bad);
    else
      ex.push_back(Bytes{0});
    r = lib_sign(0, data, ch.leaf.der, k, ex, &rc);
  }
  REQUIRE(rc < 0, "unusable-accepted", "signing returned %zd", rc);
  REQUIRE(r.empty(), "output-on-failure", "a message was handed out");
}
PROPERTY(C05, missing_params, 1) {
  const Key &k = ec(0);
  Chain ch = chain(s, "a", 0, 0, k, dn("signer"));
  Bytes data = content(s, 50);
  Raw d(data), ce(ch.leaf.der), ke(k.der);
  uint8_t *out = nullptr;
  int which = (int)s.below(4), how = (int)s.below(3);
  const uint8_t *dp = which == 0 ? nullptr : d.p;
  const uint8_t *cp = which == 1 ? nullptr : ce.p;
  const uint8_t *kp = which == 2 ? nullptr : ke.p;
  uint8_t **op = which == 3 ? nullptr : &out;
  ssize_t n = how == 0   ? crypto_sign_cms(dp, d.n, cp, ce.n, kp, ke.n, nullptr, op)
              : how == 1 ? crypto_sign_eccms(dp, d.n, cp, ce.n, kp, ke.n, nullptr, op)
                         : crypto_sign_rsacms(dp, d.n, cp, ce.n, kp, ke.n, nullptr, op);
  c.nontrivial();
  REQUIRE(n == -1 && out == nullptr, "missing-accepted",
          "missing parameter %d of entry %d: %zd", which, how, n);
  Bytes m = cms_sign(data, ch.leaf, k);
  BA b(m);
  uint8_t *dd = nullptr;
  REQUIRE(crypto_verify_cms(nullptr, nullptr, nullptr, &dd, nullptr) == -1 &&
              !dd,
          "missing-accepted", "verifying no message");
  REQUIRE(crypto_verify_cms(b, nullptr, nullptr, nullptr, nullptr) == -1,
          "missing-accepted", "verifying without an output");
}
PROPERTY(C05, voucher_round_trip, 4) {
  const Key &k = any_key(s, 0, 12, 8);
  Chain ch = chain(s, "a", 0, (int)s.below(3), k, dn("signer"));
  VModel m = gen_vmodel(s, 120);
  struct Voucher *v = vbuild(m);
  REQUIRE(v, "harness", "voucher not built");
  std::vector<Bytes> extra = ch.inter_der();
  if (s.flip())
    extra.push_back(unrelated(s, 1).der);
  shuffle(s, extra);
  BA ce(ch.leaf.der), ke(k.der);
  List ex(extra);
  int how = s.flip() ? 0 : (k.rsa ? 2 : 1);
  struct BinaryArray *cms = how == 0   ? sign_cms_voucher(v, ce, ke, ex)
                            : how == 1 ? sign_eccms_voucher(v, ce, ke, ex)
                                       : sign_rsacms_voucher(v, ce, ke, ex);
  free_voucher(v);
  c.note("entry %d %s", how, vdesc(m).c_str());
  REQUIRE(cms != nullptr, "sign-refused", "voucher not signed");
  c.nontrivial();
  CmsInfo info = cms_info(bytes(cms));
  VModel got;
  std::string err;
  REQUIRE(info.sig_ok && vmodel_from_json(S(info.content), got, &err),
          "signed-voucher", "signed message does not hold a voucher: %s",
          err.c_str());
  std::vector<Bytes> want = extra;
  want.push_back(ch.leaf.der);
  REQUIRE(same_set(info.certs, want), "certs-differ", "%zu certificates",
          info.certs.size());
  List st(std::vector<Bytes>{ch.root.der});
  struct BinaryArrayList *outc = nullptr;
  bool use_store = s.chance(70);
  struct Voucher *w =
      verify_cms_voucher(cms, nullptr, use_store ? st.l : nullptr, &outc);
  free_binary_array(cms);
  REQUIRE(w != nullptr, "verify-refused", "signed voucher refused");
  std::string d = vdiff(w, m);
  free_voucher(w);
  std::vector<Bytes> signers = list_bytes(outc);
  free_array_list(outc);
  REQUIRE(d.empty(), "voucher-differs", "%s", d.c_str());
  REQUIRE(signers.size() == 1 && signers[0] == ch.leaf.der, "verify-signers",
          "%zu signers reported", signers.size());
}

// ------------------------------------------------------------------- C06
struct SigParts {
  bool ok = false;
  Bytes content;
  std::vector<Bytes> sigs, attrs;
};
static SigParts sig_parts(const Bytes &der) {
  SigParts r;
  const unsigned char *q = der.data();
  CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)der.size());
  ERR_clear_error();
  if (!ci)
    return r;
  r.ok = true;
  if (OBJ_obj2nid(CMS_get0_type(ci)) == NID_pkcs7_signed) {
    STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(ci);
    for (int i = 0; i < sk_CMS_SignerInfo_num(si); i++) {
      CMS_SignerInfo *x = sk_CMS_SignerInfo_value(si, i);
      ASN1_OCTET_STRING *o = CMS_SignerInfo_get0_signature(x);
      const unsigned char *d = ASN1_STRING_get0_data(o);
      r.sigs.push_back(Bytes(d, d + ASN1_STRING_length(o)));
      for (int k = 0; k < CMS_signed_get_attr_count(x); k++) {
        unsigned char *out = nullptr;
        int n = i2d_X509_ATTRIBUTE(CMS_signed_get_attr(x, k), &out);
        r.attrs.push_back(Bytes(out, out + (n > 0 ? n : 0)));
        OPENSSL_free(out);
      }
    }
  }
  CMS_ContentInfo_free(ci);
  ERR_clear_error();
  std::sort(r.attrs.begin(), r.attrs.end());
  return r;
}
static Bytes pub_of(const Bytes &cert) {
  auto x = parse_cert(cert);
  if (!x)
    return {};
  unsigned char *out = nullptr;
  int n = i2d_PUBKEY(X509_get0_pubkey(x.get()), &out);
  Bytes r(out, out + (n > 0 ? n : 0));
  OPENSSL_free(out);
  ERR_clear_error();
  return r;
}
PROPERTY(C06, mutated, 10) {
  const Key &k = any_key(s, 0, 10, 8);
  int depth = (int)s.weighted({30, 50, 20});
  Chain ch = chain(s, "a", 0, depth, k, dn("signer"));
  Bytes data = content(s, 120);
  Bytes m = cms_sign(data, ch.leaf, k, ch.inter);
  Bytes bad;
  size_t lo = 0, n = m.size();
  // most of the message is certificates: aim at the signer part half the time
  if (s.flip()) {
    size_t tail = std::min<size_t>(n, k.rsa ? 480 : 330);
    lo = n - tail;
    Bytes t(m.begin() + (long)lo, m.end());
    t = mutate(s, t);
    bad.assign(m.begin(), m.begin() + (long)lo);
    bad.insert(bad.end(), t.begin(), t.end());
  } else if (s.chance(30) && !data.empty()) {
    // inside the content
    auto it = std::search(m.begin(), m.end(), data.begin(), data.end());
    bad = m;
    if (it != m.end())
      bad[(size_t)(it - m.begin()) + s.below(data.size())] ^=
          (uint8_t)(1 + s.below(255));
  } else
    bad = mutate(s, m);
  bool use_store = s.flip();
  Store st = {{ch.root.der, CRYPTO_CERTIFICATE_VALID}};
  std::vector<Bytes> given = ch.inter_der();
  if (s.flip())
    given.push_back(ch.leaf.der);
  if (bad == m)
    return;
  Verified v = lib_verify(bad, given.empty() ? nullptr : &given,
                          use_store ? &st : nullptr);
  c.nontrivial();
  c.label(v.ok ? "still-accepted" : "refused");
  c.note("mutated message of %zu bytes: %s", bad.size(),
         pbt::hex(bad, 4000).c_str());
  if (!v.ok) {
    REQUIRE(v.certs_null, "output-on-refusal", "signers reported on refusal");
    return;
  }
  REQUIRE(v.data == data, "forged-content",
          "accepted content %s is not the signed one %s",
          pbt::hex(v.data).c_str(), pbt::hex(data).c_str());
  SigParts a = sig_parts(m), b = sig_parts(bad);
  REQUIRE(b.ok && a.sigs == b.sigs, "signature-changed",
          "accepted although the signature value was changed");
  REQUIRE(a.attrs == b.attrs, "attributes-changed",
          "accepted although the signed attributes were changed");
  REQUIRE(v.signers.size() == 1 && pub_of(v.signers[0]) == pub_of(ch.leaf.der),
          "signer-changed", "accepted under another signer key");
}
PROPERTY(C06, other_key, 5) {
  // signed by a key other than the claimed certificate's: same issuer name and
  // serial number in the signer identifier, the genuine certificate attached
  const Key &k = any_key(s, 0, 8, 8);
  Chain ch = chain(s, "a", 0, (int)s.below(3), k, dn("signer"));
  const Key &evil = k.rsa != s.chance(20) ? rsa(3) : ec(6);
  CertSpec sp;
  sp.subject = dn("signer");
  sp.issuer = get_name(X509_get_issuer_name(ch.leaf.x.get()));
  {
    const ASN1_INTEGER *ai = X509_get0_serialNumber(ch.leaf.x.get());
    const unsigned char *p = ASN1_STRING_get0_data(ai);
    sp.serial.assign(p, p + ASN1_STRING_length(ai));
  }
  Cert fake = make_cert(sp, evil);
  Bytes data = content(s, 200);
  bool attach_genuine = s.chance(80), attach_fake = s.chance(40);
  // a message without the signer certificate, then add the chosen ones
  Bytes m = cms_sign(data, fake, evil, {}, true, false);
  const unsigned char *q = m.data();
  CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)m.size());
  REQUIRE(ci, "harness", "no message");
  if (attach_genuine)
    CMS_add1_cert(ci, ch.leaf.x.get());
  if (attach_fake)
    CMS_add1_cert(ci, fake.x.get());
  for (auto &x : ch.inter)
    CMS_add1_cert(ci, x.x.get());
  unsigned char *out = nullptr;
  int n = i2d_CMS_ContentInfo(ci, &out);
  m.assign(out, out + n);
  OPENSSL_free(out);
  CMS_ContentInfo_free(ci);
  ERR_clear_error();
  std::vector<Bytes> given = ch.inter_der();
  if (!attach_genuine || s.flip())
    given.push_back(ch.leaf.der);
  Store st = {{ch.root.der, CRYPTO_CERTIFICATE_VALID}};
  bool use_store = s.chance(70);
  c.note("genuine attached %d, fake attached %d, store %d", (int)attach_genuine,
         (int)attach_fake, (int)use_store);
  c.nontrivial();
  Verified v =
      lib_verify(m, given.empty() ? nullptr : &given, use_store ? &st : nullptr);
  if (use_store)
    REQUIRE(!v.ok, "wrong-key-accepted",
            "message signed by another key accepted against the anchors");
  else if (v.ok) // without anchors the reported signer must be the real one
    REQUIRE(v.signers.size() == 1 && pub_of(v.signers[0]) == pub_of(fake.der),
            "wrong-signer-reported", "the genuine certificate was reported");
  if (!attach_fake)
    REQUIRE(!v.ok, "wrong-key-accepted", "accepted with the genuine "
                                         "certificate and a foreign signature");
}
PROPERTY(C06, untrusted, 8) {
  const Key &k = any_key(s, 0, 6, 6);
  int mode = (int)s.below(8);
  Bytes data = content(s, 150);
  std::vector<Cert> ship;
  std::vector<Bytes> given;
  Store st;
  Cert leaf;
  static const char *NAME[] = {"other-root-same-name", "other-root", "no-anchors",
                               "forged-intermediate", "self-signed",
                               "non-ca-issuer", "intermediate-missing",
                               "anchor-is-sibling"};
  Chain ch = chain(s, "a", 0, 1 + (int)s.below(2), k, dn("signer"));
  leaf = ch.leaf;
  ship = ch.inter;
  switch (mode) {
  case 0: { // anchor with the root's name (and key identifier form), other key
    CertSpec rp;
    rp.subject = get_name(X509_get_subject_name(ch.root.x.get()));
    rp.ca = 1;
    rp.skid = s.flip();
    st.push_back({make_cert(rp, ec(9)).der, 0});
    if (s.flip())
      ship.push_back(ch.root);
    break;
  }
  case 1:
    st.push_back({unrelated(s, 1).der, 0});
    if (s.flip())
      given.push_back(ch.root.der);
    break;
  case 2:
    if (s.flip())
      given.push_back(ch.root.der);
    break;
  case 3: { // an intermediate that copies a genuine one but has another key
    Chain g = chain(s, "a", 0, 2, k, dn("signer"));
    st.push_back({g.root.der, 0});
    CertSpec ip;
    ip.subject = get_name(X509_get_subject_name(g.inter[0].x.get()));
    ip.issuer = get_name(X509_get_subject_name(g.root.x.get()));
    ip.ca = 1;
    ip.skid = s.flip();
    Cert forged = make_cert(ip, ec(8), nullptr, &ec(8));
    forged.key = &ec(8);
    CertSpec lp;
    lp.subject = dn("signer");
    lp.ca = s.flip() ? 0 : -1;
    leaf = make_cert(lp, k, &forged);
    ship = {forged};
    if (s.flip())
      given.push_back(g.inter[0].der);
    break;
  }
  case 4: {
    CertSpec lp;
    lp.subject = s.flip() ? dn("signer")
                          : get_name(X509_get_subject_name(ch.root.x.get()));
    lp.ca = s.range(-1, 1);
    leaf = make_cert(lp, k);
    ship.clear();
    st.push_back({ch.root.der, 0});
    if (s.flip())
      given.push_back(leaf.der);
    break;
  }
  case 5: { // issued by an end entity of the right root
    const Key &ek = ec(7);
    CertSpec ep;
    ep.subject = dn("some device");
    ep.ca = s.flip() ? 0 : -1;
    ep.skid = s.flip();
    if (ep.ca < 0)
      ep.ku = "digitalSignature";
    Cert ee = make_cert(ep, ek, &ch.root);
    CertSpec lp;
    lp.subject = dn("signer");
    leaf = make_cert(lp, k, &ee);
    ship = {ee};
    st.push_back({ch.root.der, 0});
    if (s.flip())
      given.push_back(ee.der);
    break;
  }
  case 6: { // the linking certificate is nowhere
    Chain g = chain(s, "b", 0, 2, k, dn("signer"));
    leaf = g.leaf;
    ship.clear();
    st.push_back({g.root.der, 0});
    break;
  }
  default: { // another certificate of the same authority is the only anchor
    CertSpec sp;
    sp.subject = dn("sibling");
    sp.serial = {0x49, 9, 9, 9};
    sp.ca = s.flip();
    st.push_back({make_cert(sp, ec(7), &ch.root).der, 0});
    break;
  }
  }
  if (s.flip())
    st.push_back({unrelated(s, 3).der, 0});
  if (s.flip())
    given.push_back(unrelated(s, 2).der);
  shuffle(s, st);
  shuffle(s, given);
  Bytes m = cms_sign(data, leaf, k, ship);
  c.note("%s anchors %zu given %zu shipped %zu", NAME[mode], st.size(),
         given.size(), ship.size());
  c.label(NAME[mode]);
  c.nontrivial();
  Verified v = lib_verify(m, given.empty() ? nullptr : &given, &st);
  REQUIRE(!v.ok, "untrusted-accepted", "%s: accepted", NAME[mode]);
  // the signature itself is good: accepted when no anchors are demanded
  Verified w = lib_verify(m, given.empty() ? nullptr : &given, nullptr);
  REQUIRE(w.ok && w.data == data, "verify-refused",
          "%s: refused without anchors", NAME[mode]);
}
static Bytes to_der(CMS_ContentInfo *ci) {
  unsigned char *out = nullptr;
  int n = ci ? i2d_CMS_ContentInfo(ci, &out) : -1;
  Bytes r;
  if (n > 0)
    r.assign(out, out + n);
  OPENSSL_free(out);
  CMS_ContentInfo_free(ci);
  ERR_clear_error();
  return r;
}
PROPERTY(C06, not_signed, 5) {
  const Key &k = ec(0);
  Chain ch = chain(s, "a", 0, (int)s.below(2), k, dn("signer"));
  Bytes data = content(s, 150);
  BIO *in = mem(data);
  int mode = (int)s.below(8);
  Bytes m;
  bool must_refuse = true;
  static const char *NAME[] = {"data",     "digest", "encrypted", "no-signers",
                               "detached", "swapped", "enveloped", "compressed"};
  switch (mode) {
  case 0:
    m = to_der(CMS_data_create(in, CMS_BINARY));
    break;
  case 1:
    m = to_der(CMS_digest_create(in, EVP_sha256(), CMS_BINARY));
    break;
  case 2: {
    Bytes key = s.bytes(16);
    m = to_der(CMS_EncryptedData_encrypt(in, EVP_aes_128_cbc(), key.data(), 16,
                                         CMS_BINARY));
    break;
  }
  case 3: {
    STACK_OF(X509) *st = sk_X509_new_null();
    sk_X509_push(st, ch.leaf.x.get());
    CMS_ContentInfo *ci = CMS_sign(nullptr, nullptr, st, in,
                                   CMS_BINARY | CMS_PARTIAL);
    if (ci)
      CMS_final(ci, in, nullptr, CMS_BINARY);
    m = to_der(ci);
    sk_X509_free(st);
    break;
  }
  case 4:
    m = cms_sign(data, ch.leaf, k, {}, false);
    must_refuse = !data.empty();
    break;
  case 5: { // another content under the same signature
    m = cms_sign(data, ch.leaf, k);
    const unsigned char *q = m.data();
    CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &q, (long)m.size());
    Bytes other = content(s, 150);
    ASN1_OCTET_STRING **pos = CMS_get0_content(ci);
    ASN1_OCTET_STRING_set(*pos, other.data(), (int)other.size());
    m = to_der(ci);
    must_refuse = other != data;
    break;
  }
  case 6: {
    STACK_OF(X509) *st = sk_X509_new_null();
    X509 *rx = make_cert({.subject = dn("r")}, rsa(0)).x.get();
    std::shared_ptr<X509> hold = make_cert({.subject = dn("r")}, rsa(0)).x;
    (void)rx;
    sk_X509_push(st, hold.get());
    m = to_der(CMS_encrypt(st, in, EVP_aes_128_cbc(), CMS_BINARY));
    sk_X509_free(st);
    break;
  }
  default:
    m = Bytes{0x30, 0x80};
    {
      Bytes t = s.bytes(s.size(60));
      m.insert(m.end(), t.begin(), t.end());
    }
  }
  BIO_free(in);
  ERR_clear_error();
  if (m.empty())
    return;
  Store st = {{ch.root.der, 0}};
  bool use_store = s.flip();
  std::vector<Bytes> given = {ch.leaf.der};
  bool use_given = s.flip();
  c.note("%s store %d message %s", NAME[mode], (int)use_store,
         pbt::hex(m, 2000).c_str());
  c.label(NAME[mode]);
  c.nontrivial();
  Verified v =
      lib_verify(m, use_given ? &given : nullptr, use_store ? &st : nullptr);
  if (must_refuse)
    REQUIRE(!v.ok, "unsigned-accepted", "%s accepted", NAME[mode]);
}
PROPERTY(C06, two_signers, 5) {
  // every signature of a message counts
  const Key &k = any_key(s, 0, 5, 8);
  Chain a = chain(s, "a", 0, 1 + (int)s.below(2), k, dn("signer a"));
  const Key &k2 = ec(5);
  bool good_b = s.chance(40);
  Cert b;
  if (good_b) {
    CertSpec bp;
    bp.subject = dn("signer b");
    bp.serial = {0x49, 9, 9, 9};
    b = make_cert(bp, k2, &a.root);
  } else {
    CertSpec bp;
    bp.subject = dn("signer b");
    bp.serial = {0x49, 9, 9, 9};
    b = make_cert(bp, k2);
  }
  Bytes data = content(s, 150);
  BIO *in = mem(data);
  CMS_ContentInfo *ci =
      CMS_sign(nullptr, nullptr, nullptr, in, CMS_BINARY | CMS_PARTIAL);
  bool b_first = s.flip();
  auto addsig = [&](const Cert &x, const Key &kk) {
    CMS_add1_signer(ci, x.x.get(), kk.p, EVP_sha256(), CMS_BINARY);
  };
  if (b_first)
    addsig(b, k2);
  addsig(a.leaf, k);
  if (!b_first)
    addsig(b, k2);
  for (auto &x : a.inter)
    CMS_add1_cert(ci, x.x.get());
  CMS_final(ci, in, nullptr, CMS_BINARY);
  BIO_free(in);
  bool corrupt = s.chance(40), corrupt_b = s.flip();
  if (corrupt) {
    STACK_OF(CMS_SignerInfo) *si = CMS_get0_SignerInfos(ci);
    for (int i = 0; i < sk_CMS_SignerInfo_num(si); i++) {
      CMS_SignerInfo *x = sk_CMS_SignerInfo_value(si, i);
      X509 *sx = nullptr;
      CMS_SignerInfo_get0_algs(x, nullptr, &sx, nullptr, nullptr);
      bool is_b = sx && X509_cmp(sx, b.x.get()) == 0;
      if (is_b == corrupt_b) {
        ASN1_OCTET_STRING *o = CMS_SignerInfo_get0_signature(x);
        int len = ASN1_STRING_length(o);
        Bytes sg(ASN1_STRING_get0_data(o), ASN1_STRING_get0_data(o) + len);
        sg[sg.size() - 1 - s.below(20)] ^= (uint8_t)(1 + s.below(255));
        ASN1_STRING_set(o, sg.data(), len);
      }
    }
  }
  Bytes m = to_der(ci);
  REQUIRE(!m.empty(), "harness", "no message");
  Store st = {{a.root.der, 0}};
  bool use_store = s.chance(70);
  c.note("second signer %s, corrupt %d (second %d), store %d",
         good_b ? "trusted" : "untrusted", (int)corrupt, (int)corrupt_b,
         (int)use_store);
  c.nontrivial();
  Verified v = lib_verify(m, nullptr, use_store ? &st : nullptr);
  bool expect = !corrupt && (good_b || !use_store);
  c.label(expect ? "accept" : "refuse");
  if (expect) {
    REQUIRE(v.ok && v.data == data, "verify-refused",
            "message with two good signers refused");
    REQUIRE(same_set(v.signers, {a.leaf.der, b.der}), "verify-signers",
            "%zu signers reported", v.signers.size());
  } else
    REQUIRE(!v.ok, "bad-signer-accepted",
            "accepted although one of two signers is %s",
            corrupt ? "corrupt" : "untrusted");
}
PROPERTY(C06, revoked, 3) {
  const Key &k = any_key(s, 0, 5, 8);
  int depth = 1 + (int)s.below(2);
  Chain ch = chain(s, "a", 0, depth, k, dn("signer"));
  const Cert &issuer = ch.inter.empty() ? ch.root : ch.inter[0];
  auto serial_of = [](const Cert &x) {
    const ASN1_INTEGER *ai = X509_get0_serialNumber(x.x.get());
    const unsigned char *p = ASN1_STRING_get0_data(ai);
    return Bytes(p, p + ASN1_STRING_length(ai));
  };
  bool revoke = s.flip();
  std::vector<Bytes> rev;
  Bytes own = serial_of(ch.leaf);
  // the revoked one is the signer, or an authority between it and the root
  bool revoke_inter = !ch.inter.empty() && s.chance(60);
  size_t at = 0;
  if (revoke_inter) {
    at = s.below(ch.inter.size());
    own = serial_of(ch.inter[at]);
  }
  const Cert &lister = !revoke_inter              ? issuer
                       : at + 1 < ch.inter.size() ? ch.inter[at + 1]
                                                  : ch.root;
  for (int i = (int)s.below(3); i > 0; i--) {
    Bytes o = serial_bytes(s);
    if (o != own)
      rev.push_back(o);
  }
  if (revoke)
    rev.insert(rev.begin() + (long)s.below(rev.size() + 1), own);
  bool crl_issuer = s.chance(75);
  if (!crl_issuer)
    revoke = false; // a list by an unrelated authority does not concern it
  Bytes crl = make_crl(crl_issuer ? lister : unrelated(s, 1), rev);
  Store st = {{ch.root.der, CRYPTO_CERTIFICATE_VALID},
              {crl, CRYPTO_CERTIFICATE_CRL}};
  if (s.flip())
    st.push_back({unrelated(s, 2).der, CRYPTO_CERTIFICATE_VALID});
  if (s.chance(30)) // another authority's list beside it
    st.push_back({make_crl(unrelated(s, 3), {serial_bytes(s)}), CRYPTO_CERTIFICATE_CRL});
  shuffle(s, st);
  Bytes data = content(s, 100);
  Bytes m = cms_sign(data, ch.leaf, k, ch.inter);
  c.note("depth %d, list by issuer %d, %zu revoked, signer revoked %d", depth,
         (int)crl_issuer, rev.size(), (int)revoke);
  c.nontrivial();
  c.label(!revoke ? "not-revoked" : revoke_inter ? "revoked-authority" : "revoked");
  Verified v = lib_verify(m, nullptr, &st);
  if (revoke)
    REQUIRE(!v.ok, "revoked-accepted",
            "a signer revoked by a list among the anchors was accepted");
  else
    REQUIRE(v.ok && v.data == data, "verify-refused",
            "a signer that is not revoked was refused");
}
PROPERTY(C06, expired, 3) {
  // with anchors given, the signer and its authorities must be in their time
  const Key &k = any_key(s, 0, 5, 8);
  int64_t now = pbt::clock_get(), day = 86400;
  int n = 2 + (int)s.below(3); // certificates from the root down to the signer
  int out = s.chance(60) ? (int)s.below((uint64_t)n) : -1;
  bool past = s.flip();
  std::vector<Cert> v;
  for (int i = 0; i < n; i++) {
    CertSpec sp;
    sp.subject = dn(i + 1 == n ? "signer" : pbt::fmt("authority-%d", i));
    sp.serial = few_serial(s, 1 + i);
    sp.ca = i + 1 < n ? 1 : -1;
    sp.skid = s.flip();
    // close to the present, or far from it
    int64_t far = s.flip() ? day * (1 + (int64_t)s.below(3000)) : 2 + (int64_t)s.below(3600);
    sp.nb = now - day * (int64_t)(1 + s.below(3000));
    sp.na = now + day * (int64_t)(1 + s.below(3000));
    if (i == out && past) {
      sp.na = now - far;
      sp.nb = sp.na - day;
    } else if (i == out) {
      sp.nb = now + far + 3600;
      sp.na = sp.nb + day;
    }
    v.push_back(make_cert(sp, i + 1 == n ? k : ec(i + 2), i ? &v[(size_t)i - 1] : nullptr));
  }
  std::vector<Cert> inter(v.begin() + 1, v.end() - 1);
  Bytes data = content(s, 100);
  Bytes m = cms_sign(data, v.back(), k, inter);
  Store st = {{v[0].der, CRYPTO_CERTIFICATE_VALID}};
  if (s.chance(20))
    st.push_back({unrelated(s, 2).der, CRYPTO_CERTIFICATE_VALID});
  shuffle(s, st);
  c.note("%d certificates, number %d from the root %s", n, out,
         out < 0 ? "-" : past ? "expired" : "not yet valid");
  c.nontrivial();
  c.label(out < 0 ? "in-time" : past ? "expired" : "not-yet");
  Verified r = lib_verify(m, nullptr, &st);
  if (out >= 0)
    REQUIRE(!r.ok, "expired-accepted", "accepted although certificate %d is %s", out,
            past ? "expired" : "not yet valid");
  else
    REQUIRE(r.ok && r.data == data, "verify-refused", "a signer in its time was refused");
}
PROPERTY(C06, arbitrary, 3) {
  Bytes m;
  int mode = (int)s.below(3);
  if (mode == 0)
    m = s.bytes(s.size(300));
  else if (mode == 1) { // nested DER with the right object identifiers
    std::function<Bytes(int)> gen = [&](int d) {
      static const std::vector<Bytes> ATOM = {
          {0x06, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 7, 2},
          {0x06, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 7, 1},
          {0x02, 1, 1}, {0x02, 1, 3}, {0x05, 0}, {0x04, 0}, {0x31, 0}, {0x30, 0}};
      if (d == 0 || s.chance(40))
        return s.pick(ATOM);
      Bytes in;
      for (int i = (int)s.below(5); i >= 0; i--) {
        Bytes x = gen(d - 1);
        in.insert(in.end(), x.begin(), x.end());
      }
      static const std::vector<uint8_t> TAG = {0x30, 0x31, 0xa0, 0xa1, 0x24, 0xa3};
      Bytes r = {s.pick(TAG)};
      if (in.size() < 128)
        r.push_back((uint8_t)in.size());
      else {
        r.push_back(0x82);
        r.push_back((uint8_t)(in.size() >> 8));
        r.push_back((uint8_t)in.size());
      }
      r.insert(r.end(), in.begin(), in.end());
      return r;
    };
    m = gen(6);
  } else {
    Chain ch = chain(s, "a", 0, 0, ec(0), dn("x"));
    m = cms_sign(Bytes(10, 'a'), ch.leaf, ec(0));
    m.resize(s.below(m.size()));
  }
  if (m.empty())
    m.push_back(0);
  c.nontrivial(m.size() > 2);
  c.note("%s", pbt::hex(m, 400).c_str());
  Store st = {{unrelated(s, 1).der, 0}};
  Verified v = lib_verify(m, nullptr, s.flip() ? &st : nullptr);
  REQUIRE(!v.ok, "unsigned-accepted", "arbitrary bytes accepted");
  BA b(m);
  struct BinaryArrayList *oc = nullptr;
  struct Voucher *vo = verify_cms_voucher(b, nullptr, nullptr, &oc);
  free_array_list(oc);
  REQUIRE(!vo, "unsigned-accepted", "a voucher came out of arbitrary bytes");
}

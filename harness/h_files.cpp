// C14 configuration files, C20 PEM and S/MIME files, C07 pledge requests made
// from a configuration.
#include "engine/pki.hpp"
#include <algorithm>
#include <cstring>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "brski/config.h"
#include "brski/pledge/pledge_utils.h"
}
using namespace env;
using namespace pki;

static std::string path(const std::string &n) { return pbt::scratch() + "/" + n; }
static Cert any_cert(Src &s, int i = 0) {
  CertSpec p;
  p.subject = dn(s.str("abcdefghijklmnop ", 1 + s.size(20)),
                 s.flip() ? s.str("0123456789", 1 + s.size(20)) : "");
  if (s.chance(20))
    p.subject.push_back({"O", s.str("xyz", 1 + s.size(60))});
  p.serial = serial_bytes(s);
  if (s.flip())
    p.ca = (int)s.below(2);
  p.skid = s.flip();
  return make_cert(p, any_key(s, i % 4, 20, 20));
}
static bool same_private(const Bytes &der, const Key &k) {
  Key got = key_from_der(der);
  if (!got.p)
    return false;
  bool ok = EVP_PKEY_eq(got.p, k.p) == 1 && got.der == k.der;
  EVP_PKEY_free(got.p);
  return ok;
}

// ------------------------------------------------------------------- C20
PROPERTY(C20, cert_file, 25) {
  Cert ce = any_cert(s);
  std::string p = path("c.pem");
  unlink(p.c_str());
  if (s.flip()) // an earlier, longer file is replaced
    write_file(p, s.bytes(s.below(4000)));
  c.note("certificate of %zu bytes", ce.der.size());
  {
    BA b(ce.der);
    int rc = certbuf_to_file(b, p.c_str());
    REQUIRE(rc == 0, "cert-write", "certbuf_to_file returned %d", rc);
  }
  Bytes f;
  REQUIRE(read_file(p, f), "cert-no-file", "no file was written");
  REQUIRE(S(f) == pem("CERTIFICATE", ce.der), "cert-not-pem",
          "the file is not the PEM encoding of the certificate: %s",
          pbt::quote(S(f), 200).c_str());
  struct BinaryArray *a = file_to_x509buf(p.c_str());
  REQUIRE(a != nullptr, "cert-read", "the written file was refused");
  Bytes got = bytes(a);
  free_binary_array(a);
  REQUIRE(got == ce.der, "cert-roundtrip", "another certificate was read");
  c.nontrivial();
}
PROPERTY(C20, key_file, 20) {
  const Key &k = s.chance(30) ? rsa((int)s.below(N_RSA))
                 : s.chance(20) ? p384()
                                : ec((int)s.below(N_EC));
  std::string p = path("k.pem");
  unlink(p.c_str());
  if (s.flip())
    write_file(p, s.bytes(s.below(4000)));
  {
    BA b(k.der);
    int rc = keybuf_to_file(b, p.c_str());
    REQUIRE(rc == 0, "key-write", "keybuf_to_file returned %d", rc);
  }
  Bytes f;
  REQUIRE(read_file(p, f), "key-no-file", "no file was written");
  BIO *m = BIO_new_mem_buf(f.data(), (int)f.size());
  char *nm = nullptr, *hd = nullptr;
  unsigned char *dt = nullptr;
  long ln = 0;
  int ok = PEM_read_bio(m, &nm, &hd, &dt, &ln);
  std::string name = ok ? nm : "";
  Bytes body = ok ? Bytes(dt, dt + ln) : Bytes();
  bool more = ok && BIO_pending(m) > 0;
  OPENSSL_free(nm);
  OPENSSL_free(hd);
  OPENSSL_free(dt);
  BIO_free(m);
  ERR_clear_error();
  REQUIRE(ok && !more, "key-not-pem", "the file is not one PEM block");
  REQUIRE(name.find("PRIVATE KEY") != std::string::npos, "key-label",
          "PEM label %s", name.c_str());
  Key got = key_from_der(body);
  bool same = got.p && EVP_PKEY_eq(got.p, k.p) == 1;
  EVP_PKEY_free(got.p);
  ERR_clear_error();
  REQUIRE(same, "key-differs", "the file holds another key");
  struct BinaryArray *a = file_to_keybuf(p.c_str());
  REQUIRE(a != nullptr, "key-read", "the written file was refused");
  Bytes b = bytes(a);
  free_binary_array(a);
  REQUIRE(b == k.der, "key-roundtrip", "another key was read (%zu bytes)",
          b.size());
  c.label(k.rsa ? "rsa" : "ec");
  c.nontrivial();
}
// what a reader of the file's first block gives
static Bytes ref_cert(const Bytes &f) {
  BIO *m = BIO_new_mem_buf(f.empty() ? (const void *)"" : f.data(), (int)f.size());
  X509 *x = PEM_read_bio_X509(m, nullptr, nullptr, nullptr);
  Bytes r;
  if (x) {
    unsigned char *o = nullptr;
    int n = i2d_X509(x, &o);
    if (n > 0)
      r.assign(o, o + n);
    OPENSSL_free(o);
    X509_free(x);
  }
  BIO_free(m);
  ERR_clear_error();
  return r;
}
static int no_pass(char *, int, int, void *) { return -1; }
static Bytes ref_key(const Bytes &f) {
  BIO *m = BIO_new_mem_buf(f.empty() ? (const void *)"" : f.data(), (int)f.size());
  EVP_PKEY *x = PEM_read_bio_PrivateKey(m, nullptr, no_pass, nullptr);
  Bytes r;
  if (x) {
    unsigned char *o = nullptr;
    int n = i2d_PrivateKey(x, &o);
    if (n > 0)
      r.assign(o, o + n);
    OPENSSL_free(o);
    EVP_PKEY_free(x);
  }
  BIO_free(m);
  ERR_clear_error();
  return r;
}
PROPERTY(C20, read_any, 35) {
  Cert a = any_cert(s, 0), b = any_cert(s, 1);
  const Key &k = s.chance(20) ? rsa(0) : ec((int)s.below(4));
  std::string ca = pem("CERTIFICATE", a.der), cb = pem("CERTIFICATE", b.der);
  std::string ck = pem(k.rsa ? "RSA PRIVATE KEY" : "EC PRIVATE KEY", k.der);
  std::string txt;
  int expect_cert = -1, expect_key = -1; // 1 must be read, 0 must be refused
  Bytes want_cert = a.der;
  auto crlf = [](std::string t) {
    std::string r;
    for (char ch : t)
      r += ch == '\n' ? std::string("\r\n") : std::string(1, ch);
    return r;
  };
  int kind = (int)s.below(14);
  switch (kind) {
  case 0: txt = ca + cb, expect_cert = 1, expect_key = 0; break;
  case 1: txt = ck + ca, expect_cert = 1, expect_key = 1; break;
  case 2: txt = ca + ck, expect_cert = 1, expect_key = 1; break;
  case 3: txt = "subject=/CN=x\nsome text: " + s.str("abc =-\n", s.below(200)) + "\n" + ca,
          expect_cert = 1, expect_key = 0; break;
  case 4: txt = crlf(s.flip() ? ca : ca + ck), expect_cert = 1; break;
  case 5: txt = "", expect_cert = expect_key = 0; break;
  case 6: txt = ck, expect_cert = 0, expect_key = 1; break;
  case 7: txt = S(s.flip() ? a.der : k.der), expect_cert = expect_key = 0; break;
  case 8: txt = ca.substr(0, s.below(ca.size() - 26)), expect_cert = expect_key = 0; break;
  case 9: txt = ck.substr(0, s.below(ck.size() - 26)), expect_cert = expect_key = 0; break;
  case 10: txt = pem("CERTIFICATE", s.bytes(s.below(300))), expect_cert = expect_key = 0; break;
  case 11: txt = S(s.bytes(s.below(500))), expect_cert = expect_key = 0; break;
  case 12: txt = S(mutate(s, B(ca), 4)); break;
  default: txt = S(mutate(s, B(ck), 4)); break;
  }
  if (txt.find("ENCRYPTED") != std::string::npos)
    return; // a reader would ask for the password
  std::string p = path("any.pem");
  write_file(p, txt);
  c.note("kind %d: %s", kind, pbt::quote(txt, 150).c_str());
  c.label("kind" + std::to_string(kind));
  c.nontrivial(txt.size() > 10);
  struct BinaryArray *x = file_to_x509buf(p.c_str());
  bool okc = x != nullptr;
  Bytes gc = bytes(x);
  free_binary_array(x);
  x = file_to_keybuf(p.c_str());
  bool okk = x != nullptr;
  Bytes gk = bytes(x);
  free_binary_array(x);
  Bytes rc = ref_cert(B(txt)), rk = ref_key(B(txt));
  REQUIRE(okc == !rc.empty() && gc == rc, "cert-file-differs",
          "certificate read: %d (%zu bytes), a standard reader: %zu bytes", (int)okc,
          gc.size(), rc.size());
  REQUIRE(okk == !rk.empty() && gk == rk, "key-file-differs",
          "key read: %d (%zu bytes), a standard reader: %zu bytes", (int)okk,
          gk.size(), rk.size());
  if (expect_cert >= 0)
    REQUIRE(okc == (expect_cert == 1), "cert-file-kind", "certificate read: %d", (int)okc);
  if (expect_cert == 1)
    REQUIRE(gc == want_cert, "cert-file-which", "not the first certificate");
  if (expect_key >= 0)
    REQUIRE(okk == (expect_key == 1), "key-file-kind", "key read: %d", (int)okk);
  if (expect_key == 1)
    REQUIRE(gk == k.der, "key-file-which", "another key");
}
PROPERTY(C20, smime, 20) {
  Chain ch = chain(s, "m", 0, (int)s.below(3), any_key(s, 0), dn("signer"));
  Bytes data = content(s, s.chance(10) ? 9000 : 300);
  std::vector<Cert> extra = ch.inter;
  if (s.flip())
    extra.push_back(unrelated(s, 0));
  Bytes m = cms_sign(data, ch.leaf, *ch.leaf_key, extra);
  std::string p = path("m.cms");
  unlink(p.c_str());
  if (s.flip())
    write_file(p, s.bytes(s.below(9000)));
  bool bad = s.chance(25);
  Bytes in = m;
  if (bad)
    in = s.flip() ? Bytes(m.begin(), m.begin() + (long)s.below(m.size()))
                  : s.bytes(1 + s.below(200));
  int rc;
  {
    BA b(in);
    rc = cmsbuf_to_file(b, p.c_str());
  }
  c.note("%s message of %zu bytes, content %zu", bad ? "malformed" : "genuine",
         in.size(), data.size());
  c.label(bad ? "bad" : "good");
  c.nontrivial();
  if (bad) {
    const unsigned char *q = in.data();
    CMS_ContentInfo *ci = in.empty() ? nullptr : d2i_CMS_ContentInfo(nullptr, &q, (long)in.size());
    bool parses = ci != nullptr;
    CMS_ContentInfo_free(ci);
    ERR_clear_error();
    if (!parses)
      REQUIRE(rc < 0, "smime-bad-accepted", "a malformed message was written");
    return;
  }
  REQUIRE(rc == 0, "smime-write", "cmsbuf_to_file returned %d", rc);
  Bytes f;
  REQUIRE(read_file(p, f), "smime-no-file", "no file was written");
  BIO *b = BIO_new_mem_buf(f.data(), (int)f.size()), *cont = nullptr;
  CMS_ContentInfo *ci = SMIME_read_CMS(b, &cont);
  Bytes got;
  if (ci) {
    unsigned char *o = nullptr;
    int n = i2d_CMS_ContentInfo(ci, &o);
    if (n > 0)
      got.assign(o, o + n);
    OPENSSL_free(o);
  }
  CMS_ContentInfo_free(ci);
  BIO_free(cont);
  BIO_free(b);
  ERR_clear_error();
  REQUIRE(!got.empty(), "smime-read", "not an S/MIME message: %s",
          pbt::quote(S(f), 200).c_str());
  REQUIRE(got == m, "smime-roundtrip", "another message was read back");
}
// a write that cannot be done or completed is reported
PROPERTY(C20, write_fault, 8) {
  static bool full = access("/dev/full", W_OK) == 0;
  std::string d = path("adir");
  mkdir(d.c_str(), 0700);
  int where = (int)s.below(full ? 4 : 3);
  std::string p = where == 0   ? path("missing/dir/file")
                  : where == 1 ? d
                  : where == 2 ? std::string("/dev/fd/none")
                               : std::string("/dev/full");
  c.label("where" + std::to_string(where));
  int what = (int)s.below(3);
  int rc;
  if (what == 0) {
    BA b(any_cert(s).der);
    rc = certbuf_to_file(b, p.c_str());
  } else if (what == 1) {
    BA b((s.flip() ? rsa(0) : ec(0)).der);
    rc = keybuf_to_file(b, p.c_str());
  } else {
    CertSpec sp;
    sp.subject = dn("w");
    BA b(cms_sign(content(s, 6000), make_cert(sp, ec(0)), ec(0)));
    rc = cmsbuf_to_file(b, p.c_str());
  }
  c.note("writer %d to %s", what, p.c_str());
  c.nontrivial();
  REQUIRE(rc < 0, "write-fault-ignored", "writing to %s reported success", p.c_str());
}
static std::vector<Bytes> path_items(const std::vector<std::string> &v) {
  std::vector<Bytes> r;
  for (auto &p : v) {
    Bytes b = B(p);
    b.push_back(0);
    r.push_back(b);
  }
  return r;
}
PROPERTY(C20, lists, 15) {
  int n = (int)s.below(6);
  std::vector<std::string> paths;
  std::vector<Bytes> want;
  int bad = n && s.chance(40) ? (int)s.below((uint64_t)n) : -1;
  for (int i = 0; i < n; i++) {
    std::string name = "l" + std::to_string(i) + ".pem";
    if (i == bad) {
      switch (s.below(4)) {
      case 0: paths.push_back(path("absent.pem")); unlink(paths.back().c_str()); break;
      case 1: paths.push_back(path(name)); write_file(paths.back(), std::string()); break;
      case 2: paths.push_back(put_key(name, ec(0))); break;
      default: {
        Bytes d = any_cert(s, i).der;
        d.resize(d.size() / 2);
        paths.push_back(put_cert(name, d));
      }
      }
      continue;
    }
    if (i && s.chance(15) && i - 1 != bad) {
      paths.push_back(paths.back()), want.push_back(want.back());
      continue;
    }
    Cert ce = any_cert(s, i);
    paths.push_back(put_cert(name, ce.der));
    want.push_back(ce.der);
  }
  List l(path_items(paths), s.flip());
  // a caller's list variable holds anything before the call
  struct BinaryArrayList *out = (struct BinaryArrayList *)0x1;
  int rc = load_cert_files(l, &out);
  c.note("%d paths, bad %d", n, bad);
  c.nontrivial(n > 1);
  if (bad >= 0) {
    c.label("bad");
    REQUIRE(rc < 0, "list-bad-accepted", "a list with a bad file was loaded");
    REQUIRE(out == nullptr, "list-dangling", "a failed load hands out a list");
    return;
  }
  REQUIRE(rc == 0, "list-refused", "load_cert_files returned %d", rc);
  std::vector<Bytes> got = list_bytes(out);
  free_array_list(out);
  REQUIRE(got == want, "list-differs", "%zu certificates loaded, expected %zu (or another order)",
          got.size(), want.size());
}

// -------------------------------------------------- C07 / C20: pledge files
struct Pconf {
  struct pledge_config c = {};
  std::vector<char *> own;
  List *add = nullptr;
  char *dup(const std::string &v) {
    own.push_back(strdup(v.c_str()));
    return own.back();
  }
  ~Pconf() {
    for (auto p : own)
      free(p);
    delete add;
  }
};
static void pledge_file(Src &s, Ctx &c, bool file) {
  Pconf p;
  VModel want;
  std::string why;
  const Key &k = any_key(s, 0, 12, 8);
  Chain ch = chain(s, "p", 0, (int)s.below(3), k, dn("pledge-cms"));
  int fault = s.chance(45) ? 1 + (int)s.below(9) : 0;
  struct tm now = tm_from(pbt::clock_get());
  want.has_time[T_CREATED] = true;
  if (s.chance(60)) {
    want.time[T_CREATED] = gen_tm(s);
    p.c.created_on = p.dup(iso(want.time[T_CREATED]));
  } else
    want.time[T_CREATED] = now;
  want.serial = gen_serial(s, 60);
  want.has_serial = true;
  p.c.serial_number = p.dup(want.serial);
  if (s.chance(70)) {
    want.arr[A_NONCE] = s.bytes(1 + s.size(60));
    want.has_arr[A_NONCE] = true;
    p.c.nonce = p.dup(b64(want.arr[A_NONCE]));
  }
  Cert reg = any_cert(s, 3);
  want.has_arr[A_PROX] = true;
  want.arr[A_PROX] = reg.der;
  want.assertion = VOUCHER_ASSERTION_PROXIMITY;
  std::vector<std::string> add;
  std::vector<Bytes> certs = {ch.leaf.der};
  for (auto &x : ch.inter)
    add.push_back(put_cert("pi" + std::to_string(add.size()), x.der)), certs.push_back(x.der);
  if (s.chance(30)) {
    Cert u = unrelated(s, 1);
    add.push_back(put_cert("pu", u.der));
    certs.push_back(u.der);
  }
  p.c.cms_sign_cert_path = p.dup(put_cert("pc", ch.leaf.der));
  p.c.cms_sign_key_path = p.dup(put_key("pk", k));
  bool no_reg = false;
  switch (fault) {
  case 1: p.c.created_on = p.dup(bad_time(s)); break;
  case 2: p.c.nonce = p.dup(s.pick<std::string>({"====", "a", "====aaaa"})); break;
  case 3: p.c.serial_number = nullptr; break;
  case 4: p.c.cms_sign_cert_path = s.flip() ? nullptr : p.dup(path("absent")); break;
  case 5: p.c.cms_sign_key_path = s.flip() ? nullptr : p.dup(path("absent")); break;
  case 6: p.c.cms_sign_cert_path = p.c.cms_sign_key_path; break;
  case 7: p.c.cms_sign_key_path = p.dup(put_key("pk2", ec(9))); break;
  case 8: add.insert(add.begin() + (long)s.below(add.size() + 1), s.flip() ? path("absent") : put_key("pn", ec(1))); break;
  case 9: no_reg = true; break;
  }
  unlink(path("absent").c_str());
  p.add = new List(path_items(add));
  p.c.cms_add_certs_paths = p.add->l;
  c.note("fault %d created %s serial %s nonce %s add %zu", fault,
         p.c.created_on ? p.c.created_on : "(now)", pbt::quote(want.serial, 60).c_str(),
         p.c.nonce ? p.c.nonce : "(none)", add.size());
  c.label(fault ? "fault" + std::to_string(fault) : "good");
  c.nontrivial();
  Bytes m;
  bool ok;
  {
    BA r(reg.der);
    struct BinaryArray *rp = no_reg ? nullptr : (struct BinaryArray *)r;
    if (file) {
      std::string f = path("out.cms");
      unlink(f.c_str());
      int rc = voucher_pledge_request_to_smimefile(&p.c, rp, f.c_str());
      ok = rc == 0;
      Bytes t;
      bool there = read_file(f, t);
      if (!ok)
        REQUIRE(!there || t.empty(), "file-on-failure", "a failed export wrote a request");
      else {
        REQUIRE(there, "no-file", "no file was written");
        BIO *b = BIO_new_mem_buf(t.data(), (int)t.size());
        CMS_ContentInfo *ci = SMIME_read_CMS(b, nullptr);
        if (ci) {
          unsigned char *o = nullptr;
          int n = i2d_CMS_ContentInfo(ci, &o);
          if (n > 0)
            m.assign(o, o + n);
          OPENSSL_free(o);
        }
        CMS_ContentInfo_free(ci);
        BIO_free(b);
        ERR_clear_error();
        REQUIRE(!m.empty(), "not-smime", "the file is not an S/MIME message");
      }
    } else {
      char *t = voucher_pledge_request_to_base64(&p.c, rp);
      ok = t != nullptr;
      if (ok) {
        REQUIRE(b64d(t, m), "not-base64", "the request is not base64: %s",
                pbt::quote(t, 80).c_str());
        free(t);
      }
    }
  }
  if (fault) {
    REQUIRE(!ok, "fault-accepted", "a request was made in spite of fault %d", fault);
    return;
  }
  REQUIRE(ok, "refused", "no request was made");
  CmsInfo info = cms_info(m);
  REQUIRE(info.ok && info.sig_ok, "not-signed", "the request is not a valid signed message");
  REQUIRE(info.signers.size() == 1 && info.signers[0] == ch.leaf.der, "signer", "another signer");
  REQUIRE(same_set(info.certs, certs), "certs", "%zu certificates in the message, expected %zu",
          info.certs.size(), certs.size());
  VModel got;
  std::string err;
  REQUIRE(vmodel_from_json(S(info.content), got, &err), "not-voucher", "%s in %s", err.c_str(),
          pbt::quote(S(info.content), 300).c_str());
  std::string g = vmodel_json(got), w = vmodel_json(want);
  REQUIRE(g == w, "content", "request states\n%s\nexpected\n%s", pbt::quote(g, 600).c_str(),
          pbt::quote(w, 600).c_str());
}
PROPERTY(C20, pledge_export, 15) { pledge_file(s, c, true); }
PROPERTY(C07, from_config, 30) { pledge_file(s, c, false); }

// ------------------------------------------------------------------- C14
struct Field {
  const char *key;
  int kind; // 0 text, 1 port, 2 list, 3 short text
  size_t off;
  const char *def;
};
#define F(t, k, f, kind, def) {k, kind, offsetof(struct t, f), def}
static const std::vector<Field> PF = {
    F(pledge_config, "createdOn", created_on, 3, nullptr),
    F(pledge_config, "serialNumber", serial_number, 0, nullptr),
    F(pledge_config, "nonce", nonce, 0, nullptr),
    F(pledge_config, "idevidCertPath", idevid_cert_path, 0, nullptr),
    F(pledge_config, "idevidKeyPath", idevid_key_path, 0, nullptr),
    F(pledge_config, "idevidCACertPath", idevid_ca_cert_path, 0, nullptr),
    F(pledge_config, "cmsSignCertPath", cms_sign_cert_path, 0, nullptr),
    F(pledge_config, "cmsSignKeyPath", cms_sign_key_path, 0, nullptr),
    F(pledge_config, "cmsAdditionalCertPath", cms_add_certs_paths, 2, nullptr),
    F(pledge_config, "cmsVerifyCertPath", cms_verify_certs_paths, 2, nullptr),
    F(pledge_config, "cmsVerifyStorePath", cms_verify_store_paths, 2, nullptr)};
static const std::vector<Field> RF = {
    F(registrar_config, "bindAddress", bind_address, 0, "0.0.0.0"),
    F(registrar_config, "port", port, 1, nullptr),
    F(registrar_config, "tlsCertPath", tls_cert_path, 0, nullptr),
    F(registrar_config, "tlsKeyPath", tls_key_path, 0, nullptr),
    F(registrar_config, "tlsCAKeyPath", tls_ca_key_path, 0, nullptr),
    F(registrar_config, "tlsCACertPath", tls_ca_cert_path, 0, nullptr),
    F(registrar_config, "cmsSignCertPath", cms_sign_cert_path, 0, nullptr),
    F(registrar_config, "cmsSignKeyPath", cms_sign_key_path, 0, nullptr),
    F(registrar_config, "cmsAdditionalCertPath", cms_add_certs_paths, 2, nullptr),
    F(registrar_config, "cmsVerifyCertPath", cms_verify_certs_paths, 2, nullptr),
    F(registrar_config, "cmsVerifyStorePath", cms_verify_store_paths, 2, nullptr)};
static const std::vector<Field> MF = {
    F(masa_config, "bindAddress", bind_address, 0, "0.0.0.0"),
    F(masa_config, "expiresOn", expires_on, 3, nullptr),
    F(masa_config, "port", port, 1, nullptr),
    F(masa_config, "ldevidCACertPath", ldevid_ca_cert_path, 0, nullptr),
    F(masa_config, "tlsCertPath", tls_cert_path, 0, nullptr),
    F(masa_config, "tlsKeyPath", tls_key_path, 0, nullptr),
    F(masa_config, "tlsCACertPath", tls_ca_cert_path, 0, nullptr),
    F(masa_config, "cmsSignCertPath", cms_sign_cert_path, 0, nullptr),
    F(masa_config, "cmsSignKeyPath", cms_sign_key_path, 0, nullptr),
    F(masa_config, "cmsAdditionalCertPath", cms_add_certs_paths, 2, nullptr),
    F(masa_config, "cmsVerifyCertPath", cms_verify_certs_paths, 2, nullptr),
    F(masa_config, "cmsVerifyStorePath", cms_verify_store_paths, 2, nullptr)};

struct Line {
  std::string text;
};
static std::string conf_value(Src &s, size_t maxlen, bool quoted) {
  static const std::string PLAIN =
      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-:=+%~@()[]{}!*&^$,?|<>";
  size_t n = 1 + s.size(maxlen - 1);
  std::string v = s.str(quoted && s.chance(40) ? PLAIN + " ;#'" : PLAIN, n);
  if (s.chance(8) && n > 3)
    v.replace(1, 2, "\xc3\xa9");
  return v;
}
static std::string conf_line(Src &s, const std::string &key, const std::string &v, bool quoted) {
  std::string l;
  if (s.chance(15))
    l += s.str(" \t", 1 + s.below(3));
  l += key;
  l += s.pick<std::string>({" = ", "=", " =", "= ", "\t=\t"});
  l += quoted ? "\"" + v + "\"" : v;
  if (s.chance(12))
    l += s.str(" \t", 1 + s.below(3));
  if (s.chance(8))
    l += s.flip() ? " ; note" : " # note";
  return l;
}
typedef std::map<std::string, std::vector<std::string>> Want; // list -> values
static std::string gen_section(Src &s, const std::vector<Field> &fs, Want &w, const char *eol) {
  std::vector<std::vector<std::string>> groups; // order inside a group is kept
  for (auto &f : fs) {
    std::vector<std::string> g;
    int n = f.kind != 2 ? (s.chance(75) ? 1 : 0)
            : s.chance(40) ? 0 : s.chance(5) ? 5 + (int)s.below(60) : (int)s.below(5);
    for (int i = 0; i < n; i++) {
      if (f.kind == 1) {
        std::string v = std::to_string(s.chance(15) ? 65535 - s.below(3) : s.below(65536));
        bool q = s.chance(10);
        g.push_back(conf_line(s, f.key, v, q));
        w[f.key].push_back(v);
        continue;
      }
      if (s.chance(18)) { // present, and empty
        g.push_back(conf_line(s, f.key, "", s.flip()));
        if (f.kind != 2)
          w[f.key].push_back("");
        continue;
      }
      bool q = s.flip();
      std::string v = f.kind == 3 ? (s.chance(70) ? iso(gen_tm(s)) : conf_value(s, 60, q))
                                  : conf_value(s, s.chance(15) ? 400 : 40, q);
      if (q && (v.front() == ' ' || v.back() == ' '))
        v.front() = v.back() = 'x';
      g.push_back(conf_line(s, f.key, v, q));
      w[f.key].push_back(v);
    }
    groups.push_back(g);
  }
  if (s.chance(30))
    groups.push_back({conf_line(s, "unknownKey", conf_value(s, 20, false), false)});
  if (s.chance(30))
    groups.push_back({s.pick<std::string>({"; comment = 1", "# port = 1", "", "   "})});
  // interleave
  std::string out;
  std::vector<size_t> at(groups.size(), 0);
  std::vector<size_t> left;
  for (size_t i = 0; i < groups.size(); i++)
    for (size_t j = 0; j < groups[i].size(); j++)
      left.push_back(i);
  shuffle(s, left);
  for (size_t i : left)
    out += groups[i][at[i]++] + eol;
  return out;
}
static void check_section(Ctx &c, const char *sec, const void *base, const std::vector<Field> &fs,
                          const Want &w, bool present) {
  for (auto &f : fs) {
    auto it = w.find(f.key);
    const char *b = (const char *)base + f.off;
    if (f.kind == 1) {
      unsigned got = *(const unsigned *)b;
      unsigned want = it == w.end() ? 0 : (unsigned)strtoul(it->second[0].c_str(), nullptr, 10);
      REQUIRE(got == want, "port", "[%s] %s is %u, expected %u", sec, f.key, got, want);
    } else if (f.kind == 2) {
      auto *l = *(struct BinaryArrayList *const *)b;
      std::vector<std::string> got, want;
      if (it != w.end())
        want = it->second;
      for (auto &i : items(l)) {
        REQUIRE(!i.first.empty() && i.first.back() == 0, "list-not-text",
                "[%s] %s: an entry is not a terminated text", sec, f.key);
        got.push_back((const char *)i.first.data());
      }
      std::string g, e;
      for (auto &x : got)
        g += pbt::quote(x, 40) + " ";
      for (auto &x : want)
        e += pbt::quote(x, 40) + " ";
      REQUIRE(got == want, "list", "[%s] %s: %s, expected %s", sec, f.key, g.c_str(), e.c_str());
    } else {
      const char *got = *(char *const *)b;
      const char *want = it == w.end() ? f.def : it->second[0].empty() ? nullptr : it->second[0].c_str();
      REQUIRE((got == nullptr) == (want == nullptr), got ? "value-set" : "value-unset",
              "[%s] %s is %s, expected %s", sec, f.key, got ? pbt::quote(got).c_str() : "unset",
              want ? pbt::quote(want).c_str() : "unset");
      if (want)
        REQUIRE(strcmp(got, want) == 0, "value", "[%s] %s is %s, expected %s", sec, f.key,
                pbt::quote(got).c_str(), pbt::quote(want).c_str());
    }
  }
}
static void check_freed(Ctx &c, const void *base, const std::vector<Field> &fs) {
  for (auto &f : fs)
    if (f.kind != 1)
      REQUIRE(*(void *const *)((const char *)base + f.off) == nullptr, "freed-dangling",
              "%s still set after the configuration was released", f.key);
}
PROPERTY(C14, load, 80) {
  const char *eol = s.chance(20) ? "\r\n" : "\n";
  Want w[3];
  const std::vector<Field> *fs[3] = {&PF, &RF, &MF};
  const char *names[3] = {"pledge", "registrar", "masa"};
  std::vector<std::string> secs;
  bool present[3];
  std::string all;
  for (int i = 0; i < 3; i++)
    if ((present[i] = s.chance(88))) {
      std::string t = std::string("[") + names[i] + "]" + (s.chance(10) ? "  " : "") + eol;
      t += gen_section(s, *fs[i], w[i], eol);
      secs.push_back(t);
    }
  if (s.chance(25))
    secs.push_back(std::string("[other]") + eol + "port = 77" + eol + "serialNumber = other" + eol +
                   "cmsAdditionalCertPath = /other" + eol);
  shuffle(s, secs);
  for (auto &t : secs) {
    all += t;
    if (s.chance(50))
      all += eol;
  }
  if (s.chance(15) && !all.empty() && all.back() == '\n')
    all.pop_back();
  std::string p = path("config.ini");
  write_file(p, all);
  c.note("%s", all.c_str());
  c.nontrivial(all.size() > 100);
  struct brski_config cf = {};
  int rc = load_brski_config(p.c_str(), &cf);
  REQUIRE(rc == 0, "load-refused", "load_brski_config returned %d", rc);
  check_section(c, "pledge", &cf.pconf, PF, w[0], present[0]);
  check_section(c, "registrar", &cf.rconf, RF, w[1], present[1]);
  check_section(c, "masa", &cf.mconf, MF, w[2], present[2]);
  free_config_content(&cf);
  check_freed(c, &cf.pconf, PF);
  check_freed(c, &cf.rconf, RF);
  check_freed(c, &cf.mconf, MF);
  free_config_content(&cf); // releasing twice is harmless
}
PROPERTY(C14, unreadable, 4) {
  std::string p = s.flip() ? path("no-such.ini") : path("no/such/dir/config.ini");
  if (s.chance(20))
    p = "";
  struct brski_config cf = {};
  int rc = load_brski_config(p.c_str(), &cf);
  c.nontrivial(s.below(1000) > 1);
  REQUIRE(rc < 0, "unreadable-accepted", "loading %s reported success", pbt::quote(p).c_str());
  check_freed(c, &cf.pconf, PF);
  check_freed(c, &cf.rconf, RF);
  check_freed(c, &cf.mconf, MF);
}
// any text is loaded or refused without a fault and without keeping memory
PROPERTY(C14, any_text, 16) {
  std::string t;
  if (s.flip()) {
    Want w;
    t = "[pledge]\n" + gen_section(s, PF, w, "\n") + "[registrar]\n" + gen_section(s, RF, w, "\n") +
        "[masa]\n" + gen_section(s, MF, w, "\n");
    t = S(mutate(s, B(t), 8));
  } else {
    static const std::vector<std::string> TOK = {
        "[", "]", "pledge", "registrar", "masa", "[pledge]", "[masa]", "[registrar]", "=", "\n", "\r", "\"",
        ";", "#", " ", "port", "cmsVerifyStorePath", "bindAddress", "createdOn", "999999999999999999999",
        "-1", "0x10", "\\", "\t", "expiresOn", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"};
    int n = (int)s.size(120);
    for (int i = 0; i < n; i++) {
      std::string x = s.chance(8) ? S(s.bytes(1 + s.below(4))) : s.pick(TOK);
      int r = s.chance(3) ? (int)s.below(700) : 1;
      for (int j = 0; j < r; j++)
        t += x;
    }
  }
  std::string p = path("config.ini");
  write_file(p, t);
  c.note("%s", pbt::quote(t, 400).c_str());
  c.nontrivial(t.size() > 20);
  int64_t before = 0;
  for (int i = 0; i < 2; i++) {
    struct brski_config cf = {};
    before = pbt::live_blocks();
    int rc = load_brski_config(p.c_str(), &cf);
    REQUIRE(rc == 0 || rc == -1, "result", "load_brski_config returned %d", rc);
    for (auto *l : {cf.pconf.cms_add_certs_paths, cf.rconf.cms_verify_certs_paths,
                    cf.mconf.cms_verify_store_paths})
      for (auto &e : items(l))
        REQUIRE(!e.first.empty() && e.first.back() == 0, "list-not-text", "unterminated entry");
    free_config_content(&cf);
  }
  REQUIRE(pbt::live_blocks() == before, "leak", "%lld blocks kept",
          (long long)(pbt::live_blocks() - before));
}

/* Helpers of the demonstrations: certificates, files and lists. */
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <initializer_list>
#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_config.h"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_config.h"
#include "brski/pledge/pledge_config.h"
#include "brski/pledge/pledge_request.hpp"
extern "C" {
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
#include "brski/config.h"
#include "brski/pledge/pledge_utils.h"
}
struct Id { BinaryArray key{}, cert{}; };
static void need(bool ok, const char *what) {
  if (!ok) { fprintf(stderr, "demo set-up failed: %s\n", what); exit(98); }
}
static void check(bool ok, const char *what) {
  if (!ok) { fprintf(stderr, "BROKEN: %s\n", what); exit(1); }
}
typedef std::vector<std::pair<std::string, std::string>> Name;
static uint64_t g_serial = 1000;
/* a certificate with the given subject; self-signed, or signed by ca */
static Id mkid(Name subject, bool is_ca, const Id *ca = nullptr, const BinaryArray *key = nullptr) {
  Id id;
  ssize_t n;
  if (key) { need(copy_binary_array(&id.key, key) == 0, "key"); }
  else { n = crypto_generate_eckey(&id.key.array); need(n > 0, "key"); id.key.length = n; }
  crypto_cert_meta m = {};
  m.serial_number = ++g_serial;
  m.not_before = 0;
  m.not_after = 86400;
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  m.basic_constraints = (char *)(is_ca ? "CA:true" : "CA:false");
  for (auto &p : subject) {
    push_keyvalue_list(m.subject, (char *)p.first.c_str(), (char *)p.second.c_str());
    push_keyvalue_list(m.issuer, (char *)p.first.c_str(), (char *)p.second.c_str());
  }
  n = crypto_generate_eccert(&m, id.key.array, id.key.length, &id.cert.array);
  need(n > 0, "certificate");
  id.cert.length = n;
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
  if (ca) {
    n = crypto_sign_cert(ca->key.array, ca->key.length, ca->cert.array, ca->cert.length,
                         id.cert.length, &id.cert.array);
    need(n > 0, "signing the certificate");
    id.cert.length = n;
  }
  return id;
}
static BinaryArrayList *mklist(std::initializer_list<const BinaryArray *> l) {
  BinaryArrayList *r = init_array_list();
  for (auto a : l) need(push_array_list(r, a->array, a->length, 0) == 0, "list");
  return r;
}
static BinaryArrayList *mkpaths(std::initializer_list<std::string> l) {
  BinaryArrayList *r = init_array_list();
  for (auto &a : l) need(push_array_list(r, (uint8_t *)a.c_str(), a.size() + 1, 0) == 0, "list");
  return r;
}
static std::string g_dir;
static std::string scratch() {
  if (g_dir.empty()) {
    const char *d = getenv("DEMO_DIR");
    need(d && *d, "DEMO_DIR");
    g_dir = d;
  }
  return g_dir;
}
static std::string wcert(const Id &i, const char *n) {
  std::string f = scratch() + "/" + n + ".crt";
  need(certbuf_to_file(&i.cert, f.c_str()) == 0, "certificate file");
  return f;
}
static std::string wkey(const Id &i, const char *n) {
  std::string f = scratch() + "/" + n + ".key";
  need(keybuf_to_file(&i.key, f.c_str()) == 0, "key file");
  return f;
}
static std::string rd(const std::string &f) {
  std::string s;
  FILE *p = fopen(f.c_str(), "rb");
  if (!p) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
  fclose(p);
  return s;
}
static void wr(const std::string &f, const std::string &s) {
  FILE *p = fopen(f.c_str(), "wb");
  need(p, "file");
  fwrite(s.data(), 1, s.size(), p);
  fclose(p);
}
static char *dup(const std::string &s) { return strdup(s.c_str()); }
static std::string b64(const BinaryArray &a) {
  uint8_t *o = nullptr;
  need(serialize_array2base64str(a.array, a.length, &o) >= 0, "base64");
  std::string s((char *)o);
  free(o);
  return s;
}
static BinaryArray unb64(const std::string &s) {
  BinaryArray a{};
  ssize_t n = serialize_base64str2array((const uint8_t *)s.data(), s.size(), &a.array);
  if (n > 0) a.length = n;
  return a;
}
static struct tm mktm(int y, int mo, int d) {
  struct tm t = {};
  t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d;
  time_t x = timegm(&t);
  gmtime_r(&x, &t);
  return t;
}
/* A pledge, a registrar and a MASA with consistent keys, files and configurations */
struct World {
  Id idev_ca, pledge, dom_ca, reg_tls, reg_ca, reg_sign, masa_ca, masa_sign;
  pledge_config p = {};
  registrar_config r = {};
  masa_config m = {};
  std::string serial;
  World(const std::string &sn = "serial-007", Name extra = {}) : serial(sn) {
    idev_ca = mkid({{"CN", "idevid ca"}, {"O", "maker"}}, true);
    Name subj = {{"CN", "pledge"}};
    if (!sn.empty()) subj.push_back({"serialNumber", sn});
    for (auto &e : extra) subj.push_back(e);
    pledge = mkid(subj, false, &idev_ca);
    dom_ca = mkid({{"CN", "domain ca"}}, true);
    reg_tls = mkid({{"CN", "registrar tls"}}, false, &dom_ca);
    reg_ca = mkid({{"CN", "registrar cms ca"}}, true);
    reg_sign = mkid({{"CN", "registrar cms"}}, false, &reg_ca);
    masa_ca = mkid({{"CN", "masa ca"}}, true);
    masa_sign = mkid({{"CN", "masa cms"}}, false, &masa_ca);
    p.created_on = dup("2024-02-03T04:05:06Z");
    p.serial_number = dup(sn);
    p.nonce = dup("bm9uY2Utb2YtcGxlZGdl");
    p.idevid_cert_path = dup(wcert(pledge, "pledge"));
    p.idevid_key_path = dup(wkey(pledge, "pledge"));
    p.idevid_ca_cert_path = dup(wcert(idev_ca, "idevca"));
    p.cms_sign_cert_path = p.idevid_cert_path;
    p.cms_sign_key_path = p.idevid_key_path;
    p.cms_verify_store_paths = mkpaths({wcert(masa_ca, "masaca")});
    r.bind_address = dup("registrar.example");
    r.port = 1;
    r.tls_cert_path = dup(wcert(reg_tls, "regtls"));
    r.tls_key_path = dup(wkey(reg_tls, "regtls"));
    r.tls_ca_cert_path = dup(wcert(dom_ca, "domca"));
    r.tls_ca_key_path = dup(wkey(dom_ca, "domca"));
    r.cms_sign_cert_path = dup(wcert(reg_sign, "regsign"));
    r.cms_sign_key_path = dup(wkey(reg_sign, "regsign"));
    r.cms_verify_store_paths = mkpaths({wcert(idev_ca, "idevca")});
    m.bind_address = dup("masa.example");
    m.port = 2;
    m.expires_on = dup("2030-10-20T01:02:03Z");
    m.ldevid_ca_cert_path = dup(wcert(dom_ca, "domca"));
    m.tls_cert_path = dup(wcert(masa_sign, "masatls"));
    m.tls_key_path = dup(wkey(masa_sign, "masatls"));
    m.cms_sign_cert_path = dup(wcert(masa_sign, "masasign"));
    m.cms_sign_key_path = dup(wkey(masa_sign, "masasign"));
    m.cms_verify_store_paths = mkpaths({wcert(reg_ca, "regca")});
  }
  /* the pledge's request, base64 */
  std::string request() {
    char *s = voucher_pledge_request_to_base64(&p, &reg_tls.cert);
    need(s, "pledge request");
    std::string r(s);
    free(s);
    return r;
  }
  /* the registrar's request for a pledge request */
  BinaryArray *forward(const std::string &preq, const char *sn = nullptr) {
    BinaryArray c = unb64(preq);
    struct tm t = mktm(2024, 3, 4);
    CRYPTO_CERT x = crypto_cert2context(pledge.cert.array, pledge.cert.length);
    BinaryArray *iss = crypto_getcert_issuer(x);
    BinaryArrayList *st = mklist({&idev_ca.cert});
    BinaryArray *o = sign_voucher_request(&c, &t, sn ? sn : serial.c_str(), iss, &reg_tls.cert,
                                          &reg_sign.cert, &reg_sign.key, nullptr, st, nullptr);
    free_array_list(st);
    free_binary_array(iss);
    crypto_free_certcontext(x);
    free_binary_array_content(&c);
    return o;
  }
};
static Voucher *read_voucher(const BinaryArray &cms) {
  return verify_cms_voucher(&cms, nullptr, nullptr, nullptr);
}
static BinaryArray S(const char *s) { return BinaryArray{(uint8_t *)s, strlen(s)}; }

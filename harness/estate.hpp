// A generated deployment: manufacturer, registrar and pledge with their keys,
// certificates, trust lists and configuration records, in the scratch
// directory.  Everything is built with OpenSSL directly.
#ifndef ESTATE_HPP
#define ESTATE_HPP
#include "engine/net.hpp"
#include "harness/req.hpp"
#include <unistd.h>
extern "C" {
#include "brski/config.h"
#include "brski/masa/masa_config.h"
#include "brski/pledge/pledge_config.h"
#include "brski/registrar/registrar_config.h"
}
#include "brski/masa/masa_api.hpp"
#include "brski/masa/masa_server.hpp"
#include "brski/registrar/registrar_api.hpp"
#include "brski/registrar/registrar_server.hpp"
namespace estate {
using namespace req;

// a signing party and what its verifier trusts
struct Party {
  std::string tag;
  Chain ch;
  std::vector<Bytes> extra;          // certificates put into its messages
  std::vector<Bytes> vcerts, vstore; // the verifier's lists
  bool trusted = true;
  const char *what = "";
};
inline Party gen_party(Src &s, const std::string &tag, int base, int bad_pct) {
  Party p;
  p.tag = tag;
  p.ch = chain(s, tag, base, (int)s.weighted({35, 45, 20}), any_key(s, base, 5, 3),
               dn(tag + "-signer"));
  p.extra = p.ch.inter_der();
  if (s.chance(30))
    p.extra.push_back(unrelated(s, 0).der);
  shuffle(s, p.extra);
  if (s.chance(30))
    for (int i = 0; i < 2; i++)
      if (s.flip())
        p.vcerts.push_back(unrelated(s, i).der);
  if (s.chance(bad_pct)) {
    p.trusted = false;
    if (s.chance(60)) {
      p.what = "other-anchor";
      p.vstore.push_back(unrelated(s, 2).der);
    } else {
      p.what = "namesake-anchor";
      CertSpec q;
      q.subject = get_name(X509_get_subject_name(p.ch.root.x.get()));
      q.ca = 1;
      q.serial = {9};
      p.vstore.push_back(make_cert(q, ec(15)).der);
    }
    return p;
  }
  switch (s.below(3)) {
  case 0: p.what = "no-anchors"; break;
  case 1:
    p.what = "anchor";
    p.vstore.push_back(p.ch.root.der);
    break;
  default:
    p.what = "anchors";
    p.vstore.push_back(p.ch.root.der);
    p.vstore.push_back(unrelated(s, 2).der);
    shuffle(s, p.vstore);
  }
  if (s.chance(20))
    p.vcerts.push_back(p.ch.leaf.der);
  return p;
}
struct Estate {
  std::string serial;
  Bytes nonce; // empty: none
  Chain idev;  // the pledge's TLS identity
  Cert idevid;
  Cert domain; // the domain certificate authority, pinned by the MASA
  const Key *domain_key, *tls_key;
  Cert reg_tls, masa_tls;
  Party pl, rg, ma;
  std::vector<Bytes> pl_extra, rg_extra, ma_extra;
  struct tm expires;
  registrar_config rc = {};
  masa_config mc = {};
  pledge_config pc = {};
  RegistrarContext rctx = {};
  MasaContext mctx = {};
  std::vector<std::unique_ptr<std::string>> strs;
  std::vector<std::unique_ptr<List>> lists;
  std::vector<std::string> files; // by role name, for fault injection
  int port_seq = 0;

  char *str(const std::string &v) {
    strs.emplace_back(new std::string(v));
    return &(*strs.back())[0];
  }
  BinaryArrayList *paths(const std::string &name, const std::vector<Bytes> &certs) {
    std::vector<Bytes> v;
    for (size_t i = 0; i < certs.size(); i++) {
      std::string p = put_cert(name + std::to_string(i) + ".pem", certs[i]);
      Bytes b = B(p);
      b.push_back(0);
      v.push_back(b);
    }
    lists.emplace_back(new List(v));
    return lists.back()->l;
  }
  std::string log_path() const { return pbt::scratch() + "/registrar.log"; }
  // a pledge request as the pledge would make it
  VModel pledge_model(const struct tm &t) const {
    VModel m;
    m.assertion = VOUCHER_ASSERTION_PROXIMITY;
    m.has_serial = true, m.serial = serial;
    m.has_arr[A_PROX] = true, m.arr[A_PROX] = reg_tls.der;
    m.has_time[T_CREATED] = true, m.time[T_CREATED] = t;
    if (!nonce.empty())
      m.has_arr[A_NONCE] = true, m.arr[A_NONCE] = nonce;
    return m;
  }
  static std::vector<Cert> certs_of(const std::vector<Bytes> &v) {
    std::vector<Cert> r;
    for (auto &b : v)
      r.push_back(cert_from(b));
    return r;
  }
  Bytes sign(const Party &p, const std::string &json) const {
    return cms_sign(B(json), p.ch.leaf, *p.ch.leaf_key, certs_of(p.extra), true, true);
  }
  Bytes issuer_text(const Cert &x) const {
    BIO *b = BIO_new(BIO_s_mem());
    X509_NAME_print_ex(b, X509_get_issuer_name(x.x.get()), 0, XN_FLAG_ONELINE);
    char *p = nullptr;
    long n = BIO_get_mem_data(b, &p);
    Bytes r(p, p + n);
    BIO_free(b);
    return r;
  }
  VModel registrar_model(const VModel &pm, const Bytes &pledge_cms, const struct tm &t) const {
    VModel w;
    w.has_time[T_CREATED] = true, w.time[T_CREATED] = t;
    w.has_serial = true, w.serial = serial;
    w.has_arr[A_NONCE] = pm.has_arr[A_NONCE], w.arr[A_NONCE] = pm.arr[A_NONCE];
    w.has_arr[A_IDEVID] = true, w.arr[A_IDEVID] = issuer_text(idevid);
    w.has_arr[A_PRIOR] = true, w.arr[A_PRIOR] = pledge_cms;
    return w;
  }
  VModel voucher_model(const VModel &rm, const Bytes &pin) const {
    VModel w;
    w.assertion = VOUCHER_ASSERTION_PROXIMITY;
    w.has_serial = true, w.serial = rm.serial;
    w.has_arr[A_NONCE] = rm.has_arr[A_NONCE], w.arr[A_NONCE] = rm.arr[A_NONCE];
    w.has_arr[A_PINNED] = true, w.arr[A_PINNED] = pin;
    w.has_time[T_EXPIRES] = true, w.time[T_EXPIRES] = expires;
    return w;
  }
};
struct Opt {
  int bad_pct = 0;       // untrusted parties
  bool start = true;     // start the servers on the stand-in transport
  int depth_max = 2;
  bool plain = false;    // a serial number that a configuration file can hold as it is
};
inline void gen_estate(Estate &e, Src &s, const Opt &o) {
  e.serial = s.chance(80) || o.plain ? s.str("0123456789abcdefABCDEF-", 1 + s.size(24)) : [&] {
    std::string v;
    do
      v = s.chance(30) ? gen_odd_serial(s) : gen_serial(s, 40);
    while (v.empty() || v.find('\0') != std::string::npos);
    return v;
  }();
  if (s.chance(70))
    e.nonce = o.plain ? s.bytes(1 + s.length(39, 330)) : gen_nonempty(s, 40); // a line of a configuration file has 511 characters
  Name n = dn("pledge", "");
  n.push_back({"serialNumber", e.serial});
  if (s.flip())
    std::swap(n[0], n[2]);
  e.idev = chain(s, "idev", 0, (int)s.below(2), ec(0), n);
  e.idevid = e.idev.leaf;
  CertSpec dp;
  dp.subject = dn("domain-ca");
  dp.ca = s.chance(85) ? 1 : -1; // the original examples pin a CA:false certificate
  dp.skid = s.flip();
  dp.serial = few_serial(s, 5);
  e.domain_key = &ec(3);
  if (s.chance(70))
    e.domain = make_cert(dp, ec(3));
  else {
    CertSpec rp;
    rp.subject = dn("domain-root");
    rp.ca = 1;
    rp.serial = few_serial(s, 7);
    Cert root = make_cert(rp, ec(2));
    e.domain = make_cert(dp, ec(3), &root);
  }
  e.tls_key = &ec(4);
  e.reg_tls = tls_cert(s, 4, &e.domain);
  e.masa_tls = tls_cert(s, 5);
  e.pl = gen_party(s, "pl", 5, o.bad_pct);
  e.rg = gen_party(s, "rg", 8, o.bad_pct);
  e.ma = gen_party(s, "ma", 11, o.bad_pct);
  e.expires = gen_tm(s);
  // configuration records
  e.rc.bind_address = e.str("registrar.local");
  e.rc.port = 12345;
  e.rc.tls_cert_path = e.str(put_cert("rtls.crt", e.reg_tls.der));
  e.rc.tls_key_path = e.str(put_key("rtls.key", *e.tls_key));
  e.rc.tls_ca_cert_path = e.str(put_cert("rca.crt", e.domain.der));
  e.rc.tls_ca_key_path = e.str(put_key("rca.key", *e.domain_key));
  e.rc.cms_sign_cert_path = e.str(put_cert("rcms.crt", e.rg.ch.leaf.der));
  e.rc.cms_sign_key_path = e.str(put_key("rcms.key", *e.rg.ch.leaf_key));
  e.rc.cms_add_certs_paths = e.paths("radd", e.rg.extra);
  e.rc.cms_verify_certs_paths = e.paths("rvc", e.pl.vcerts);
  e.rc.cms_verify_store_paths = e.paths("rvs", e.pl.vstore);
  e.mc.bind_address = e.str("masa.local");
  e.mc.port = 15678;
  e.mc.expires_on = e.str(iso(e.expires));
  e.mc.ldevid_ca_cert_path = e.str(put_cert("pin.crt", e.domain.der));
  e.mc.tls_cert_path = e.str(put_cert("mtls.crt", e.masa_tls.der));
  e.mc.tls_key_path = e.str(put_key("mtls.key", ec(5)));
  e.mc.cms_sign_cert_path = e.str(put_cert("mcms.crt", e.ma.ch.leaf.der));
  e.mc.cms_sign_key_path = e.str(put_key("mcms.key", *e.ma.ch.leaf_key));
  e.mc.cms_add_certs_paths = e.paths("madd", e.ma.extra);
  e.mc.cms_verify_certs_paths = e.paths("mvc", e.rg.vcerts);
  e.mc.cms_verify_store_paths = e.paths("mvs", e.rg.vstore);
  e.pc.created_on = nullptr;
  e.pc.serial_number = e.str(e.serial);
  e.pc.nonce = e.nonce.empty() ? nullptr : e.str(b64(e.nonce));
  e.pc.idevid_cert_path = e.str(put_cert("idev.crt", e.idevid.der));
  e.pc.idevid_key_path = e.str(put_key("idev.key", *e.idev.leaf_key));
  e.pc.cms_sign_cert_path = e.str(put_cert("pcms.crt", e.pl.ch.leaf.der));
  e.pc.cms_sign_key_path = e.str(put_key("pcms.key", *e.pl.ch.leaf_key));
  e.pc.cms_add_certs_paths = e.paths("padd", e.pl.extra);
  e.pc.cms_verify_certs_paths = e.paths("pvc", e.ma.vcerts);
  e.pc.cms_verify_store_paths = e.paths("pvs", e.ma.vstore);
  e.rctx.rconf = &e.rc, e.rctx.mconf = &e.mc;
  snprintf(e.rctx.log_path, sizeof e.rctx.log_path, "%s", e.log_path().c_str());
  unlink(e.log_path().c_str());
  e.mctx.rconf = &e.rc, e.mctx.mconf = &e.mc;
}
// a certificate handed to a handler, as the TLS layer would
struct Peer {
  X509 *x = nullptr;
  Peer(const Bytes &der) {
    const uint8_t *p = der.data();
    x = der.empty() ? nullptr : d2i_X509(nullptr, &p, (long)der.size());
  }
  ~Peer() { X509_free(x); }
  Peer(const Peer &) = delete;
};
struct Answer {
  int status = 0;
  std::string body, ctype;
};
// what the HTTP layer does with a handler
typedef int (*Handler)(const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &,
                       std::string &, void *);
inline Answer ask(Handler h, const std::string &body, const Bytes &peer, void *ctx) {
  Answer a;
  Peer p(peer);
  RequestHeader rq;
  rq["Content-Type"] = "application/voucher-cms+json";
  ResponseHeader rs;
  try {
    a.status = h(rq, body, (CRYPTO_CERT)p.x, rs, a.body, ctx);
  } catch (const std::exception &x) {
    a.status = 505;
    a.body = x.what();
    rs["Content-Type"] = "text/plain";
  }
  a.ctype = rs["Content-Type"];
  return a;
}
// ways of writing the same base64 text
inline std::string wrap64(Src &s, const Bytes &b) {
  std::string t = b64(b);
  if (s.chance(75))
    return t;
  std::string r;
  size_t w = s.pick<size_t>({64, 76, 61});
  for (size_t i = 0; i < t.size(); i += w)
    r += t.substr(i, w) + "\n";
  return r;
}
// damages one file of a deployment; returns a description
inline std::string break_file(Src &s, const std::string &path) {
  switch (s.below(4)) {
  case 0:
    unlink(path.c_str());
    return "missing";
  case 1:
    write_file(path, std::string());
    return "empty";
  case 2: {
    Bytes b;
    read_file(path, b);
    b.resize(b.size() / 2);
    write_file(path, b);
    return "truncated";
  }
  default:
    write_file(path, S(s.bytes(1 + s.below(200))));
    return "garbage";
  }
}
} // namespace estate
#endif

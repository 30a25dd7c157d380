// Signed request generators shared by the harnesses: signers, trust decisions,
// pledge and registrar requests, and the check of a produced message.
#ifndef REQ_HPP
#define REQ_HPP
#include "engine/pki.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
namespace req {
using namespace env;
using namespace pki;
typedef std::vector<std::pair<Bytes, int>> Store;

inline struct tm now_tm() { return tm_from(pbt::clock_get()); }

// ------------------------------------------------ a signer, a trust decision
struct Trust {
  bool has_certs = false, has_store = false;
  std::vector<Bytes> certs;
  Store store;
  bool accepts = true;
  bool embed_signer = true;
  const char *what = "";
  std::unique_ptr<List> c, st;
  void make() {
    if (has_certs)
      c.reset(new List(certs, false));
    if (has_store)
      st.reset(new List(store));
  }
  struct BinaryArrayList *cl() const { return c ? c->l : nullptr; }
  struct BinaryArrayList *sl() const { return st ? st->l : nullptr; }
};
// bad: percentage of decisions that must refuse
inline Trust gen_trust(Src &s, const Chain &ch, const std::string &tag, int bad_pct) {
  Trust t;
  if (s.chance(30)) {
    t.has_certs = true;
    for (int i = 0; i < 2; i++)
      if (s.flip())
        t.certs.push_back(unrelated(s, i).der);
  }
  if (s.chance(bad_pct)) {
    t.accepts = false;
    switch (s.below(4)) {
    case 0: { // other anchors only
      t.what = "other-anchor";
      t.has_store = true;
      t.store.push_back({unrelated(s, 2).der, 0});
      break;
    }
    case 1: { // an anchor with the root's name and another key
      t.what = "namesake-anchor";
      CertSpec p;
      p.subject = get_name(X509_get_subject_name(ch.root.x.get()));
      p.ca = 1;
      p.serial = {9};
      t.has_store = true;
      t.store.push_back({make_cert(p, ec(11)).der, 0});
      break;
    }
    case 2: // the signer's certificate is nowhere
      t.what = "no-signer-cert";
      t.embed_signer = false;
      break;
    default:
      if (ch.self_signed || !ch.inter.empty()) {
        t.what = "other-anchor";
        t.has_store = true;
        t.store.push_back({unrelated(s, 3).der, 0});
      } else { // revoked by a list given with the anchor
        t.what = "revoked";
        t.has_store = true;
        t.store.push_back({ch.root.der, CRYPTO_CERTIFICATE_VALID});
        const ASN1_INTEGER *n = X509_get0_serialNumber(ch.leaf.x.get());
        Bytes sn(n->data, n->data + n->length);
        t.store.push_back({make_crl(ch.root, {sn}), CRYPTO_CERTIFICATE_CRL});
        shuffle(s, t.store);
      }
    }
    t.make();
    return t;
  }
  switch (s.below(3)) {
  case 0:
    t.what = "no-anchors";
    break;
  case 1:
    t.what = "anchor";
    t.has_store = true;
    t.store.push_back({ch.root.der, CRYPTO_CERTIFICATE_VALID});
    break;
  default:
    t.what = "anchors";
    t.has_store = true;
    t.store.push_back({ch.root.der, CRYPTO_CERTIFICATE_VALID});
    t.store.push_back({unrelated(s, 2).der, CRYPTO_CERTIFICATE_VALID});
    shuffle(s, t.store);
  }
  if (s.chance(20)) { // the verifier knows the signer's certificate
    t.has_certs = true;
    t.certs.insert(t.certs.begin() + (long)s.below(t.certs.size() + 1), ch.leaf.der);
    t.embed_signer = s.flip();
  }
  t.make();
  return t;
}
// signs; may tamper with the content afterwards
inline Bytes sign_as(const Chain &ch, const std::string &json, const Trust &t) {
  return cms_sign(B(json), ch.leaf, *ch.leaf_key, ch.inter, true, t.embed_signer);
}
inline bool tamper(Src &s, Bytes &m, const std::string &content) {
  auto it = std::search(m.begin(), m.end(), content.begin(), content.end());
  if (it == m.end() || content.empty())
    return false;
  it[(long)s.below(content.size())] ^= (uint8_t)(1u << s.below(7));
  return true;
}
inline std::string near_serial(Src &s, const std::string &v) {
  std::string r = v;
  for (char ch : v)
    if (ch & 0x80) { // characters stay whole
      r = s.flip() ? "other" : v.size() < 127 ? v + "x" : "x";
      return r == v ? "y" : r;
    }
  switch (s.below(8)) {
  case 7: r = gen_odd_serial(s); break;
  case 0: r += s.pick<std::string>({" ", "0", "x", "\t"}); break;
  case 1: if (r.size() > 1) r.pop_back(); else r += "1"; break;
  case 2: r.insert(r.begin(), ' '); break;
  case 3: for (auto &ch : r) if (isalpha((unsigned char)ch)) { ch ^= 0x20; break; } break;
  case 4: r = gen_serial(s, 20); break;
  case 5: r[s.below(r.size())] = 'Z'; break;
  default: r = "0" + r; break;
  }
  if (r.size() > 127)
    r = "other";
  if (r == v) // never the same
    r = r == "7" ? "8" : "7";
  return r;
}
inline Bytes near_bytes(Src &s, const Bytes &b) {
  Bytes r = b;
  switch (s.below(5)) {
  case 0: r[s.below(r.size())] ^= (uint8_t)(1u << s.below(8)); break;
  case 1: r.push_back(s.byte()); break;
  case 2: if (r.size() > 1) r.pop_back(); else r[0] ^= 1; break;
  case 3: r = s.bytes(r.size()); break;
  default: r.insert(r.begin(), 0); break;
  }
  if (r == b)
    r[0] ^= 1;
  return r;
}
inline std::string ser(Src &s) { return s.chance(10) ? gen_odd_serial(s) : gen_serial(s, s.chance(5) ? 127 : 30); }
inline Bytes take_opt(struct BinaryArray *a, bool &ok) {
  ok = a != nullptr;
  return ok ? take(a) : Bytes();
}
inline Cert tls_cert(Src &s, int slot, const Cert *signer = nullptr, int ca = -1) {
  CertSpec p;
  p.subject = dn("tls-" + std::to_string(slot), s.flip() ? "r1" : "");
  p.serial = few_serial(s, 3);
  p.ca = ca;
  p.skid = s.flip();
  p.akid = signer != nullptr && s.flip();
  return make_cert(p, ec(slot), signer);
}
// the content and the signer of a produced message
inline void check_out(Ctx &c, const Bytes &m, const VModel &want, const Bytes &signer,
                      std::vector<Bytes> certs) {
  CmsInfo info = cms_info(m);
  REQUIRE(info.ok && info.attached && info.sig_ok, "out-not-signed",
          "the result is not a valid signed message");
  REQUIRE(info.signers.size() == 1 && info.signers[0] == signer, "out-signer",
          "signed by another certificate");
  certs.push_back(signer);
  REQUIRE(same_set(info.certs, certs), "out-certs", "%zu certificates in the message, expected %zu",
          info.certs.size(), certs.size());
  VModel got;
  std::string err;
  REQUIRE(vmodel_from_json(S(info.content), got, &err), "out-not-voucher", "%s: %s", err.c_str(),
          pbt::quote(S(info.content), 300).c_str());
  std::string g = vmodel_json(got), w = vmodel_json(want);
  REQUIRE(g == w, "out-content", "it states\n%s\nexpected\n%s", pbt::quote(g, 700).c_str(),
          pbt::quote(w, 700).c_str());
}
struct SignKit { // certificate, key and additional certificates of a signer
  Cert cert;
  const Key *key;
  Bytes cert_b, key_b;
  std::vector<Bytes> extra;
  bool usable = true;
  const char *what = "";
};
inline SignKit gen_kit(Src &s, int slot, const std::string &cn, int bad_pct) {
  SignKit k;
  const Key &key = any_key(s, slot, 10, 6);
  k.key = &key;
  CertSpec p;
  p.subject = dn(cn);
  p.serial = few_serial(s, 4);
  p.skid = s.flip();
  k.cert = make_cert(p, key);
  k.cert_b = k.cert.der;
  k.key_b = key.der;
  int n = (int)s.below(3);
  for (int i = 0; i < n; i++)
    k.extra.push_back(unrelated(s, i).der);
  if (s.chance(bad_pct)) {
    k.usable = false;
    switch (s.below(5)) {
    case 0: k.what = "bad-key"; k.key_b = s.bytes(1 + s.below(80)); break;
    case 1: k.what = "other-key"; k.key_b = ec(slot == 14 ? 13 : 14).der; break;
    case 2: k.what = "bad-cert"; k.cert_b.resize(k.cert_b.size() / 2); break;
    case 3: k.what = "bad-extra"; k.extra.push_back(s.bytes(1 + s.below(60))); break;
    default: k.what = "key-prefix"; k.key_b.resize(k.key_b.size() / 2); break;
    }
  }
  return k;
}

// ---------------------------------------------------- pledge request inputs
struct PledgeReq {
  VModel m;
  std::string json;
  Chain ch;
  Trust t;
  Bytes cms;
  bool verifies = true, parses = true;
};
inline std::string broken_json(Src &s, std::string j) {
  switch (s.below(6)) {
  case 0: return j.substr(0, j.size() - 1 - s.below(j.size() - 1));
  case 1: return "";
  case 2: j.replace(j.find("ietf-voucher"), 4, "IETF"); return j;
  case 3: j.insert(j.find(":{") + 2, "\"unknown\":\"x\","); return j;
  case 4: return "[" + j + "]";
  default: return "not json";
  }
}
inline PledgeReq gen_pledge(Src &s, const VModel &m, int base, const std::string &tag,
                            int bad_pct) {
  PledgeReq p;
  p.m = m;
  p.ch = chain(s, tag, base, (int)s.weighted({40, 40, 20}), any_key(s, base, 6, 3), dn(tag + "-signer"));
  p.json = vmodel_json(m);
  if (s.chance(bad_pct / 3)) {
    p.parses = false;
    p.json = broken_json(s, p.json);
  }
  p.t = gen_trust(s, p.ch, tag, bad_pct);
  p.cms = sign_as(p.ch, p.json, p.t);
  p.verifies = p.t.accepts;
  if (s.chance(bad_pct / 3) && tamper(s, p.cms, p.json)) {
    p.verifies = false;
    p.t.what = "tampered";
  } else if (s.chance(bad_pct / 6)) {
    p.verifies = false;
    p.t.what = "garbage";
    p.cms = s.flip() ? s.bytes(1 + s.below(300)) : Bytes(p.cms.begin(), p.cms.begin() + (long)s.below(p.cms.size()));
    if (p.cms.empty())
      p.cms = {0};
  }
  return p;
}

} // namespace req
#endif

// C07 pledge requests, C08 registrar requests, C09 MASA vouchers, C10 voucher
// acceptance: the four signed-message operations against a reference decision.
#include "harness/req.hpp"
using namespace req;

// ------------------------------------------------------------------- C07
PROPERTY(C07, sign, 70) {
  SignKit k = gen_kit(s, 0, "pledge", 25);
  VModel want;
  want.assertion = VOUCHER_ASSERTION_PROXIMITY;
  want.has_serial = true;
  want.serial = ser(s);
  want.has_time[T_CREATED] = true;
  want.time[T_CREATED] = gen_tm(s);
  if ((want.has_arr[A_NONCE] = s.chance(70)))
    want.arr[A_NONCE] = gen_nonempty(s, 80);
  want.has_arr[A_PROX] = true;
  want.arr[A_PROX] = s.chance(80) ? tls_cert(s, 2).der : gen_nonempty(s, 2000);
  int fault = s.chance(20) ? 1 + (int)s.below(5) : 0;
  c.note("serial %s nonce %d signer %s fault %d extra %zu", pbt::quote(want.serial, 60).c_str(),
         (int)want.has_arr[A_NONCE], k.what, fault, k.extra.size());
  c.label(fault ? "null" + std::to_string(fault) : k.usable ? "good" : k.what);
  c.nontrivial();
  struct tm t = want.time[T_CREATED];
  bool ok;
  Bytes m;
  {
    BA nonce(want.arr[A_NONCE]), prox(want.arr[A_PROX]), ce(k.cert_b), ke(k.key_b);
    List ex(k.extra, s.flip());
    m = take_opt(sign_pledge_voucher_request(
                     fault == 1 ? nullptr : &t, fault == 2 ? nullptr : want.serial.c_str(),
                     want.has_arr[A_NONCE] ? (struct BinaryArray *)nonce : nullptr,
                     fault == 3 ? nullptr : (struct BinaryArray *)prox,
                     fault == 4 ? nullptr : (struct BinaryArray *)ce,
                     fault == 5 ? nullptr : (struct BinaryArray *)ke, ex),
                 ok);
  }
  if (fault || !k.usable) {
    REQUIRE(!ok, "bad-accepted", "a request was made without %s",
            fault ? "a mandatory input" : k.what);
    return;
  }
  REQUIRE(ok, "refused", "no request was made");
  check_out(c, m, want, k.cert.der, k.extra);
  // the library reads back what it wrote
  BA mb(m);
  struct BinaryArrayList *out = nullptr;
  struct Voucher *v = verify_cms_voucher(mb, nullptr, nullptr, &out);
  REQUIRE(v != nullptr, "readback-refused", "the request does not verify");
  std::string d = vdiff(v, want);
  free_voucher(v);
  std::vector<Bytes> sg = list_bytes(out);
  free_array_list(out);
  REQUIRE(d.empty(), "readback", "%s", d.c_str());
  REQUIRE(sg == std::vector<Bytes>{k.cert.der}, "readback-signer", "another signer reported");
}

// ------------------------------------------------------------------- C08
PROPERTY(C08, decide, 100) {
  std::string serial = ser(s);
  Cert reg = tls_cert(s, 4);
  Bytes issuer = gen_nonempty(s, 90);
  VModel m;
  m.assertion = VOUCHER_ASSERTION_PROXIMITY;
  m.has_serial = true;
  m.serial = serial;
  m.has_arr[A_PROX] = true;
  m.arr[A_PROX] = reg.der;
  if ((m.has_arr[A_NONCE] = s.chance(65)))
    m.arr[A_NONCE] = gen_nonempty(s, 60);
  if ((m.has_time[T_CREATED] = s.chance(80)))
    m.time[T_CREATED] = gen_tm(s);
  if (s.chance(10)) { // attributes that do not matter
    m.has_time[T_EXPIRES] = true, m.time[T_EXPIRES] = gen_tm(s);
    m.drc = s.flip();
    if (s.flip())
      m.has_arr[A_IDEVID] = true, m.arr[A_IDEVID] = gen_nonempty(s, 30);
    if (s.flip())
      m.has_arr[A_PRIOR] = true, m.arr[A_PRIOR] = gen_nonempty(s, 30);
  }
  std::string why;
  bool ok_fields = true;
  int pert = s.chance(45) ? 1 + (int)s.below(7) : 0;
  if (s.chance(3))
    pert = 8;
  switch (pert) {
  case 1: m.has_serial = false, m.serial.clear(), why = "no-serial"; break;
  case 2: m.serial = near_serial(s, serial), why = "other-serial"; break;
  case 3: m.has_arr[A_PROX] = false, m.arr[A_PROX].clear(), why = "no-proximity-cert"; break;
  case 4: m.arr[A_PROX] = near_bytes(s, reg.der), why = "near-proximity-cert"; break;
  case 5: m.arr[A_PROX] = tls_cert(s, 5).der, why = "other-proximity-cert"; break;
  case 6: m.assertion = 0, why = "no-assertion"; break;
  case 7: m.assertion = s.flip() ? VOUCHER_ASSERTION_VERIFIED : VOUCHER_ASSERTION_LOGGED, why = "other-assertion"; break;
  case 8: // nothing but the bare minimum of the parser
    m = VModel(), why = "empty";
  }
  ok_fields = m.has_serial && m.serial == serial && m.assertion == VOUCHER_ASSERTION_PROXIMITY &&
              m.has_arr[A_PROX] && m.arr[A_PROX] == reg.der;
  PledgeReq p = gen_pledge(s, m, 6, "pl", pert ? 6 : 18);
  SignKit k = gen_kit(s, 1, "registrar", pert ? 3 : 10);
  int fault = s.chance(7) ? 1 + (int)s.below(7) : 0;
  VModel want;
  want.has_time[T_CREATED] = true;
  want.time[T_CREATED] = gen_tm(s);
  want.has_serial = true;
  want.serial = serial;
  want.has_arr[A_NONCE] = m.has_arr[A_NONCE], want.arr[A_NONCE] = m.arr[A_NONCE];
  want.has_arr[A_IDEVID] = true, want.arr[A_IDEVID] = issuer;
  want.has_arr[A_PRIOR] = true, want.arr[A_PRIOR] = p.cms;
  bool accept = ok_fields && p.verifies && p.parses && k.usable && !fault;
  c.note("%s trust %s verifies %d parses %d signer %s fault %d: %s", why.c_str(), p.t.what,
         (int)p.verifies, (int)p.parses, k.what, fault, pbt::quote(p.json, 300).c_str());
  c.label(accept ? "accept" : "refuse");
  if (!why.empty())
    c.label(why);
  c.label(std::string("trust-") + p.t.what);
  c.nontrivial();
  struct tm t = want.time[T_CREATED];
  bool ok;
  Bytes out;
  {
    BA cms(p.cms), iss(issuer), tls(reg.der), ce(k.cert_b), ke(k.key_b);
    List ex(k.extra, s.flip());
    out = take_opt(
        sign_voucher_request(fault == 1 ? nullptr : (struct BinaryArray *)cms,
                             fault == 2 ? nullptr : &t, fault == 3 ? nullptr : serial.c_str(),
                             fault == 4 ? nullptr : (struct BinaryArray *)iss,
                             fault == 5 ? nullptr : (struct BinaryArray *)tls,
                             fault == 6 ? nullptr : (struct BinaryArray *)ce,
                             fault == 7 ? nullptr : (struct BinaryArray *)ke, p.t.cl(), p.t.sl(), ex),
        ok);
  }
  REQUIRE(ok == accept, ok ? "bad-accepted" : "good-refused", "%s (%s, trust %s, parses %d, signer %s, fault %d)",
          ok ? "a request was produced" : "nothing was produced", why.c_str(), p.t.what, (int)p.parses, k.what, fault);
  if (ok)
    check_out(c, out, want, k.cert.der, k.extra);
}

// ------------------------------------------------------------------- C09
// attributes which a decision does not depend on
static void gen_spare(Src &s, VModel &m, std::initializer_list<int> arrs) {
  for (int i : {T_CREATED, T_EXPIRES, T_RENEWAL})
    if (s.chance(35))
      m.has_time[i] = true, m.time[i] = gen_tm(s);
    else if (s.chance(20))
      m.has_time[i] = false, m.time[i] = {};
  m.drc = s.flip();
  if (s.chance(40))
    m.assertion = (int)s.below(4);
  for (int i : arrs)
    if (s.chance(35))
      m.has_arr[i] = true, m.arr[i] = gen_nonempty(s, 60);
    else if (s.chance(20))
      m.has_arr[i] = false, m.arr[i].clear();
}
struct CbRec {
  int calls = 0;
  std::string serial;
  std::vector<Bytes> certs;
  Bytes pinned;
  bool fail = false, half = false;
};
static int pin_cb(const char *serial, const struct BinaryArrayList *certs, void *ctx,
                  struct BinaryArray *out) {
  CbRec *r = (CbRec *)ctx;
  r->calls++;
  r->serial = serial ? serial : "(null)";
  r->certs = list_bytes(certs);
  if (r->fail)
    return -1;
  BA b(r->pinned);
  return copy_binary_array(out, b);
}
PROPERTY(C09, decide, 100) {
  std::string serial = ser(s);
  Bytes nonce = gen_nonempty(s, 60);
  VModel pm;
  pm.assertion = VOUCHER_ASSERTION_PROXIMITY;
  pm.has_serial = true, pm.serial = serial;
  pm.has_arr[A_PROX] = true, pm.arr[A_PROX] = tls_cert(s, 4).der;
  pm.has_time[T_CREATED] = true, pm.time[T_CREATED] = gen_tm(s);
  int nk = (int)s.weighted({70, 25, 5}); // both, none, registrar only
  if (nk == 0)
    pm.has_arr[A_NONCE] = true, pm.arr[A_NONCE] = nonce;
  VModel rm;
  rm.has_time[T_CREATED] = true, rm.time[T_CREATED] = gen_tm(s);
  rm.has_serial = true, rm.serial = serial;
  rm.has_arr[A_IDEVID] = true, rm.arr[A_IDEVID] = gen_nonempty(s, 50);
  if (nk != 1)
    rm.has_arr[A_NONCE] = true, rm.arr[A_NONCE] = nonce;
  bool spare_p = s.chance(12), spare_r = s.chance(12);
  if (spare_p)
    gen_spare(s, pm, {A_IDEVID, A_PINNED, A_PRIOR, A_PROX});
  if (spare_r)
    gen_spare(s, rm, {A_IDEVID, A_PINNED, A_PROX});
  std::string why;
  int pert = s.chance(50) ? 1 + (int)s.below(9) : 0;
  switch (pert) {
  case 1: pm.has_serial = false, pm.serial.clear(), why = "pledge-no-serial"; break;
  case 2: rm.has_serial = false, rm.serial.clear(), why = "registrar-no-serial"; break;
  case 3: pm.serial = near_serial(s, serial), why = "pledge-other-serial"; break;
  case 4: rm.serial = near_serial(s, serial), why = "registrar-other-serial"; break;
  case 5: if (nk == 0) pm.arr[A_NONCE] = near_bytes(s, nonce), why = "pledge-other-nonce"; break;
  case 6: if (nk == 0) rm.arr[A_NONCE] = near_bytes(s, nonce), why = "registrar-other-nonce"; break;
  case 7: if (nk == 0) rm.has_arr[A_NONCE] = false, rm.arr[A_NONCE].clear(), why = "registrar-no-nonce"; break;
  case 8: why = "no-prior"; break;
  case 9: rm.has_serial = pm.has_serial = false, rm.serial.clear(), pm.serial.clear(), why = "no-serials"; break;
  }
  int bad = pert ? 5 : 14;
  PledgeReq p = gen_pledge(s, pm, 6, "pl", bad);
  if (pert != 8)
    rm.has_arr[A_PRIOR] = true, rm.arr[A_PRIOR] = p.cms;
  PledgeReq r = gen_pledge(s, rm, 9, "rg", bad);
  SignKit k = gen_kit(s, 1, "masa", pert ? 3 : 8);
  CbRec cb;
  cb.pinned = s.chance(80) ? tls_cert(s, 3).der : gen_nonempty(s, 500);
  cb.fail = s.chance(6);
  int fault = s.chance(6) ? 1 + (int)s.below(5) : 0;
  bool fields = pm.has_serial && rm.has_serial && pm.serial == rm.serial && rm.has_arr[A_PRIOR] &&
                (!pm.has_arr[A_NONCE] || (rm.has_arr[A_NONCE] && rm.arr[A_NONCE] == pm.arr[A_NONCE]));
  bool accept = fields && p.verifies && p.parses && r.verifies && r.parses && k.usable && !cb.fail && !fault;
  c.note("%s nonce %d pledge: %s/%d/%d registrar: %s/%d/%d signer %s cb %d fault %d", why.c_str(), nk,
         p.t.what, (int)p.verifies, (int)p.parses, r.t.what, (int)r.verifies, (int)r.parses, k.what,
         (int)!cb.fail, fault);
  c.label(accept ? "accept" : "refuse");
  if (!why.empty())
    c.label(why);
  c.nontrivial();
  struct tm exp = gen_tm(s), t = exp;
  bool ok;
  Bytes out;
  {
    BA cms(r.cms), ce(k.cert_b), ke(k.key_b);
    List ex(k.extra, s.flip());
    out = take_opt(sign_masa_pledge_voucher(
                       fault == 1 ? nullptr : (struct BinaryArray *)cms, fault == 2 ? nullptr : &t,
                       fault == 3 ? nullptr : pin_cb, &cb, fault == 4 ? nullptr : (struct BinaryArray *)ce,
                       fault == 5 ? nullptr : (struct BinaryArray *)ke, r.t.cl(), r.t.sl(), p.t.cl(),
                       p.t.sl(), ex),
                   ok);
  }
  if (nk == 2 && ok != accept)
    return; // a nonce only the registrar states: either way, without a fault
  REQUIRE(ok == accept, ok ? "bad-accepted" : "good-refused",
          "%s (%s; pledge %s parses %d; registrar %s parses %d; signer %s; fault %d)",
          ok ? "a voucher was issued" : "no voucher was issued", why.c_str(), p.t.what, (int)p.parses,
          r.t.what, (int)r.parses, k.what, fault);
  if (cb.calls && fields) {
    REQUIRE(cb.serial == pm.serial, "cb-serial", "the pin was chosen for serial %s",
            pbt::quote(cb.serial).c_str());
    REQUIRE(cb.certs == std::vector<Bytes>{r.ch.leaf.der}, "cb-registrar",
            "the pin was chosen for another registrar (%zu certificates)", cb.certs.size());
  }
  if (!ok)
    return;
  REQUIRE(cb.calls == 1, "cb-calls", "the pin was chosen %d times", cb.calls);
  VModel want;
  want.assertion = VOUCHER_ASSERTION_PROXIMITY;
  want.has_serial = true, want.serial = serial;
  want.has_arr[A_NONCE] = rm.has_arr[A_NONCE], want.arr[A_NONCE] = rm.arr[A_NONCE];
  want.has_arr[A_PINNED] = true, want.arr[A_PINNED] = cb.pinned;
  want.has_time[T_EXPIRES] = true, want.time[T_EXPIRES] = exp;
  if (nk == 2) { // the nonce of the registrar alone: carried or left out
    CmsInfo info = cms_info(out);
    VModel g;
    if (vmodel_from_json(S(info.content), g, nullptr) && !g.has_arr[A_NONCE])
      want.has_arr[A_NONCE] = false, want.arr[A_NONCE].clear();
  }
  check_out(c, out, want, k.cert.der, k.extra);
}

// ------------------------------------------------------------------- C10
PROPERTY(C10, decide, 100) {
  std::string serial = ser(s);
  Bytes nonce = gen_nonempty(s, 60);
  // the registrar's TLS certificate and the certificate the voucher pins
  std::string rel;
  bool auth = true;
  Cert reg, pin, root;
  Bytes pinb;
  CertSpec rp;
  rp.subject = dn("domain-root");
  rp.ca = 1;
  rp.skid = s.flip();
  rp.serial = few_serial(s, 7);
  // keys of different kinds meet where names are alike
  const Key &root_key = s.chance(8) ? rsa(2) : ec(8), &pin_key = s.chance(12) ? rsa(0) : ec(9),
            &other_key = s.chance(30) ? rsa(1) : s.chance(12) ? p384() : ec(10);
  root = make_cert(rp, root_key);
  CertSpec pp;
  pp.subject = dn("domain-ca");
  pp.ca = s.chance(80) ? 1 : -1;
  pp.serial = few_serial(s, 5);
  pp.skid = s.flip();
  pp.akid = s.flip();
  bool pin_self = s.flip();
  pin = pin_self ? make_cert(pp, pin_key) : make_cert(pp, pin_key, &root);
  // whether a chain through the pinned certificate to the root exists
  bool to_root = !pin_self;
  reg = tls_cert(s, 4, &pin);
  pinb = pin.der;
  int rk = s.chance(55) ? (int)s.below(2) : 2 + (int)s.below(7);
  switch (rk) {
  case 0: rel = "issuer"; break;
  case 1:
    rel = "identical";
    reg = tls_cert(s, 4, pin_self ? nullptr : &root);
    pin = reg;
    pinb = reg.der;
    break;
  case 2: rel = "unrelated", auth = false, pinb = unrelated(s, 1).der; break;
  case 3: { // same names, another key
    rel = "namesake", auth = false;
    pinb = (pin_self ? make_cert(pp, other_key) : make_cert(pp, other_key, &root)).der;
    break;
  }
  case 4: rel = "garbage", auth = false, pinb = s.flip() ? gen_nonempty(s, 300) : Bytes(pinb.begin(), pinb.begin() + (long)(1 + s.below(pinb.size() - 1))); break;
  case 5: rel = "none", auth = false, pinb.clear(); break;
  case 6: { // the voucher pins the issuer of the issuer
    rel = "grandparent", auth = false;
    if (pin_self)
      pin = make_cert(pp, pin_key, &root), reg = tls_cert(s, 4, &pin);
    pinb = root.der;
    break;
  }
  case 7: { // signed by the pinned certificate's subject: the roles swapped
    rel = "child", auth = false;
    Cert child = tls_cert(s, 10, &reg);
    pinb = child.der;
    break;
  }
  default: { // another certificate of the same registrar name and key id
    rel = "sibling", auth = false;
    CertSpec sp;
    sp.subject = dn("tls-4", "r1");
    sp.serial = few_serial(s, 3);
    pinb = make_cert(sp, other_key).der;
  }
  }
  VModel m;
  m.assertion = s.chance(80) ? VOUCHER_ASSERTION_PROXIMITY : (int)s.below(4);
  m.has_serial = true, m.serial = serial;
  m.has_arr[A_PINNED] = !pinb.empty(), m.arr[A_PINNED] = pinb;
  m.has_time[T_EXPIRES] = s.chance(80);
  m.time[T_EXPIRES] = gen_tm(s);
  m.drc = s.chance(10);
  int nk = (int)s.weighted({60, 22, 18}); // both, neither, the voucher only
  bool send = nk == 0;
  if (nk != 1)
    m.has_arr[A_NONCE] = true, m.arr[A_NONCE] = nonce;
  std::string why;
  int pert = auth && s.chance(35) ? 1 + (int)s.below(4) : 0;
  switch (pert) {
  case 1: m.has_serial = false, m.serial.clear(), why = "no-serial"; break;
  case 2: m.serial = near_serial(s, serial), why = "other-serial"; break;
  case 3: if (send) m.arr[A_NONCE] = near_bytes(s, nonce), why = "other-nonce"; break;
  case 4: if (send) m.has_arr[A_NONCE] = false, m.arr[A_NONCE].clear(), why = "no-nonce"; break;
  }
  PledgeReq p = gen_pledge(s, m, 0, "ma", pert || !auth ? 4 : 20);
  // a domain store: the pinned certificate has to lead to it as well
  Store ds;
  bool has_ds = s.chance(25), ds_ok = true;
  std::string dsw = "none";
  if (has_ds) {
    if (to_root && (rel == "issuer" || rel == "identical") && (rel == "identical" || pp.ca == 1) && s.chance(60)) {
      ds.push_back({root.der, 0}), dsw = "root";
      if (s.flip())
        ds.push_back({unrelated(s, 3).der, 0});
      shuffle(s, ds);
    } else if (s.chance(25)) {
      ds_ok = false, dsw = "empty"; // nothing to lead to
    } else {
      ds.push_back({unrelated(s, 3).der, 0}), ds_ok = false, dsw = "other";
      if (s.chance(40))
        ds.push_back({unrelated(s, 2).der, 0});
    }
  }
  int fault = s.chance(5) ? 1 + (int)s.below(3) : 0;
  Bytes regb = reg.der;
  bool reg_ok = true;
  if (s.chance(4))
    regb = s.flip() ? Bytes(regb.begin(), regb.begin() + (long)(1 + s.below(regb.size() - 1))) : gen_nonempty(s, 100), reg_ok = false;
  bool fields = m.has_serial && m.serial == serial &&
                (!send || (m.has_arr[A_NONCE] && m.arr[A_NONCE] == nonce));
  bool accept = fields && auth && reg_ok && p.verifies && p.parses && ds_ok && !fault;
  c.note("%s pin %s trust %s parses %d domain store %s fault %d nonce %d: %s", why.c_str(), rel.c_str(),
         p.t.what, (int)p.parses, dsw.c_str(), fault, nk, pbt::quote(p.json, 200).c_str());
  c.label(accept ? "accept" : "refuse");
  c.label("pin-" + rel);
  if (!why.empty())
    c.label(why);
  if (has_ds)
    c.label("domain-store-" + dsw);
  c.nontrivial();
  struct BinaryArray pinned = {};
  struct BinaryArrayList *outc = nullptr;
  bool want_out = s.flip();
  int rc;
  {
    BA cms(p.cms), nb(nonce), rb(regb);
    List dl(ds);
    rc = verify_masa_pledge_voucher(fault == 1 ? nullptr : (struct BinaryArray *)cms,
                                    fault == 2 ? nullptr : serial.c_str(),
                                    send ? (struct BinaryArray *)nb : nullptr,
                                    fault == 3 ? nullptr : (struct BinaryArray *)rb,
                                    has_ds ? dl.l : nullptr, p.t.cl(), p.t.sl(),
                                    want_out ? &outc : nullptr, &pinned);
  }
  Bytes got = bytes(&pinned);
  bool empty = pinned.array == nullptr && pinned.length == 0;
  if (rc == 0)
    free_binary_array_content(&pinned);
  std::vector<Bytes> sg = list_bytes(outc);
  free_array_list(outc);
  REQUIRE((rc == 0) == accept, rc == 0 ? "bad-accepted" : "good-refused",
          "returned %d (%s; pin %s; trust %s parses %d; domain store %s; fault %d; registrar cert ok %d)", rc,
          why.c_str(), rel.c_str(), p.t.what, (int)p.parses, dsw.c_str(), fault, (int)reg_ok);
  if (rc != 0) {
    REQUIRE(empty, "pin-on-failure", "a refused voucher hands out %zu bytes", got.size());
    return;
  }
  REQUIRE(got == pinb, "pin-differs", "another certificate than the pinned one is handed out");
  if (want_out)
    REQUIRE(sg == std::vector<Bytes>{p.ch.leaf.der}, "signer", "another signer is reported");
}

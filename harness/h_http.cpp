// C15 registrar answers, C16 MASA answers, C17 bootstrapping, C18 enrolment:
// the real handlers, servers and pledge flow over the stand-in transport.
#include "harness/estate.hpp"
#include "brski/pledge/pledge_request.hpp"
#include <sys/stat.h>
using namespace estate;

static struct tm clock_tm() { return tm_from(pbt::clock_get()); }

// --------------------------------------------------- a pledge's request
struct Preq {
  VModel m;
  bool fields = true, parses = true, verifies = true;
  Bytes cms;
  std::string why = "good";
  bool ok(const std::string &sn) const { // asked for by the device sn
    return fields && parses && verifies && m.has_serial && m.serial == sn;
  }
};
static Preq gen_preq(Src &s, const Estate &e, int bad_pct) {
  Preq p;
  p.m = e.pledge_model(gen_tm(s));
  if (s.chance(15))
    p.m.has_time[T_CREATED] = false;
  int pert = s.chance(bad_pct) ? 1 + (int)s.below(10) : 0;
  switch (pert) {
  case 1: p.m.has_serial = false, p.m.serial.clear(), p.why = "no-serial"; break;
  case 2: p.m.serial = near_serial(s, e.serial), p.why = "other-serial"; break;
  case 3: p.m.has_arr[A_PROX] = false, p.m.arr[A_PROX].clear(), p.why = "no-proximity-cert"; break;
  case 4: p.m.arr[A_PROX] = near_bytes(s, e.reg_tls.der), p.why = "near-proximity-cert"; break;
  case 5: p.m.arr[A_PROX] = unrelated(s, 1).der, p.why = "other-proximity-cert"; break;
  case 6: p.m.assertion = s.flip() ? 0 : VOUCHER_ASSERTION_LOGGED, p.why = "assertion"; break;
  }
  p.fields = p.m.assertion == VOUCHER_ASSERTION_PROXIMITY && p.m.has_arr[A_PROX] &&
             p.m.arr[A_PROX] == e.reg_tls.der;
  std::string j = vmodel_json(p.m);
  if (pert == 7)
    p.parses = false, j = broken_json(s, j), p.why = "broken-document";
  p.cms = e.sign(e.pl, j);
  p.verifies = e.pl.trusted;
  if (!p.verifies)
    p.why += "+untrusted";
  if (pert == 8 && tamper(s, p.cms, j))
    p.verifies = false, p.why = "tampered";
  if (pert == 9)
    p.verifies = false, p.cms = s.bytes(1 + s.below(400)), p.why = "garbage";
  if (pert == 10)
    p.verifies = false, p.cms.resize(1 + s.below(p.cms.size() - 1)), p.why = "truncated";
  return p;
}
static std::string junk_text(Src &s) {
  switch (s.below(4)) {
  case 0: return "";
  case 1: return "!!!! not base64 ----";
  case 2: return s.str("ABCDabcd0123+/=\n ", 1 + s.size(100));
  default: return b64(s.bytes(1 + s.below(300)));
  }
}
static bool signed_voucher(const std::string &body) {
  Bytes d;
  if (!b64d(body, d))
    return false;
  CmsInfo i = cms_info(d);
  return i.ok;
}
// files that can be broken and restored
struct Faults {
  std::map<std::string, Bytes> kept;
  std::string brk(Src &s, const std::string &path) {
    if (!kept.count(path)) {
      Bytes b;
      read_file(path, b);
      kept[path] = b;
    }
    return break_file(s, path);
  }
  void restore() {
    for (auto &k : kept)
      write_file(k.first, k.second);
    kept.clear();
  }
};
static std::string first_path(const BinaryArrayList *l, Src &s) {
  auto v = items(l);
  if (v.empty())
    return "";
  const Bytes &b = v[s.below(v.size())].first;
  return std::string(b.begin(), b.end() - 1);
}
// a device certificate naming sn, and tempting texts at other places
static Cert device_cert(Src &s, const Estate &e, std::string sn) {
  auto fit = [](std::string t) {
    for (auto &ch : t)
      if (ch < 32)
        ch = '-';
    if (t.size() > 64)
      t.resize(64);
    return t;
  };
  sn = fit(sn);
  std::string tempting = fit(e.serial);
  CertSpec p;
  p.subject = dn(s.chance(15) && !tempting.empty() ? tempting : "device", sn);
  if (!sn.empty() && s.chance(15)) // the first one counts
    p.subject.push_back({"serialNumber", tempting.empty() ? "other" : tempting});
  if (s.chance(40))
    p.issuer = dn("maker", s.chance(75) ? tempting : "M-1");
  p.serial = few_serial(s, 2);
  return make_cert(p, ec(0));
}
struct NetGuard {
  NetGuard() { net::reset(); }
  ~NetGuard() { net::reset(); }
};

// ------------------------------------------------------------------- C15
PROPERTY(C15, voucher, 85) {
  NetGuard ng;
  Estate e;
  Opt o;
  o.bad_pct = 8;
  gen_estate(e, s, o);
  Preq p = gen_preq(s, e, 30);
  // the identity of the TLS client
  Bytes peer = e.idevid.der;
  bool peer_ok = true;
  std::string peer_sn = e.serial;
  std::string pw = "idevid";
  if (s.chance(20))
    switch (s.below(6)) {
    case 2: { // the pledge's serial number, cut off by some readers
      CertSpec q;
      q.subject = {{"CN", "device"}, {"serialNumber", e.serial + std::string("\0", 1) + s.str("x1", s.below(4))}};
      q.stypes = {0, NAME_RAW};
      q.serial = few_serial(s, 2);
      peer = make_cert(q, ec(0)).der, peer_ok = false, pw = "nul-serial";
      break;
    }
    case 0: peer.clear(), peer_ok = false, pw = "no-cert"; break;
    case 1: peer = device_cert(s, e, "").der, peer_ok = false, pw = "no-serial"; break;
    default:
      bool same = s.chance(40);
      peer = device_cert(s, e, same ? e.serial : near_serial(s, e.serial)).der;
      pw = same ? "same-serial" : "other-serial";
      auto x = parse_cert(peer);
      auto names = get_name(X509_get_subject_name(x.get()));
      for (auto kv = names.rbegin(); kv != names.rend(); ++kv)
        if (kv->first == "serialNumber")
          peer_sn = kv->second;
    }
  std::string body = wrap64(s, p.cms), bw = "base64";
  bool body_ok = true;
  if (s.chance(8))
    body = junk_text(s), body_ok = false, bw = "junk";
  // the registrar's files
  Faults f;
  std::string fw = "none";
  bool file_ok = true;
  if (s.chance(18)) {
    std::string path;
    switch (s.below(7)) {
    case 0: path = e.rc.tls_cert_path, fw = "tls-cert"; break;
    case 1: path = e.rc.cms_sign_cert_path, fw = "cms-cert"; break;
    case 2: path = e.rc.cms_sign_key_path, fw = "cms-key"; break;
    case 3: path = first_path(e.rc.cms_verify_certs_paths, s), fw = "verify-certs"; break;
    case 4: path = first_path(e.rc.cms_verify_store_paths, s), fw = "verify-store"; break;
    case 5: path = first_path(e.rc.cms_add_certs_paths, s), fw = "add-certs"; break;
    default: path = e.rc.tls_ca_key_path, fw = "unused-file";
    }
    if (path.empty())
      fw = "none";
    else {
      std::string how = f.brk(s, path);
      if (fw != "unused-file")
        file_ok = false, fw += "-" + how;
    }
  }
  // the manufacturer service
  int mk = (int)s.weighted({35, 30, 12, 15, 8});
  std::string mw;
  int mstatus = 200;
  std::string mbody;
  MasaContext *mctx = nullptr;
  std::string got_body, got_ctype;
  Bytes got_peer;
  int got_calls = 0;
  if (mk == 0) { // the real one
    REQUIRE(masa_start(&e.rc, &e.mc, &e.pc, &mctx) == 0, "masa-start", "the MASA does not start");
    mw = "masa";
  } else if (mk == 4) {
    mw = "down";
  } else {
    mw = mk == 1 ? "issues" : mk == 2 ? "drops" : "refuses";
    if (mk == 1) {
      mstatus = s.pick<int>({200, 200, 200, 201, 202, 206, 299});
      mbody = s.flip() ? b64(gen_nonempty(s, 300)) : S(gen_nonempty(s, 300));
    } else {
      mstatus = s.pick<int>({300, 301, 302, 304, 308, 400, 401, 403, 404, 406, 413, 500, 502, 503, 505, 599});
      mbody = s.chance(20) ? "" : b64(gen_nonempty(s, 200));
    }
    auto sv = new net::Server();
    sv->host = e.mc.bind_address, sv->port = (int)e.mc.port;
    sv->cert_path = e.mc.tls_cert_path, sv->key_path = e.mc.tls_key_path;
    sv->routes.push_back({PATH_BRSKI_REQUESTVOUCHER, HTTP_METHOD_POST,
                          [&](const RequestHeader &, const std::string &b, CRYPTO_CERT pc,
                              ResponseHeader &, std::string &r, void *) {
                            got_calls++;
                            got_body = b;
                            unsigned char *o = nullptr;
                            int n = i2d_X509((X509 *)pc, &o);
                            got_peer.assign(o, o + n);
                            OPENSSL_free(o);
                            r = mbody;
                            return mstatus;
                          }});
    net::servers.push_back(sv);
    if (mk == 2)
      net::on_response = [](net::Call &cl) { cl.status = -1; };
  }
  bool req_ok = peer_ok && body_ok && p.ok(peer_sn);
  bool forwards = req_ok && file_ok;
  // with the real MASA: it also has to trust the registrar and its own signer
  bool masa_issues = mk == 0 ? e.rg.trusted && e.pl.trusted : mk == 1;
  c.note("peer %s body %s request %s files %s masa %s status %d body %s", pw.c_str(), bw.c_str(),
         p.why.c_str(), fw.c_str(), mw.c_str(), mstatus, pbt::quote(mbody, 80).c_str());
  c.label(forwards ? masa_issues ? "issued" : "masa-fails" : file_ok ? "bad-request" : req_ok ? "bad-files" : "bad-both");
  c.label("masa-" + mw);
  c.label("peer-" + pw);
  if (!p.ok(e.serial))
    c.label("request-" + p.why);
  if (!file_ok)
    c.label("file-" + fw);
  c.nontrivial();
  struct stat lst;
  Answer a = ask(registrar_requestvoucher, body, peer, &e.rctx);
  f.restore();
  auto calls = net::calls;
  if (mctx)
    masa_stop(mctx);
  c.note("answer %d %s %s", a.status, a.ctype.c_str(), pbt::quote(a.body, 80).c_str());
  REQUIRE(stat(e.log_path().c_str(), &lst) != 0, "log", "a voucher request wrote to the audit log");
  // what was sent to the manufacturer
  REQUIRE(calls.size() == (forwards ? 1u : 0u), forwards ? "not-forwarded" : "forwarded",
          "%zu requests were sent to the manufacturer", calls.size());
  if (forwards) {
    auto &cl = calls[0];
    REQUIRE(cl.host == e.mc.bind_address && cl.port == (int)e.mc.port &&
                cl.path == "/.well-known/brski/requestvoucher",
            "forward-target", "sent to %s:%d%s", cl.host.c_str(), cl.port, cl.path.c_str());
    REQUIRE(cl.content_type == "application/voucher-cms+json", "forward-type", "%s", cl.content_type.c_str());
    REQUIRE(cl.cert_path == e.rc.tls_cert_path && cl.key_path == e.rc.tls_key_path, "forward-identity",
            "sent as %s", cl.cert_path.c_str());
    Bytes d;
    REQUIRE(b64d(cl.body, d), "forward-base64", "%s", pbt::quote(cl.body, 80).c_str());
    auto x = parse_cert(peer);
    Estate &ee = e;
    VModel w = ee.registrar_model(p.m, p.cms, clock_tm());
    if (peer != e.idevid.der) {
      w.serial = p.m.serial;
      w.arr[A_IDEVID] = ee.issuer_text(cert_from(peer));
    }
    check_out(c, d, w, e.rg.ch.leaf.der, e.rg.extra);
  }
  if (forwards && masa_issues) {
    REQUIRE(a.status == 200, "good-refused", "status %d: %s", a.status, pbt::quote(a.body, 100).c_str());
    REQUIRE(a.ctype == "application/voucher-cms+json", "content-type", "%s", a.ctype.c_str());
    REQUIRE(a.body == calls[0].response, "not-relayed", "the answer is %s",
            pbt::quote(a.body, 120).c_str());
    if (mk == 0) {
      Bytes d;
      REQUIRE(b64d(a.body, d), "voucher-base64", "%s", pbt::quote(a.body, 80).c_str());
      VModel w = e.voucher_model(e.registrar_model(p.m, p.cms, clock_tm()), e.domain.der);
      w.serial = p.m.serial;
      check_out(c, d, w, e.ma.ch.leaf.der, e.ma.extra);
    } else
      REQUIRE(a.body == mbody, "not-relayed", "the answer is %s", pbt::quote(a.body, 120).c_str());
    return;
  }
  REQUIRE(a.status >= 400 && a.status <= 599, "bad-accepted",
          "status %d (peer %s, body %s, request %s, files %s, masa %s %d)", a.status, pw.c_str(),
          bw.c_str(), p.why.c_str(), fw.c_str(), mw.c_str(), mstatus);
  if (!req_ok && file_ok)
    REQUIRE(a.status < 500, "status-class", "status %d for a bad request", a.status);
  if (req_ok) // files or manufacturer
    REQUIRE(a.status >= 500, "status-class", "status %d for a fault of the registrar or manufacturer",
            a.status);
  REQUIRE(!signed_voucher(a.body), "voucher-in-error", "a voucher in an error answer");
  if (mbody.size() >= 8)
    REQUIRE(a.body.find(mbody) == std::string::npos, "masa-body-in-error",
            "the refusing manufacturer's answer is passed on");
}
struct DocRoute {
  const char *path;
  enum HTTP_METHOD m;
  int status;
  const char *body;
};
static const DocRoute REG_DOC[] = {
    {"/.well-known/brski/voucher_status", HTTP_METHOD_POST, 200, "registrar_voucher_status"},
    {"/.well-known/brski/requestauditlog", HTTP_METHOD_POST, 200, "registrar_requestauditlog"},
    {"/.well-known/brski/enrollstatus", HTTP_METHOD_POST, 200, "registrar_enrollstatus"}};
static const DocRoute MASA_DOC[] = {
    {"/.well-known/brski/voucher_status", HTTP_METHOD_POST, 200, "masa_voucher_status"},
    {"/.well-known/brski/requestauditlog", HTTP_METHOD_POST, 200, "masa_requestauditlog"},
    {"/.well-known/brski/enrollstatus", HTTP_METHOD_POST, 200, "masa_enrollstatus"},
    {"/.well-known/est/cacerts", HTTP_METHOD_GET, 503, "get_est_cacerts"},
    {"/.well-known/est/simpleenroll", HTTP_METHOD_POST, 503, "post_est_simpleenroll"},
    {"/.well-known/est/simplereenroll", HTTP_METHOD_POST, 503, "post_est_simplereenroll"},
    {"/.well-known/est/fullcmc", HTTP_METHOD_POST, 503, "post_est_fullcmc"},
    {"/.well-known/est/serverkeygen", HTTP_METHOD_POST, 503, "post_est_serverkeygen"},
    {"/.well-known/est/csrattrs", HTTP_METHOD_GET, 503, "get_est_csrattrs"}};
static std::string any_body(Src &s) {
  switch (s.below(4)) {
  case 0: return "";
  case 1: return S(s.bytes(s.size(300)));
  case 2: return s.str("%sdn%p{}\"", s.size(60));
  default: return std::string(1 + s.size(3000), 'A');
  }
}
static Bytes any_peer(Src &s, const Estate &e) {
  switch (s.below(4)) {
  case 0: return {};
  case 1: return unrelated(s, 0).der;
  case 2: return e.masa_tls.der;
  default: return e.idevid.der;
  }
}
template <size_t N>
static void status_routes(Src &s, Ctx &c, Estate &e, net::Server *sv, const DocRoute (&doc)[N]) {
  int k = 1 + (int)s.below(4);
  for (int i = 0; i < k; i++) {
    const DocRoute &r = doc[s.below(N)];
    std::string body = any_body(s);
    Peer peer(any_peer(s, e));
    std::map<std::string, std::string> h;
    std::string resp;
    int st = net::request(sv, r.m, r.path, body, s.flip() ? "text/plain" : "x", peer.x, h, resp);
    c.note("%s -> %d %s", r.path, st, resp.c_str());
    REQUIRE(st == r.status && resp == r.body && h["Content-Type"] == "text/plain", "status-route",
            "%s answered %d %s %s", r.path, st, pbt::quote(resp).c_str(), h["Content-Type"].c_str());
    c.label(r.body);
  }
  c.nontrivial();
}
PROPERTY(C15, status_routes, 15) {
  NetGuard ng;
  Estate e;
  gen_estate(e, s, Opt());
  RegistrarContext *ctx = nullptr;
  REQUIRE(registrar_start(&e.rc, &e.mc, &ctx) == 0 && ctx, "start", "the registrar does not start");
  net::Server *sv = net::find(e.rc.bind_address, (int)e.rc.port);
  REQUIRE(sv != nullptr, "start", "the registrar does not listen where configured");
  REQUIRE(sv->cert_path == e.rc.tls_cert_path && sv->key_path == e.rc.tls_key_path, "identity",
          "the registrar serves with %s", sv->cert_path.c_str());
  status_routes(s, c, e, sv, REG_DOC);
  registrar_stop(ctx);
}

// ------------------------------------------------------------------- C16
PROPERTY(C16, history, 90) {
  NetGuard ng;
  Estate e;
  Opt o;
  o.bad_pct = 5;
  gen_estate(e, s, o);
  MasaContext *ctx = nullptr;
  REQUIRE(masa_start(&e.rc, &e.mc, &e.pc, &ctx) == 0 && ctx, "start", "the MASA does not start");
  net::Server *sv = net::find(e.mc.bind_address, (int)e.mc.port);
  REQUIRE(sv != nullptr, "start", "the MASA does not listen where configured");
  REQUIRE(sv->cert_path == e.mc.tls_cert_path && sv->key_path == e.mc.tls_key_path && sv->has_client_ca &&
              sv->client_ca == e.rc.tls_ca_cert_path,
          "identity", "the MASA serves with %s, clients of %s", sv->cert_path.c_str(), sv->client_ca.c_str());
  struct Old {
    std::string body;
    VModel rm;
    bool ok;
  };
  std::vector<Old> old;
  Faults f;
  int k = 2 + (int)s.below(5), issued = 0, refused = 0;
  for (int step = 0; step < k; step++) {
    // the configured files
    std::string fw = "ok";
    bool cfg_ok = true;
    f.restore();
    char *exp = e.mc.expires_on;
    Bytes pin = e.domain.der;
    if (s.chance(22)) {
      std::string path;
      switch (s.below(11)) {
      case 0: path = e.mc.ldevid_ca_cert_path, fw = "pin"; break;
      case 1: path = e.mc.cms_sign_cert_path, fw = "cms-cert"; break;
      case 2: path = e.mc.cms_sign_key_path, fw = "cms-key"; break;
      case 3: path = first_path(e.mc.cms_verify_certs_paths, s), fw = "masa-verify-certs"; break;
      case 4: path = first_path(e.mc.cms_verify_store_paths, s), fw = "masa-verify-store"; break;
      case 5: path = first_path(e.mc.cms_add_certs_paths, s), fw = "masa-add"; break;
      case 6: path = first_path(e.rc.cms_verify_certs_paths, s), fw = "registrar-verify-certs"; break;
      case 7: path = first_path(e.rc.cms_verify_store_paths, s), fw = "registrar-verify-store"; break;
      case 8:
        e.mc.expires_on = s.flip() ? nullptr : e.str(s.pick<std::string>({"", "2020", "2020-01-01T00:00:00", "x"}));
        fw = "expires-on", cfg_ok = false;
        break;
      case 9: { // the pinned certificate is exchanged
        pin = unrelated(s, 3).der;
        Bytes b;
        read_file(e.mc.ldevid_ca_cert_path, b);
        f.kept[e.mc.ldevid_ca_cert_path] = b;
        write_file(e.mc.ldevid_ca_cert_path, pem("CERTIFICATE", pin));
        fw = "other-pin";
        break;
      }
      default: path = e.mc.tls_ca_cert_path ? e.mc.tls_ca_cert_path : "", fw = "unused"; break;
      }
      if (!path.empty()) {
        cfg_ok = false;
        fw += "-" + f.brk(s, path);
      }
    }
    // the request
    std::string body, why = "good";
    VModel rm;
    bool req_ok = true;
    int kind = (int)s.weighted({55, 30, 10, 5});
    if (kind == 2 && old.empty())
      kind = 0;
    if (kind == 2) { // the same request once more
      auto &q = old[s.below(old.size())];
      body = q.body, rm = q.rm, why = "repeated";
      req_ok = q.ok;
    } else if (kind == 3) {
      body = junk_text(s), req_ok = false, why = "junk";
    } else {
      std::string sn = s.chance(50) ? e.serial : ser(s);
      VModel pm = e.pledge_model(gen_tm(s));
      pm.serial = sn;
      if (s.chance(30)) {
        pm.has_arr[A_NONCE] = s.flip();
        pm.arr[A_NONCE] = pm.has_arr[A_NONCE] ? gen_nonempty(s, 30) : Bytes();
      }
      rm = e.registrar_model(pm, {}, gen_tm(s));
      rm.serial = sn;
      int pert = kind == 1 ? 1 + (int)s.below(9) : 0;
      switch (pert) {
      case 1: pm.has_serial = false, pm.serial.clear(), why = "pledge-no-serial"; break;
      case 2: rm.has_serial = false, rm.serial.clear(), why = "registrar-no-serial"; break;
      case 3: pm.serial = near_serial(s, sn), why = "pledge-other-serial"; break;
      case 4: rm.serial = near_serial(s, sn), why = "registrar-other-serial"; break;
      case 5:
        if (pm.has_arr[A_NONCE])
          rm.arr[A_NONCE] = near_bytes(s, pm.arr[A_NONCE]), why = "other-nonce";
        break;
      }
      std::string pj = vmodel_json(pm);
      bool ver = e.pl.trusted && e.rg.trusted;
      Bytes pcms = e.sign(e.pl, pj);
      if (pert == 6 && tamper(s, pcms, pj))
        ver = false, why = "pledge-tampered";
      rm.arr[A_PRIOR] = pcms;
      if (pert == 7)
        rm.has_arr[A_PRIOR] = false, rm.arr[A_PRIOR].clear(), why = "no-prior";
      std::string rj = vmodel_json(rm);
      bool parses = true;
      if (pert == 8)
        rj = broken_json(s, rj), parses = false, why = "broken-document";
      Bytes rcms = e.sign(e.rg, rj);
      if (pert == 9 && tamper(s, rcms, rj))
        ver = false, why = "registrar-tampered";
      body = wrap64(s, rcms);
      req_ok = ver && parses && pm.has_serial && rm.has_serial && pm.serial == rm.serial && rm.has_arr[A_PRIOR] &&
               (!pm.has_arr[A_NONCE] || rm.arr[A_NONCE] == pm.arr[A_NONCE]);
      if (!ver && why == "good")
        why = "untrusted";
      old.push_back({body, rm, req_ok});
    }
    bool accept = req_ok && cfg_ok;
    Peer peer(s.chance(80) ? e.reg_tls.der : any_peer(s, e));
    std::map<std::string, std::string> h;
    std::string resp;
    int st;
    try {
      st = net::request(sv, HTTP_METHOD_POST, "/.well-known/brski/requestvoucher", body,
                        "application/voucher-cms+json", peer.x, h, resp);
    } catch (const std::exception &x) {
      st = 505;
      resp = x.what();
    }
    e.mc.expires_on = exp;
    c.note("step %d: %s, files %s: %d %s", step, why.c_str(), fw.c_str(), st, pbt::quote(resp, 60).c_str());
    c.label(accept ? "issued" : "refused");
    c.label(why);
    if (fw != "ok")
      c.label("files-" + fw);
    accept ? issued++ : refused++;
    REQUIRE(accept ? st == 200 : st >= 400 && st <= 599, accept ? "good-refused" : "bad-accepted",
            "step %d: status %d (%s, files %s)", step, st, why.c_str(), fw.c_str());
    if (!accept) {
      if (cfg_ok)
        REQUIRE(st < 500, "status-class", "step %d: status %d for a bad request", step, st);
      REQUIRE(!signed_voucher(resp), "voucher-in-error", "a voucher in an error answer");
      continue;
    }
    REQUIRE(h["Content-Type"] == "text/plain" || h["Content-Type"] == "application/voucher-cms+json",
            "content-type", "%s", h["Content-Type"].c_str());
    Bytes d;
    REQUIRE(b64d(resp, d), "voucher-base64", "%s", pbt::quote(resp, 80).c_str());
    VModel w = e.voucher_model(rm, pin);
    check_out(c, d, w, e.ma.ch.leaf.der, e.ma.extra);
  }
  f.restore();
  masa_stop(ctx);
  c.nontrivial(issued > 0 && refused > 0);
}
PROPERTY(C16, status_routes, 10) {
  NetGuard ng;
  Estate e;
  gen_estate(e, s, Opt());
  MasaContext *ctx = nullptr;
  REQUIRE(masa_start(&e.rc, &e.mc, &e.pc, &ctx) == 0 && ctx, "start", "the MASA does not start");
  net::Server *sv = net::find(e.mc.bind_address, (int)e.mc.port);
  REQUIRE(sv != nullptr, "start", "the MASA does not listen where configured");
  status_routes(s, c, e, sv, MASA_DOC);
  masa_stop(ctx);
}

// ------------------------------------------------------------------- C17
struct Attack {
  std::string what = "none";
  bool must_fail = false; // no bootstrap may end well
  bool neutral = true;    // the bootstrap must end well
};
// an attacker's certificate for the registrar's name
static Cert rogue_tls(Src &s) {
  CertSpec p;
  p.subject = dn("tls-4", s.flip() ? "r1" : "");
  p.serial = few_serial(s, 3);
  p.ca = s.flip() ? 1 : -1;
  return make_cert(p, ec(14));
}
static int call_index(const net::Call &c, const Estate &e) {
  // 0 certificate request, 1 pledge request, 2 registrar to MASA, 3 enrolment
  if (c.host == e.mc.bind_address && c.port == (int)e.mc.port)
    return 2;
  if (c.path == "/.well-known/est/simpleenroll")
    return 3;
  return c.body.empty() ? 0 : 1;
}
static Bytes key_of(const Bytes &cert) {
  auto x = parse_cert(cert);
  if (!x)
    return {};
  unsigned char *o = nullptr;
  int n = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x.get()), &o);
  Bytes b(o, o + (n > 0 ? n : 0));
  OPENSSL_free(o);
  return b;
}
static int count_lines(const std::string &path) {
  Bytes b;
  if (!read_file(path, b))
    return 0;
  return (int)std::count(b.begin(), b.end(), '\n');
}
PROPERTY(C17, bootstrap, 100) {
  NetGuard ng;
  Estate e;
  Opt o;
  o.bad_pct = s.chance(30) ? 25 : 0;
  gen_estate(e, s, o);
  Attack at;
  auto fatal = [&](const std::string &w) {
    at.what = at.what == "none" ? w : at.what + "+" + w;
    at.must_fail = true, at.neutral = false;
  };
  auto maybe = [&](const std::string &w) {
    at.what = at.what == "none" ? w : at.what + "+" + w;
    at.neutral = false;
  };
  if (!e.pl.trusted)
    fatal("pledge-untrusted");
  if (!e.rg.trusted)
    fatal("registrar-untrusted");
  if (!e.ma.trusted)
    fatal("masa-untrusted");
  RegistrarContext *rctx = nullptr;
  MasaContext *mctx = nullptr;
  struct Stop { // whatever is still running at the end
    RegistrarContext *&r;
    MasaContext *&m;
    void now() {
      registrar_stop(r);
      masa_stop(m);
      r = nullptr;
      m = nullptr;
    }
    ~Stop() { now(); }
  } stop{rctx, mctx};
  REQUIRE(masa_start(&e.rc, &e.mc, &e.pc, &mctx) == 0, "start", "the MASA does not start");
  REQUIRE(registrar_start(&e.rc, &e.mc, &rctx) == 0, "start", "the registrar does not start");
  snprintf(rctx->log_path, sizeof rctx->log_path, "%s", e.log_path().c_str());
  Faults f;
  bool enrol = s.chance(35);
  bool pinned_auth = e.ma.vstore.size() > 0; // the pledge knows its MASA
  // an inconsistent configuration
  if (s.chance(30))
    switch (s.below(12)) {
    case 0:
      e.pc.serial_number = e.str(near_serial(s, e.serial));
      if (e.pc.serial_number != e.serial)
        fatal("pledge-other-serial");
      break;
    case 1: // the MASA pins another domain
      write_file(e.mc.ldevid_ca_cert_path, pem("CERTIFICATE", unrelated(s, 3).der));
      fatal("other-pin");
      break;
    case 2: e.pc.nonce = e.str(s.flip() ? "!!!" : ""), fatal("nonce-malformed"); break;
    case 3: e.pc.created_on = e.str(bad_time(s)), fatal("created-on-malformed"); break;
    case 4: e.pc.serial_number = nullptr, fatal("no-serial"); break;
    case 5: e.rc.bind_address = nullptr, fatal("no-registrar"); break;
    case 6: e.pc.idevid_key_path = nullptr, fatal("no-idevid-key"); break;
    case 7: e.pc.idevid_cert_path = nullptr, fatal("no-idevid-cert"); break;
    case 8: {
      std::string p = s.pick<std::string>({e.pc.cms_sign_cert_path, e.pc.cms_sign_key_path, e.pc.idevid_cert_path});
      fatal("pledge-file-" + f.brk(s, p));
      break;
    }
    case 9: { // another domain's registrar: its TLS certificate is not under the pin
      e.rc.tls_cert_path = e.str(put_cert("rtls2.crt", rogue_tls(s).der));
      stop.now();
      e.rc.tls_key_path = e.str(put_key("rtls2.key", ec(14)));
      masa_start(&e.rc, &e.mc, &e.pc, &mctx);
      registrar_start(&e.rc, &e.mc, &rctx);
      snprintf(rctx->log_path, sizeof rctx->log_path, "%s", e.log_path().c_str());
      fatal("registrar-outside-domain");
      break;
    }
    case 10: {
      std::string p = first_path(s.flip() ? e.pc.cms_verify_certs_paths : e.pc.cms_verify_store_paths, s);
      if (!p.empty())
        fatal("pledge-trust-file-" + f.brk(s, p));
      break;
    }
    default: e.pc.created_on = e.str(iso(gen_tm(s))); // fine
    }
  // an earlier, recorded session
  std::string old_request, old_forward, old_voucher;
  bool replay = s.chance(25) && at.what == "none" && !e.nonce.empty();
  if (replay) {
    Bytes now = e.nonce, then;
    do
      then = gen_nonempty(s, 40);
    while (then == now);
    e.pc.nonce = e.str(b64(then));
    struct BinaryArray pin = {};
    int rc = post_voucher_pledge_request(&e.pc, &e.rc, &e.mc, &pin);
    REQUIRE(rc == 0 && bytes(&pin) == e.domain.der, "good-refused", "the first bootstrap returned %d", rc);
    free_binary_array_content(&pin);
    for (auto &cl : net::calls)
      switch (call_index(cl, e)) {
      case 1: old_request = cl.body, old_voucher = cl.response; break;
      case 2: old_forward = cl.body; break;
      }
    net::calls.clear();
    e.pc.nonce = e.str(b64(now));
  }
  // interference with the messages
  std::function<void(net::Call &)> rq[4], rs[4];
  bool drop[4] = {};
  auto then = [](std::function<void(net::Call &)> &f, std::function<void(net::Call &)> g) {
    auto first = f;
    f = [first, g](net::Call &c) {
      if (first)
        first(c);
      g(c);
    };
  };
  Cert rogue = rogue_tls(s);
  int n_att = s.chance(60) ? 1 + (int)s.below(2) : 0;
  if (at.must_fail && s.chance(70))
    n_att = 0;
  bool mitm_enrol = false;
  for (int i = 0; i < n_att; i++) {
    int where = (int)s.below(enrol ? 4 : 3);
    std::string W = std::to_string(where);
    switch (s.below(9)) {
    case 0:
      drop[where] = true, fatal("drop" + W);
      break;
    case 1: // the answer never arrives
      then(rs[where], [](net::Call &c) { c.status = -1; }), fatal("no-answer" + W);
      break;
    case 2: {
      int st = s.pick<int>({400, 401, 404, 500, 503});
      then(rs[where], [st](net::Call &c) { if (c.status >= 0) c.status = st; });
      where == 0 ? maybe("status0") : fatal("status" + W);
      break;
    }
    case 3: { // the answer is altered
      uint64_t seed = s.below(0);
      int how = (int)s.below(4);
      then(rs[where], [seed, how](net::Call &c) {
        Src q;
        q.seed(seed);
        if (how == 0)
          c.response.resize(q.below(c.response.size() + 1));
        else if (how == 1)
          c.response = S(q.bytes(1 + q.below(200)));
        else if (how == 2)
          c.response.clear();
        else if (!c.response.empty())
          c.response[q.below(c.response.size())] ^= (char)(1 << q.below(7));
      });
      // an altered answer to the enrolment is within the authenticated channel
      if (where == 3) {
        maybe("enrol-answer");
      } else if (where == 0)
        maybe("answer0");
      else if (how == 2)
        fatal("empty-answer" + W);
      else
        maybe("answer" + W);
      break;
    }
    case 4: { // the request is altered
      uint64_t seed = s.below(0);
      then(rq[where], [seed](net::Call &c) {
        Src q;
        q.seed(seed);
        if (c.body.empty())
          c.body = "AAAA";
        else if (q.flip())
          c.body[q.below(c.body.size())] ^= (char)(1 << q.below(7));
        else
          c.body.resize(q.below(c.body.size()));
      });
      maybe("request" + W);
      break;
    }
    case 5: // someone else's server answers
      if (where == 0 || where == 1) {
        then(rs[where], [&rogue](net::Call &c) { c.server_cert = rogue.der; });
        fatal("rogue-cert" + W);
      } else if (where == 3) {
        mitm_enrol = true;
        fatal("rogue-server3");
      }
      break;
    case 6: // a replay of the earlier session
      if (replay) {
        if (where == 1) {
          if (s.flip())
            then(rs[1], [&](net::Call &c) { c.status = 200, c.response = old_voucher; });
          else
            then(rq[1], [&](net::Call &c) { c.body = old_request; });
          fatal("replay1");
        } else if (where == 2) {
          if (s.flip())
            then(rs[2], [&](net::Call &c) { c.status = 200, c.response = old_voucher; });
          else
            then(rq[2], [&](net::Call &c) { c.body = old_forward; });
          fatal("replay2");
        }
      }
      break;
    case 7: // a voucher by someone else, pinning the true or the rogue domain
      if ((where == 1 || where == 2) && pinned_auth) {
        VModel v = e.voucher_model(e.registrar_model(e.pledge_model(clock_tm()), {}, clock_tm()),
                                   s.flip() ? e.domain.der : rogue.der);
        CertSpec q;
        q.subject = get_name(X509_get_subject_name(e.ma.ch.leaf.x.get()));
        q.serial = {1};
        Cert fake = make_cert(q, ec(15));
        std::string body = b64(cms_sign(B(vmodel_json(v)), fake, ec(15), Estate::certs_of(e.ma.extra)));
        then(rs[where], [body](net::Call &c) { c.status = 200, c.response = body; });
        fatal("forged-voucher" + W);
      }
      break;
    default: // everything is the attacker's
      if (pinned_auth) {
        then(rs[0], [&rogue](net::Call &c) { c.server_cert = rogue.der, c.status = 200; });
        VModel pm = e.pledge_model(clock_tm());
        pm.arr[A_PROX] = rogue.der;
        VModel v = e.voucher_model(e.registrar_model(pm, {}, clock_tm()), rogue.der);
        std::string body = b64(cms_sign(B(vmodel_json(v)), rogue, ec(14)));
        then(rs[1], [&rogue, body](net::Call &c) {
          c.server_cert = rogue.der, c.status = 200, c.response = body;
        });
        fatal("rogue-domain");
      }
    }
  }
  net::Server *evil = nullptr;
  if (mitm_enrol) {
    put_cert("evil.crt", rogue.der);
    evil = new net::Server();
    evil->host = "evil", evil->port = 1;
    evil->cert_path = pbt::scratch() + "/evil.crt";
    evil->routes.push_back({"/.well-known/est/simpleenroll", HTTP_METHOD_POST,
                            [](const RequestHeader &, const std::string &b, CRYPTO_CERT,
                               ResponseHeader &, std::string &r, void *) {
                              r = b;
                              return 200;
                            }});
    net::servers.push_back(evil);
  }
  net::on_request = [&](net::Call &c) {
    int i = call_index(c, e);
    if (drop[i])
      return false;
    if (i == 3 && evil)
      c.host = "evil", c.port = 1;
    if (rq[i])
      rq[i](c);
    return true;
  };
  std::vector<std::pair<std::string, int>> idx;
  net::on_response = [&](net::Call &c) {
    int i = c.host == "evil" ? 3 : c.path == "/.well-known/est/simpleenroll" ? 3
            : c.host == e.mc.bind_address ? 2 : 0;
    if (i == 0) { // the first request of the pledge is the certificate request
      int seen = 0;
      for (auto &k : net::calls)
        if (e.rc.bind_address && k.host == e.rc.bind_address && k.path == c.path)
          seen++;
      i = seen > 1 ? 1 : 0;
    }
    if (rs[i])
      rs[i](c);
  };
  c.note("%s%s serial %s nonce %s", at.what.c_str(), enrol ? " with enrolment" : "", pbt::quote(e.serial).c_str(),
         e.nonce.empty() ? "none" : "set");
  c.label((at.must_fail ? "must-fail" : at.neutral ? "must-work" : "either") + std::string(enrol ? "-enrol" : ""));
  c.label(at.what.substr(0, at.what.find('+')));
  c.nontrivial();
  if (!enrol) {
    struct BinaryArray pin = {};
    int rc = post_voucher_pledge_request(&e.pc, &e.rc, &e.mc, &pin);
    Bytes got = bytes(&pin);
    bool holds = pin.array != nullptr || pin.length != 0;
    c.note("returned %d with %zu bytes", rc, got.size());
    if (rc == 0)
      free_binary_array_content(&pin);
    REQUIRE(!(rc == 0 && at.must_fail), "bad-accepted", "the bootstrap succeeded: %s", at.what.c_str());
    REQUIRE(!(rc != 0 && at.neutral), "good-refused", "the bootstrap failed: %d", rc);
    if (rc == 0)
      REQUIRE(got == e.domain.der, "other-pin", "the pledge holds another certificate than the MASA pinned");
    else
      REQUIRE(!holds, "pin-on-failure", "a failed bootstrap hands out %zu bytes", got.size());
    f.restore();
    return;
  }
  struct BinaryArray cert = {}, key = {};
  int rc = post_sign_cert(&e.pc, &e.rc, &e.mc, &cert, &key);
  Bytes gc = bytes(&cert), gk = bytes(&key);
  bool holds = cert.array != nullptr || key.array != nullptr;
  f.restore();
  c.note("returned %d", rc);
  if (rc == 0) {
    free_binary_array_content(&cert);
    free_binary_array_content(&key);
  }
  // TLS itself needs a self-signed certificate authority
  auto dx = e.domain.x;
  bool usable_ca = X509_check_ca(dx.get()) == 1 && X509_self_signed(dx.get(), 0) == 1;
  REQUIRE(!(rc == 0 && at.must_fail), "bad-accepted", "the enrolment succeeded: %s", at.what.c_str());
  if (at.neutral)
    REQUIRE((rc == 0) == usable_ca, "good-refused", "the enrolment returned %d, authority usable %d", rc, (int)usable_ca);
  if (rc != 0) {
    REQUIRE(!holds, "key-on-failure", "a failed enrolment hands out %zu and %zu bytes", gc.size(), gk.size());
    return;
  }
  auto x = parse_cert(gc);
  REQUIRE(x != nullptr, "no-certificate", "%zu bytes that are no certificate", gc.size());
  Key k = key_from_der(gk);
  bool own = k.p && same_key(k.p, X509_get0_pubkey(x.get()));
  EVP_PKEY_free(k.p);
  REQUIRE(own, "enrolled-key", "the certificate is for another key");
  if (at.what.find('3') == std::string::npos && at.what.find("enrol-answer") == std::string::npos) {
    REQUIRE(signed_by(x.get(), e.domain_key->p), "enrolled-issuer", "not signed by the domain's authority");
    REQUIRE(X509_NAME_cmp(X509_get_issuer_name(x.get()), X509_get_subject_name(dx.get())) == 0, "enrolled-issuer", "another issuer is named");
    REQUIRE(count_lines(e.log_path()) == 1, "log", "%d lines in the audit log", count_lines(e.log_path()));
  }
}

// ------------------------------------------------------------------- C18
static std::string log_text(const std::string &v) { // as the log quotes it
  return json_quote(v);
}
PROPERTY(C18, enrol, 100) {
  NetGuard ng;
  Estate e;
  gen_estate(e, s, Opt());
  RegistrarContext *ctx = nullptr;
  REQUIRE(registrar_start(&e.rc, &e.mc, &ctx) == 0 && ctx, "start", "the registrar does not start");
  snprintf(ctx->log_path, sizeof ctx->log_path, "%s", e.log_path().c_str());
  net::Server *sv = net::find(e.rc.bind_address, (int)e.rc.port);
  std::string log; // the model of the log
  if (s.chance(30)) {
    log = s.chance(80) ? "1 0x1 \"a\" 0x2 \"b\"\n" : "x\n";
    write_file(e.log_path(), log);
  }
  Faults f;
  int k = 1 + (int)s.below(5), good = 0;
  Cert last; // issued before
  std::string last_sn;
  for (int step = 0; step < k; step++) {
    f.restore();
    pbt::clock_set(pbt::clock_get() + (int64_t)s.below(100000));
    // what is asked for
    CertSpec p;
    std::string sn = s.chance(70) ? s.str("0123456789abcdef", 1 + s.size(20)) : "";
    p.subject = dn("device-" + std::to_string(s.below(3)), sn);
    bool named = true;
    if (s.chance(25)) { // any text, also quotes and line ends
      p.subject.clear();
      p.subject.push_back({"CN", "x"});
      sn = s.chance(60) ? s.str("ab\"\\\n\r\t\x01\x7f 0", s.chance(10) ? 0 : s.length(20, 3000)) : "";
      if (s.chance(25)) { // cannot be a text: not to be issued
        (s.flip() && !sn.empty() ? sn : p.subject[0].second).insert(0, "a\0b", s.chance(70) ? 3 : 2);
        named = false;
      }
      if (!sn.empty())
        p.subject.push_back({"serialNumber", sn});
      p.stypes = {NAME_RAW, NAME_RAW};
    }
    p.serial = serial_bytes(s);
    if (s.chance(8)) {
      p.serial = s.bytes(9 + s.size(9));
      p.serial[0] = 0x7f;
    }
    p.ca = (int)s.below(3) - 1;
    p.skid = s.flip();
    if (s.flip()) {
      p.nb = 1600000000 + (int64_t)s.below(100000000);
      p.na = p.nb + 1000 + (int64_t)s.below(1000000000);
    }
    const Key &dk = any_key(s, s.flip() ? 0 : 6, 12, 8);
    Cert dev;
    if (s.chance(80))
      dev = make_cert(p, dk);
    else { // signed by someone else already
      CertSpec q;
      q.subject = dn("previous");
      q.serial = {3};
      Cert up = make_cert(q, ec(15));
      dev = make_cert(p, dk, &up);
    }
    std::string why = "good";
    if (named && s.chance(25)) { // akin to other certificates at hand
      auto first_sn = [](const Name &n) {
        for (auto &x : n)
          if (x.first == "serialNumber")
            return x.second;
        return std::string();
      };
      Name dom = get_name(X509_get_subject_name(e.domain.x.get()));
      switch (s.below(6)) {
      case 0: p.subject = dom, p.stypes.clear(), sn = first_sn(dom), dev = make_cert(p, dk), why = "named-like-authority"; break;
      case 1: dev = make_cert(p, dk, &e.domain), why = "issued-before"; break;
      case 2:
        if (last.x)
          dev = last, sn = last_sn, why = "issued-again";
        break;
      case 3: dev = e.idevid, sn = e.serial, why = "own-identity"; break;
      case 4: dev = e.domain, sn = first_sn(dom), why = "authority-itself"; break;
      default: dev = make_cert(p, *e.domain_key), why = "key-of-authority";
      }
    }
    std::string body = wrap64(s, dev.der);
    bool req_ok = true;
    if (s.chance(25)) {
      req_ok = false;
      switch (s.below(4)) {
      case 0: body = "", why = "empty"; break;
      case 1: body = b64(s.bytes(1 + s.below(300))), why = "bytes"; break;
      case 2: body = b64(Bytes(dev.der.begin(), dev.der.begin() + (long)(1 + s.below(dev.der.size() - 1)))), why = "truncated"; break;
      default: body = "?" + s.str("!%&", s.size(30)), why = "no-base64";
      }
    }
    // the authority
    std::string fw = "ok";
    bool ca_ok = true;
    if (s.chance(15)) {
      std::string path = s.flip() ? e.rc.tls_ca_cert_path : e.rc.tls_ca_key_path;
      fw = (path == e.rc.tls_ca_cert_path ? "cert-" : "key-") + f.brk(s, path);
      ca_ok = false;
    }
    char *cap = e.rc.tls_ca_cert_path;
    if (s.chance(3))
      e.rc.tls_ca_cert_path = nullptr, ca_ok = false, fw = "unset";
    // who asks
    Bytes peer = e.idevid.der;
    std::string psn = e.serial;
    bool has_psn = true, auth = true;
    switch (s.weighted({65, 15, 8, 12})) {
    case 1: { // any printable and unprintable serial number
      CertSpec q;
      psn = s.str("ab\"\\\n\r\t\x01\x7f 0", 1 + s.size(20));
      if (s.chance(15)) // cannot be a text: this device cannot be named
        psn.insert(s.below(psn.size() + 1), 1, '\0'), named = false;
      q.subject = {{"CN", "odd"}, {"serialNumber", ""}};
      q.subject.pop_back();
      q.serial = few_serial(s, 2);
      Cert base = make_cert(q, ec(0));
      X509 *x = X509_dup(base.x.get());
      X509_NAME *nm = X509_NAME_dup(X509_get_subject_name(x));
      X509_NAME_add_entry_by_NID(nm, NID_serialNumber, V_ASN1_UTF8STRING, (const unsigned char *)psn.data(), (int)psn.size(), -1, 0);
      X509_set_subject_name(x, nm);
      X509_NAME_free(nm);
      X509_sign(x, ec(0).p, EVP_sha256());
      unsigned char *od = nullptr;
      int n = i2d_X509(x, &od);
      peer.assign(od, od + n);
      OPENSSL_free(od);
      X509_free(x);
      break;
    }
    case 2: peer.clear(), auth = false; break;
    case 3: peer = device_cert(s, e, "").der, has_psn = false; break;
    }
    if (!named && req_ok)
      req_ok = false, why = "unnamable";
    bool accept = req_ok && ca_ok;
    c.note("step %d: %s, authority %s, client %s", step, why.c_str(), fw.c_str(), auth ? pbt::quote(psn).c_str() : "none");
    c.label(accept ? "issued" : "refused");
    c.label(why);
    if (fw != "ok")
      c.label("authority-" + fw);
    Peer px(peer);
    std::map<std::string, std::string> h;
    std::string resp;
    int st = net::request(sv, HTTP_METHOD_POST, "/.well-known/est/simpleenroll", body, "application/x", px.x, h, resp);
    int64_t now = pbt::clock_get();
    e.rc.tls_ca_cert_path = cap;
    c.note("%d %s", st, pbt::quote(resp, 60).c_str());
    Bytes lb;
    bool have_log = read_file(e.log_path(), lb);
    std::string got_log = have_log ? S(lb) : "";
    if (!accept) {
      REQUIRE(st >= 400 && st <= 599, "bad-accepted", "status %d (%s, authority %s)", st, why.c_str(), fw.c_str());
      Bytes d;
      REQUIRE(!(b64d(resp, d) && parse_cert(d)), "certificate-in-error", "a certificate in an error answer");
      REQUIRE(got_log == log, "log-on-failure", "the log changed: %s", pbt::quote(got_log, 300).c_str());
      continue;
    }
    if (!auth && st >= 400) { // a client without identity may be turned away
      REQUIRE(got_log == log, "log-on-failure", "the log changed: %s", pbt::quote(got_log, 300).c_str());
      continue;
    }
    good++;
    REQUIRE(st == 200, "good-refused", "status %d (%s)", st, pbt::quote(resp, 80).c_str());
    REQUIRE(h["Content-Type"] == "text/plain", "content-type", "%s", h["Content-Type"].c_str());
    Bytes d;
    REQUIRE(b64d(resp, d), "answer-base64", "%s", pbt::quote(resp, 80).c_str());
    auto x = parse_cert(d);
    REQUIRE(x != nullptr, "no-certificate", "the answer is no certificate");
    X509 *o = dev.x.get();
    REQUIRE(X509_NAME_cmp(X509_get_subject_name(x.get()), X509_get_subject_name(o)) == 0, "subject", "another subject");
    REQUIRE(ASN1_INTEGER_cmp(X509_get0_serialNumber(x.get()), X509_get0_serialNumber(o)) == 0, "serial", "another serial number");
    REQUIRE(ASN1_TIME_compare(X509_get0_notBefore(x.get()), X509_get0_notBefore(o)) == 0 &&
                ASN1_TIME_compare(X509_get0_notAfter(x.get()), X509_get0_notAfter(o)) == 0,
            "validity", "another validity");
    REQUIRE(key_of(d) == key_of(dev.der), "key", "another public key");
    REQUIRE(X509_get_ext_count(x.get()) == X509_get_ext_count(o), "extensions", "other extensions");
    REQUIRE(X509_NAME_cmp(X509_get_issuer_name(x.get()), X509_get_subject_name(e.domain.x.get())) == 0, "issuer", "another issuer");
    REQUIRE(signed_by(x.get(), e.domain_key->p), "signature", "not signed by the authority");
    last.x = x, last.der = d, last_sn = sn;
    if (!auth) { // not judged, but whole lines
      log = got_log;
      continue;
    }
    // one more line
    REQUIRE(got_log.compare(0, log.size(), log) == 0, "log-rewritten", "earlier lines changed: %s", pbt::quote(got_log, 300).c_str());
    std::string line = got_log.substr(log.size());
    auto num = [](const std::shared_ptr<X509> &c) {
      const ASN1_INTEGER *n = X509_get0_serialNumber(c.get());
      uint64_t v = 0;
      return n->length > 8 ? std::string() : (ASN1_INTEGER_get_uint64(&v, n), pbt::fmt("%llx", (unsigned long long)v));
    };
    auto pxs = parse_cert(peer);
    std::string hn = num(pxs), ln = num(x);
    const std::string &lsn = sn;
    std::string a = pbt::fmt("%lld 0x", (long long)now), b1 = " " + log_text(has_psn ? psn : "NULL") + " 0x",
                b2 = " " + log_text(lsn.empty() ? "NULL" : lsn) + "\n";
    bool ok = line.compare(0, a.size(), a) == 0;
    size_t m = line.find(' ', a.size());
    ok = ok && m != std::string::npos && (hn.empty() || line.substr(a.size(), m - a.size()) == hn);
    ok = ok && line.compare(m, b1.size(), b1) == 0;
    size_t q = ok ? line.find(' ', m + b1.size()) : 0;
    ok = ok && q != std::string::npos && (ln.empty() || line.substr(m + b1.size(), q - m - b1.size()) == ln);
    ok = ok && line.substr(q) == b2;
    REQUIRE(ok, "log-line", "the log got %s, expected %s%s%s%s%s", pbt::quote(line, 300).c_str(),
            pbt::quote(a).c_str(), hn.c_str(), pbt::quote(b1).c_str(), ln.c_str(), pbt::quote(b2).c_str());
    REQUIRE(std::count(line.begin(), line.end(), '\n') == 1, "log-line", "the log got %s", pbt::quote(line, 300).c_str());
    log = got_log;
  }
  c.nontrivial(good > 0);
  registrar_stop(ctx);
}

// C25: the real HTTPS layer.  The library's servers listen on loopback addresses
// and are asked over TLS by a client written on OpenSSL alone; the library's
// clients ask a scripted TLS server.
#define CPPHTTPLIB_OPENSSL_SUPPORT
#include "brski/http/httplib.h"
#include "harness/estate.hpp"
#include "harness/tls.hpp"
#include "brski/http/https_client.hpp"
#include "brski/http/https_server.hpp"
#include "brski/pledge/pledge_request.hpp"
#include <mutex>
#include <set>
#include <sys/stat.h>
using namespace estate;
using tls::Conn;
using tls::Ident;
using tls::Message;

namespace {
// a server of the library in a thread of its own
struct Live {
  std::thread th;
  void **srv = nullptr;
  std::atomic<int> rc{99};
  std::atomic<bool> done{false};
  bool up = false;
  // start: the blocking call; slot: where it leaves the server
  template <class F> bool begin(F start, void **slot, const std::string &host, int port) {
    srv = slot;
    uint64_t seed = rng_state();
    th = std::thread([this, start, seed] {
      rng_reseed(seed + 1);
      rc = start();
      ERR_clear_error();
      done = true;
    });
    for (int i = 0; i < 4000 && !done; i++) {
      int fd = tls::dial(host, port);
      if (fd >= 0) {
        close(fd);
        up = true;
        return true;
      }
      usleep(i < 100 ? 200 : 10000);
    }
    return false;
  }
  // ends the blocking call; its caller releases the server afterwards
  void end() {
    if (!th.joinable())
      return;
    if (up && !done) {
      auto s = static_cast<httplib::SSLServer *>(*(void *volatile *)srv);
      if (s)
        s->stop();
    }
    th.join();
  }
  ~Live() { end(); }
};
struct Req {
  int id = 0;
  std::string method, path, body, ctype, shape;
  std::vector<std::pair<std::string, std::string>> headers;
  int route = -1; // expected, -1: none
  bool chunked = false, fresh = false, expect100 = false;
  size_t split = 0;
  // the scripted answer
  int status = 200;
  std::string answer, actype;
  std::vector<std::pair<std::string, std::string>> aheaders;
  Message got;
  bool connected = false;
  // a method the server takes a body with
  bool has_body() const { return method == "POST" || method == "PUT" || method == "PATCH" || method == "DELETE"; }
  std::string text() const {
    std::string r = method + " " + path + " HTTP/1.1\r\nHost: x\r\nX-Case: " + std::to_string(id) + "\r\n";
    if (!ctype.empty())
      r += "Content-Type: " + ctype + "\r\n";
    for (auto &h : headers)
      r += h.first + ": " + h.second + "\r\n";
    if (!has_body())
      return r + "\r\n";
    if (!chunked)
      return r + pbt::fmt("Content-Length: %zu\r\n\r\n", body.size()) + body;
    r += "Transfer-Encoding: chunked\r\n\r\n";
    for (size_t p = 0; p < body.size();) {
      size_t n = std::min(body.size() - p, split ? split : body.size());
      r += pbt::fmt("%zx\r\n", n) + body.substr(p, n) + "\r\n";
      p += n;
    }
    return r + "0\r\n\r\n";
  }
};
struct Seen {
  int route, id;
  std::string body;
  Bytes peer;
  RequestHeader headers;
  void *ctx;
};
struct Board {
  std::mutex m;
  std::vector<Seen> seen;
  std::map<int, const Req *> script;
};
Bytes der_of(CRYPTO_CERT c) {
  unsigned char *o = nullptr;
  int n = c ? i2d_X509((X509 *)c, &o) : 0;
  Bytes r(o, o + (n > 0 ? n : 0));
  OPENSSL_free(o);
  return r;
}
struct Client {
  Ident id;
  bool allowed = true; // the server accepts its certificate
  std::vector<Req> reqs;
  std::string host;
  int port = 0;
  uint64_t seed = 0;
  void run() {
    rng_reseed(seed);
    Conn c;
    for (auto &r : reqs) {
      if (c.fd < 0 || r.fresh)
        if (!c.open_(host, port, id)) {
          c.drop();
          continue;
        }
      r.connected = true;
      if (c.send(r.text()))
        r.got = c.read(r.method == "HEAD");
      if (!r.got.ok || r.got.closed || r.shape == "odd-method")
        c.drop();
    }
    c.drop();
    OPENSSL_thread_stop();
  }
};
const char *const METHODS[] = {"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"};
enum HTTP_METHOD code_of(const std::string &m) {
  if (m == "GET") return HTTP_METHOD_GET;
  if (m == "POST") return HTTP_METHOD_POST;
  if (m == "PUT") return HTTP_METHOD_PUT;
  if (m == "DELETE") return HTTP_METHOD_DELETE;
  if (m == "OPTIONS") return HTTP_METHOD_OPTIONS;
  return HTTP_METHOD_PATCH;
}
struct Route {
  std::string path, method;
};
std::string seg(Src &s) {
  return s.str("abcdefxyz", 1 + s.below(8)) + (s.chance(25) ? s.str(".-_~+()$*", 1) + s.str("ab", s.below(3)) : "");
}
std::string near_path(Src &s, std::string p) {
  switch (s.below(9)) {
  case 0: return p + "/";
  case 1: return p + s.str("abz.", 1);
  case 2: return p.substr(0, p.size() - 1);
  case 3: return "/x" + p;
  case 4: return p + "/" + seg(s);
  case 5: { // one character for another
    size_t k = 1 + s.below(p.size() - 1);
    p[k] = p[k] == 'q' ? 'w' : 'q';
    return p;
  }
  case 6: { // the separators are characters like others
    for (auto &ch : p)
      if (ch == '.' || ch == '_' || ch == '-') {
        ch = 'x';
        return p;
      }
    return "/";
  }
  case 7:
    for (auto &ch : p)
      ch = (char)toupper((unsigned char)ch);
    return p;
  default: return "/" + seg(s);
  }
}
std::string token_text(Src &s, size_t max) {
  std::string v = s.str("abcXYZ 0123456789-_=/;,\"'()", s.size(max));
  return tls::trim(v);
}
std::string any_payload(Src &s) {
  switch (s.weighted({15, 45, 25, 15})) {
  case 0: return "";
  case 1: return S(content(s, 400));
  case 2: return S(s.bytes(s.size(5000)));
  default: {
    std::string r(1 + s.below(120000), 0);
    uint32_t x = (uint32_t)s.below(1 << 30);
    for (auto &ch : r)
      x = x * 1664525u + 1013904223u, ch = (char)(x >> 24);
    return r;
  }
  }
}
Ident client_ident(Src &s, int i, const Cert *signer) {
  CertSpec p;
  p.subject = dn("client-" + std::to_string(i), "c" + std::to_string(i));
  p.serial = {(uint8_t)(64 + i)};
  Ident id;
  id.key = &ec(i % 4);
  id.cert = make_cert(p, *id.key, signer);
  return id;
}
} // namespace

PROPERTY(C25, routes, 50) {
  signal(SIGPIPE, SIG_IGN);
  Board board;
  // the table
  std::vector<Route> table;
  bool doc = s.flip();
  if (doc)
    for (auto p : {"/.well-known/brski/requestvoucher", "/.well-known/brski/voucher_status",
                   "/.well-known/brski/requestauditlog", "/.well-known/brski/enrollstatus",
                   "/.well-known/est/cacerts", "/.well-known/est/simpleenroll"})
      table.push_back({p, s.chance(75) ? "POST" : METHODS[s.below(6)]});
  int extra = (int)s.below(5) + !doc;
  for (int i = 0; i < extra; i++) {
    Route r;
    r.method = METHODS[s.below(6)];
    r.path = !table.empty() && s.chance(40) ? s.pick(table).path : std::string();
    if (r.path.empty())
      for (int k = 1 + (int)s.below(3); k > 0; k--)
        r.path += "/" + seg(s);
    else if (s.chance(50))
      r.path += "/" + seg(s);
    bool dup = false;
    for (auto &t : table)
      dup = dup || (t.path == r.path && t.method == r.method);
    if (!dup)
      table.push_back(r);
  }
  std::vector<RouteTuple> routes;
  int user = 0;
  for (size_t i = 0; i < table.size(); i++)
    routes.push_back({table[i].path, code_of(table[i].method),
                      [&board, i](const RequestHeader &rh, const std::string &body, CRYPTO_CERT peer,
                                  ResponseHeader &oh, std::string &out, void *ctx) {
                        Seen v;
                        v.route = (int)i;
                        auto it = rh.find("X-Case");
                        v.id = it == rh.end() ? -1 : atoi(it->second.c_str());
                        v.body = body, v.peer = der_of(peer), v.headers = rh, v.ctx = ctx;
                        std::lock_guard<std::mutex> l(board.m);
                        board.seen.push_back(v);
                        auto r = board.script.find(v.id);
                        if (r == board.script.end())
                          return 200;
                        for (auto &h : r->second->aheaders)
                          oh[h.first] = h.second;
                        if (!r->second->actype.empty())
                          oh["Content-Type"] = r->second->actype;
                        out += r->second->answer; // it starts empty
                        return r->second->status;
                      }});
  // the server
  std::string host = tls::fresh_host();
  int port = 1024 + (int)s.below(60000);
  CertSpec cap;
  cap.subject = dn("clients-ca");
  cap.ca = 1;
  Cert ca = make_cert(cap, ec(7));
  bool with_ca = s.chance(40);
  Cert scert = tls_cert(s, 4);
  std::string hs = host, cp = put_cert("s.crt", scert.der), kp = put_key("s.key", ec(4)), cap_ = put_cert("ca.crt", ca.der);
  struct http_config hc = {};
  hc.bind_address = &hs[0], hc.port = (unsigned)port, hc.tls_cert_path = &cp[0], hc.tls_key_path = &kp[0];
  hc.client_ca_cert_path = with_ca ? &cap_[0] : nullptr;
  // the clients
  int nc = 1 + (int)s.weighted({50, 20, 15, 15}), total = 0;
  std::vector<Client> clients((size_t)nc);
  for (int i = 0; i < nc; i++) {
    Client &cl = clients[(size_t)i];
    cl.host = host, cl.port = port, cl.seed = s.below(0);
    int kind = (int)s.weighted({80, 12, 8});
    if (kind == 2)
      cl.allowed = false; // no certificate at all
    else {
      cl.id = client_ident(s, i, with_ca && kind == 0 ? &ca : nullptr);
      cl.allowed = !with_ca || kind == 0;
    }
    int n = 1 + (int)s.below(8);
    for (int k = 0; k < n; k++) {
      Req r;
      r.id = total++;
      size_t t = s.below(table.size());
      r.path = table[t].path, r.method = table[t].method;
      r.shape = "route";
      switch (s.weighted({65, 15, 12, 8})) {
      case 0: break;
      case 1: r.path = near_path(s, r.path), r.shape = "other-path"; break;
      case 2: r.method = METHODS[s.below(6)], r.shape = "other-method"; break;
      default: r.method = s.pick<std::string>({"HEAD", "FOO", "TRACE", "post", "PRI"}), r.shape = "odd-method";
      }
      for (size_t x = 0; x < table.size(); x++)
        if (table[x].path == r.path && table[x].method == r.method)
          r.route = (int)x;
      if (r.method == "HEAD") // answered like GET by HTTP servers
        for (auto &x : table)
          if (x.path == r.path && x.method == "GET")
            r.method = "POST", r.route = -2;
      if (r.route == -2) {
        r.route = -1;
        for (size_t x = 0; x < table.size(); x++)
          if (table[x].path == r.path && table[x].method == r.method)
            r.route = (int)x;
      }
      if (r.has_body()) {
        r.body = any_payload(s);
        r.chunked = s.chance(15) && !r.body.empty() && r.method != "DELETE";
        r.split = s.below(3) ? 1 + s.below(3000) : 0;
      }
      r.ctype = s.pick<std::string>({"application/voucher-cms+json", "text/plain", "application/json", "", "application/pkcs7-mime"});
      for (int h = (int)s.below(3); h > 0; h--)
        r.headers.push_back({"X-H" + std::to_string(s.below(2)), "v" + token_text(s, 40)});
      r.fresh = s.chance(25);
      r.status = s.weighted({50, 25, 25}) == 0 ? 200 : s.pick<int>({200, 201, 202, 203, 299, 301, 302, 400, 401, 403, 404, 405, 418, 429, 500, 501, 502, 503, 505, 599});
      r.answer = any_payload(s);
      r.actype = s.pick<std::string>({"application/voucher-cms+json", "text/plain", "application/json", ""});
      for (int h = (int)s.below(3); h > 0; h--)
        r.aheaders.push_back({"X-R" + std::to_string(h), "w" + token_text(s, 60)});
      cl.reqs.push_back(r);
    }
  }
  for (auto &cl : clients)
    for (auto &r : cl.reqs)
      board.script[r.id] = &r;
  c.note("%zu routes at %s:%d%s, %d clients, %d requests", table.size(), host.c_str(), port,
         with_ca ? " with a client authority" : "", nc, total);
  void *srv = nullptr;
  {
    Live live;
    bool up = live.begin([&] { return https_start(&hc, routes, &user, &srv); }, &srv, host, port);
    if (up) {
      std::vector<std::thread> th;
      for (size_t i = 1; i < clients.size(); i++)
        th.emplace_back([&clients, i] { clients[i].run(); });
      clients[0].run();
      for (auto &t : th)
        t.join();
    }
    live.end();
    https_stop(srv);
    REQUIRE(up, "start", "the server did not start: %d", live.rc.load());
    REQUIRE(live.rc == 0, "stopped", "a stopped server reports %d", live.rc.load());
  }
  // judgement
  for (auto &cl : clients)
    for (auto &r : cl.reqs) {
      std::vector<const Seen *> v;
      for (auto &x : board.seen)
        if (x.id == r.id)
          v.push_back(&x);
      std::string what = pbt::fmt("%s %s (%zu bytes%s)", r.method.c_str(), r.path.c_str(), r.body.size(), r.chunked ? ", chunked" : "");
      if (!cl.allowed) {
        REQUIRE(v.empty(), "unauthenticated", "%s of a client without an accepted certificate reached a handler", what.c_str());
        REQUIRE(!r.got.ok, "unauthenticated", "%s of a client without an accepted certificate was answered", what.c_str());
        c.label("no-accepted-certificate");
        continue;
      }
      REQUIRE(r.connected && r.got.ok, "no-answer", "%s: %s", what.c_str(), r.connected ? "no complete answer" : "no connection");
      c.label(r.shape);
      if (r.route < 0) {
        REQUIRE(v.empty(), "wrong-route", "%s reached the handler of %s %s", what.c_str(),
                table[(size_t)v[0]->route].method.c_str(), table[(size_t)v[0]->route].path.c_str());
        REQUIRE(r.got.status >= 400 && r.got.status < 500, "no-router-error", "%s: %s", what.c_str(), r.got.start.c_str());
        REQUIRE(r.method == "HEAD" || r.got.body == HTTP_ERROR_REPLY, "no-router-error", "%s: %s", what.c_str(),
                pbt::quote(r.got.body).c_str());
        continue;
      }
      c.nontrivial();
      REQUIRE(v.size() == 1, "not-handled", "%s reached %zu handlers, answered %s", what.c_str(), v.size(), r.got.start.c_str());
      REQUIRE(v[0]->route == r.route, "wrong-route", "%s reached the handler of %s %s", what.c_str(),
              table[(size_t)v[0]->route].method.c_str(), table[(size_t)v[0]->route].path.c_str());
      REQUIRE(v[0]->ctx == &user, "context", "the handler got another context");
      REQUIRE(v[0]->body == r.body, "request-body", "%s: the handler saw %zu bytes", what.c_str(), v[0]->body.size());
      REQUIRE(v[0]->peer == cl.id.cert.der, "client-identity", "%s: the handler saw another client's certificate (%zu bytes)",
              what.c_str(), v[0]->peer.size());
      std::map<std::string, std::string> want;
      if (!r.ctype.empty())
        want["Content-Type"] = r.ctype;
      for (auto &h : r.headers)
        want[h.first] = want.count(h.first) ? want[h.first] + ", " + h.second : h.second;
      for (auto &h : want) {
        auto it = v[0]->headers.find(h.first);
        REQUIRE(it != v[0]->headers.end() && it->second == h.second, "request-header", "%s: header %s was %s, the handler saw %s",
                what.c_str(), h.first.c_str(), h.second.c_str(), it == v[0]->headers.end() ? "none" : it->second.c_str());
      }
      for (const char *n : {"X-H0", "X-H1", "Content-Type"})
        REQUIRE(want.count(n) || !v[0]->headers.count(n), "request-header", "%s: no header %s was sent, the handler saw %s", what.c_str(), n,
                v[0]->headers.find(n)->second.c_str());
      REQUIRE(r.got.status == r.status, "status", "%s: the handler answered %d, the client got %s", what.c_str(), r.status,
              r.got.start.c_str());
      bool err = r.status >= 400;
      std::string body = err && r.answer.empty() ? std::string(HTTP_ERROR_REPLY) : r.answer;
      REQUIRE(r.got.body == body, "answer-body", "%s: the handler answered %zu bytes, the client got %zu", what.c_str(),
              body.size(), r.got.body.size());
      std::string ct = err ? "text/plain" : r.actype;
      auto cts = r.got.all("content-type");
      REQUIRE(ct.empty() || (cts.size() == 1 && cts[0] == ct), "answer-type", "%s: status %d of type %s, the client got %zu types%s%s",
              what.c_str(), r.status, ct.c_str(), cts.size(), cts.empty() ? "" : ", the first ", cts.empty() ? "" : cts[0].c_str());
      std::map<std::string, std::string> ah;
      for (auto &h : r.aheaders)
        ah[h.first] = h.second;
      for (auto &h : ah) {
        auto g = r.got.all(tls::lower(h.first));
        REQUIRE(g.size() == 1 && g[0] == h.second, "answer-header", "%s: header %s: %s, the client got %zu%s%s", what.c_str(),
                h.first.c_str(), h.second.c_str(), g.size(), g.empty() ? "" : " ", g.empty() ? "" : g[0].c_str());
      }
      for (const char *n : {"X-R0", "X-R1", "X-R2"})
        REQUIRE(ah.count(n) || r.got.all(tls::lower(n)).empty(), "answer-header", "%s: the handler set no header %s, the client got one",
                what.c_str(), n);
    }
  for (auto &x : board.seen)
    REQUIRE(x.id >= 0 && x.id < total, "stray", "a handler was called without a request");
}

// ------------------------------------------------------------------ the client
namespace {
struct Script {
  std::string host;
  int port = 0, listener = -1;
  SSL_CTX *ctx = nullptr;
  std::thread th;
  // the script
  std::string answer;
  int mode = 0; // 0 answer and close, 1 close at once after the handshake, 2 close after the request
  bool plain = false; // no TLS
  // what happened
  bool hand = false;
  Message got;
  Bytes peer;
  std::atomic<bool> stop{false};
  bool start(const std::string &h, int p, const Ident &id) {
    host = h, port = p;
    listener = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(listener, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = tls::addr_of(h, p);
    if (bind(listener, (sockaddr *)&a, sizeof a) != 0 || listen(listener, 8) != 0)
      return false;
    ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, tls::accept_any);
    if (!tls::use(ctx, id))
      return false;
    uint64_t seed = rng_state();
    th = std::thread([this, seed] {
      rng_reseed(seed + 5);
      while (!stop) {
        pollfd p = {listener, POLLIN, 0};
        if (poll(&p, 1, 50) <= 0)
          continue;
        if (plain) {
          int fd = accept(listener, nullptr, nullptr);
          (void)!::write(fd, answer.data(), answer.size());
          close(fd);
          continue;
        }
        Conn c;
        if (!c.accept_(listener, ctx))
          continue;
        hand = true;
        peer = c.peer();
        if (mode == 1)
          continue;
        Message m = c.read();
        if (!m.ok)
          continue;
        got = m;
        if (mode == 2)
          continue;
        c.send(answer);
      }
      ERR_clear_error();
      OPENSSL_thread_stop();
    });
    return true;
  }
  void end() {
    stop = true;
    if (th.joinable())
      th.join();
    if (listener >= 0)
      close(listener);
    listener = -1;
    SSL_CTX_free(ctx);
    ctx = nullptr;
  }
  ~Script() { end(); }
};
} // namespace

PROPERTY(C25, client, 30) {
  signal(SIGPIPE, SIG_IGN);
  Script sv;
  // who the server is, and what the client trusts
  CertSpec rp;
  rp.subject = dn("ca");
  rp.ca = 1;
  rp.skid = s.flip();
  rp.serial = few_serial(s, 7);
  Cert root = make_cert(rp, ec(7));
  bool self = s.chance(35);
  Ident sid;
  sid.key = &ec(4);
  sid.cert = tls_cert(s, 4, self ? nullptr : &root, self && s.flip() ? 1 : -1);
  bool with_ca = s.flip();
  std::string ca, cawhat;
  std::vector<Bytes> anchors;
  bool trusted = true;
  if (with_ca) {
    switch (s.weighted({50, 12, 12, 8, 8, 10})) {
    case 0: anchors = {self ? sid.cert.der : root.der}, cawhat = "right"; break;
    case 1: anchors = {unrelated(s, 1).der}, cawhat = "unrelated"; break;
    case 2: { // same name, other key
      CertSpec q;
      q.subject = self ? get_name(X509_get_subject_name(sid.cert.x.get())) : rp.subject;
      q.ca = 1;
      q.serial = {9};
      anchors = {make_cert(q, ec(15)).der};
      cawhat = "namesake";
      break;
    }
    case 3: cawhat = "garbage", ca = s.str("abc-\n=", s.size(80)); break;
    case 4: cawhat = "empty"; break;
    default: anchors = {unrelated(s, 2).der, self ? sid.cert.der : root.der}, cawhat = "two";
    }
    if (!anchors.empty() && s.chance(35)) // in a larger collection
      for (int k = 1 + (int)s.below(s.chance(30) ? 12 : 3); k > 0; k--) {
        CertSpec q;
        q.subject = dn(pbt::fmt("ca %d", k));
        q.ca = 1;
        q.serial = {(uint8_t)k};
        anchors.insert(anchors.begin() + (long)s.below(anchors.size() + 1), make_cert(q, s.flip() ? rsa(0) : ec(14)).der);
        cawhat += "+";
      }
    for (auto &a : anchors)
      ca += pem("CERTIFICATE", a) + (s.chance(10) ? "\n" : "");
    trusted = tls::chain_ok(sid.cert.der, anchors, "ssl_server");
  }
  // who the client is
  Ident me = client_ident(s, 1, s.flip() ? &root : nullptr);
  std::string cp = put_cert("c.crt", me.cert.der), kp = put_key("c.key", *me.key);
  bool cid_ok = true;
  std::string idwhat = "good";
  if (s.chance(15)) {
    cid_ok = false;
    switch (s.below(4)) {
    case 0: idwhat = "cert " + break_file(s, cp); break;
    case 1: idwhat = "key " + break_file(s, kp); break;
    case 2: kp = put_key("c.key", ec(9)), idwhat = "key of another"; break;
    default: cp = pbt::scratch() + "/nothing", idwhat = "no certificate file";
    }
  }
  // the answer
  int status = s.flip() ? 200 : s.pick<int>({200, 201, 202, 299, 301, 302, 400, 401, 403, 404, 407, 500, 502, 503, 505, 599});
  std::string body = any_payload(s), shape = "length", h;
  bool ok = true;
  std::string reason = s.pick<std::string>({"OK", "", "Some Text"});
  h = pbt::fmt("HTTP/1.1 %d %s\r\n", status, reason.c_str());
  for (int k = (int)s.below(4); k > 0; k--)
    h += pbt::fmt("X-R%d: ", k) + token_text(s, 50) + "\r\n";
  switch (s.weighted({45, 15, 10, 6, 6, 6, 6, 6})) {
  case 0: h += pbt::fmt("Content-Length: %zu\r\n\r\n", body.size()) + body; break;
  case 1: {
    shape = "chunked";
    h += "Transfer-Encoding: chunked\r\n\r\n";
    size_t w = 1 + s.below(4000);
    for (size_t p = 0; p < body.size(); p += w) {
      size_t n = std::min(w, body.size() - p);
      h += pbt::fmt("%zx\r\n", n) + body.substr(p, n) + "\r\n";
    }
    h += "0\r\n\r\n";
    break;
  }
  case 2:
    shape = "until-close";
    h += "Connection: close\r\n\r\n" + body;
    break;
  case 3:
    shape = "short-body", ok = false;
    h += pbt::fmt("Content-Length: %zu\r\n\r\n", body.size() + 1 + s.below(100)) + body;
    break;
  case 4:
    shape = "cut-head", ok = false;
    h = h.substr(0, s.below(h.size()));
    break;
  case 5:
    shape = "garbage", ok = false;
    h = S(s.bytes(1 + s.size(300)));
    if (h.compare(0, 5, "HTTP/") == 0)
      h[0] = 'X';
    break;
  case 6: shape = "closed-before-request", ok = false, sv.mode = 1; break;
  default: shape = "closed-after-request", ok = false, sv.mode = 2;
  }
  sv.answer = h;
  int where = (int)s.weighted({92, 4, 4});
  std::string host = tls::fresh_host(), path = s.flip() ? "/.well-known/brski/requestvoucher" : "/" + s.str("abc/", s.size(20));
  int port = 1024 + (int)s.below(60000);
  sv.plain = where == 1;
  if (where != 2)
    REQUIRE(sv.start(host, port, sid), "harness", "the scripted server does not start");
  std::string req = any_payload(s), ctype = s.pick<std::string>({"application/voucher-cms+json", "text/plain"});
  c.note("%s %s; identity %s; answer %d %s %zu; server %s; body %zu", with_ca ? "trusting" : "trusting anybody", cawhat.c_str(),
         idwhat.c_str(), status, shape.c_str(), body.size(), where == 0 ? "TLS" : where == 1 ? "plain" : "none", req.size());
  HttpResponse hr = {};
  std::string out;
  int st;
  if (with_ca)
    st = https_post_request_ca(kp, cp, ca, host, port, path, req, ctype, out);
  else {
    st = https_post_request(kp, cp, host, port, path, false, req, ctype, hr);
    out = hr.response;
  }
  sv.end();
  Bytes seen_cert = st >= 0 ? der_of(hr.peer_certificate) : Bytes();
  if (st >= 0)
    crypto_free_certcontext(hr.peer_certificate);
  bool want = ok && cid_ok && trusted && where == 0;
  c.label(shape), c.label("trust-" + (with_ca ? cawhat : "any")), c.label(want ? "answered" : "failed");
  c.nontrivial();
  if (with_ca && !trusted)
    REQUIRE(!sv.got.ok, "unauthenticated-server", "the request went to a server the client does not authenticate (%s)", cawhat.c_str());
  if (!want) {
    REQUIRE(st < 0, "false-success", "the request reports %d with %zu bytes", st, out.size());
    return;
  }
  REQUIRE(st == status, "status", "the server answered %d, the client reports %d", status, st);
  REQUIRE(out == body, "answer-body", "the server answered %zu bytes, the client got %zu", body.size(), out.size());
  REQUIRE(with_ca || seen_cert == sid.cert.der, "server-identity", "the client reports another server certificate (%zu bytes)", seen_cert.size());
  REQUIRE(sv.peer == me.cert.der, "client-identity", "the server saw another client certificate (%zu bytes)", sv.peer.size());
  REQUIRE(sv.got.ok && sv.got.start == "POST " + path + " HTTP/1.1", "request-line", "the server saw %s", sv.got.start.c_str());
  REQUIRE(sv.got.body == req, "request-body", "the client sent %zu bytes, the server saw %zu", req.size(), sv.got.body.size());
  REQUIRE(sv.got.first("content-type") == ctype, "request-type", "the server saw %s", sv.got.first("content-type").c_str());
}

// ------------------------------------------------- the real servers and clients
namespace {
struct Doc {
  const char *path;
  bool post;
  int status;
  const char *body;
};
const Doc REG[] = {{"/.well-known/brski/voucher_status", true, 200, "registrar_voucher_status"},
                   {"/.well-known/brski/requestauditlog", true, 200, "registrar_requestauditlog"},
                   {"/.well-known/brski/enrollstatus", true, 200, "registrar_enrollstatus"},
                   {"/.well-known/brski/requestvoucher", true, 0, nullptr},
                   {"/.well-known/est/simpleenroll", true, 0, nullptr}};
const Doc MAS[] = {{"/.well-known/brski/voucher_status", true, 200, "masa_voucher_status"},
                   {"/.well-known/brski/requestauditlog", true, 200, "masa_requestauditlog"},
                   {"/.well-known/brski/enrollstatus", true, 200, "masa_enrollstatus"},
                   {"/.well-known/est/cacerts", false, 503, "get_est_cacerts"},
                   {"/.well-known/est/simpleenroll", true, 503, "post_est_simpleenroll"},
                   {"/.well-known/est/simplereenroll", true, 503, "post_est_simplereenroll"},
                   {"/.well-known/est/fullcmc", true, 503, "post_est_fullcmc"},
                   {"/.well-known/est/serverkeygen", true, 503, "post_est_serverkeygen"},
                   {"/.well-known/est/csrattrs", false, 503, "get_est_csrattrs"},
                   {"/.well-known/brski/requestvoucher", true, 0, nullptr}};
} // namespace

PROPERTY(C25, deployment, 20) {
  signal(SIGPIPE, SIG_IGN);
  Estate e;
  Opt o;
  o.bad_pct = 4;
  gen_estate(e, s, o);
  std::string rh = tls::fresh_host(), mh = tls::fresh_host();
  e.rc.bind_address = e.str(rh), e.mc.bind_address = e.str(mh);
  e.rc.port = 1024 + (unsigned)s.below(60000), e.mc.port = 1024 + (unsigned)s.below(60000);
  bool masa_down = s.chance(8);
  RegistrarContext *rctx = nullptr;
  MasaContext *mctx = nullptr;
  void *none = nullptr;
  std::string why;
  bool reg_trusts_domain = tls::chain_ok(e.reg_tls.der, {e.domain.der}, "ssl_client");
  bool pledge_trusts_domain = tls::chain_ok(e.reg_tls.der, {e.domain.der}, "ssl_server");
  bool expect_pin = e.pl.trusted && e.rg.trusted && e.ma.trusted && !masa_down && reg_trusts_domain;
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool rup = false, mup = false;
  int pin_rc = -1, enrol_rc = -1;
  BinaryArray pin = {}, oc = {}, ok_ = {};
  Client raw;
  raw.seed = s.below(0);
  bool to_masa = s.flip();
  // the raw client's requests
  Cert reg_like = to_masa ? e.reg_tls : e.idevid;
  int idk = (int)s.weighted({70, 20, 10});
  if (to_masa) {
    raw.id.cert = e.reg_tls, raw.id.key = e.tls_key;
    raw.allowed = reg_trusts_domain;
    if (idk == 1)
      raw.id = client_ident(s, 5, nullptr), raw.allowed = false;
  } else {
    raw.id.cert = e.idevid, raw.id.key = e.idev.leaf_key;
    if (idk == 1)
      raw.id = client_ident(s, 5, nullptr);
  }
  if (idk == 2)
    raw.id = Ident(), raw.allowed = false;
  raw.host = to_masa ? mh : rh, raw.port = (int)(to_masa ? e.mc.port : e.rc.port);
  int n = 1 + (int)s.below(7);
  std::vector<const Doc *> docs;
  for (int i = 0; i < n; i++) {
    const Doc *d = to_masa ? &MAS[s.below(10)] : &REG[s.below(5)];
    Req r;
    r.id = i;
    r.path = d->path, r.method = d->post ? "POST" : "GET";
    r.ctype = "application/voucher-cms+json";
    int alt = (int)s.weighted({75, 13, 12});
    if (alt == 1)
      r.path = near_path(s, r.path), d = nullptr;
    else if (alt == 2)
      r.method = s.pick<std::string>({"PUT", "DELETE", "PATCH", "OPTIONS", d->post ? "GET" : "POST"}), d = nullptr;
    if (d == nullptr)
      for (auto &x : to_masa ? std::vector<Doc>(MAS, MAS + 10) : std::vector<Doc>(REG, REG + 5))
        if (r.path == x.path && r.method == (x.post ? "POST" : "GET"))
          d = to_masa ? &MAS[0] : &REG[0], r.path = d->path, r.method = "POST";
    if (r.method != "GET" && r.method != "OPTIONS")
      r.body = any_payload(s);
    if (r.body.size() > 6000)
      r.body.resize(6000);
    if (d && !d->body && s.flip())
      r.body = b64(to_masa ? e.sign(e.rg, vmodel_json(e.registrar_model(e.pledge_model(gen_tm(s)), e.sign(e.pl, vmodel_json(e.pledge_model(gen_tm(s)))), gen_tm(s))))
                           : unrelated(s, 1).der);
    r.fresh = s.chance(30);
    raw.reqs.push_back(r);
    docs.push_back(d);
  }
  bool enrol = s.chance(60);
  c.note("registrar %s:%u, MASA %s:%u%s; %s; raw client of the %s%s, %d requests", rh.c_str(), e.rc.port, mh.c_str(), e.mc.port,
         masa_down ? " (down)" : "", enrol ? "enrolment" : "voucher request", to_masa ? "MASA" : "registrar",
         raw.allowed ? "" : " (not accepted)", n);
  {
    Live rl, ml;
    void **mslot = &none;
    struct Ends { // contexts are released after their servers have ended
      Live &rl, &ml;
      RegistrarContext *&r;
      MasaContext *&m;
      ~Ends() {
        rl.end(), ml.end();
        registrar_stop(r);
        masa_stop(m);
      }
    } ends{rl, ml, rctx, mctx};
    if (!masa_down) {
      // the context appears before the server listens
      mup = ml.begin([&] { return masa_start(&e.rc, &e.mc, &e.pc, &mctx); }, mslot, mh, (int)e.mc.port);
      if (mup)
        ml.srv = &mctx->srv_ctx;
    }
    rup = rl.begin([&] { return registrar_start(&e.rc, &e.mc, &rctx); }, &none, rh, (int)e.rc.port);
    if (rup) {
      rl.srv = &rctx->srv_ctx;
      snprintf(rctx->log_path, sizeof rctx->log_path, "%s", e.log_path().c_str());
    }
    if (rup && (mup || masa_down)) {
      if (!(to_masa && masa_down))
        raw.run();
      if (enrol)
        enrol_rc = post_sign_cert(&e.pc, &e.rc, &e.mc, &oc, &ok_);
      else
        pin_rc = post_voucher_pledge_request(&e.pc, &e.rc, &e.mc, &pin);
    }
  }
  Bytes pinned = bytes(&pin), cert = bytes(&oc), key = bytes(&ok_);
  free_binary_array_content(&pin), free_binary_array_content(&oc), free_binary_array_content(&ok_);
  REQUIRE(rup && (mup || masa_down), "start", "registrar %s, MASA %s", rup ? "up" : "down", mup ? "up" : "down");
  c.nontrivial();
  if (!enrol) {
    c.label(pin_rc == 0 ? "pinned" : "no-voucher");
    REQUIRE((pin_rc == 0) == expect_pin, "bootstrap", "the pledge reports %d, expected %s", pin_rc, expect_pin ? "success" : "failure");
    REQUIRE(pin_rc != 0 || pinned == e.domain.der, "bootstrap-pin", "another certificate was pinned");
    REQUIRE(pin_rc == 0 || pinned.empty(), "bootstrap-pin", "a failed request hands out %zu bytes", pinned.size());
  } else {
    bool want = expect_pin && pledge_trusts_domain;
    c.label(enrol_rc == 0 ? "enrolled" : "not-enrolled");
    REQUIRE((enrol_rc == 0) == want, "enrolment", "the pledge reports %d, expected %s", enrol_rc, want ? "success" : "failure");
    if (enrol_rc == 0) {
      auto x = parse_cert(cert);
      REQUIRE(x && signed_by(x.get(), e.domain_key->p), "enrolment-cert", "not issued by the domain authority");
      Key k = key_from_der(key);
      REQUIRE(k.p && X509_check_private_key(x.get(), k.p) == 1, "enrolment-key", "the certificate is not for the key");
      EVP_PKEY_free(k.p);
      // the audit line names the device that asked
      Bytes log;
      read_file(e.log_path(), log);
      std::string l = S(log);
      size_t lines = (size_t)std::count(l.begin(), l.end(), '\n'), own = 0;
      for (size_t i = 0; i < raw.reqs.size(); i++)
        own += raw.reqs[i].path == "/.well-known/est/simpleenroll" && raw.reqs[i].method == "POST" && raw.reqs[i].got.status == 200 && !to_masa;
      REQUIRE(lines == own + 1, "enrolment-log", "%zu log lines after %zu enrolments", lines, own + 1);
    }
  }
  if (to_masa && masa_down)
    return;
  for (size_t i = 0; i < raw.reqs.size(); i++) {
    Req &r = raw.reqs[i];
    std::string what = r.method + " " + r.path + " of the " + (to_masa ? "MASA" : "registrar");
    if (!raw.allowed) {
      REQUIRE(!r.got.ok, "unauthenticated", "%s was answered to a client without an accepted certificate", what.c_str());
      continue;
    }
    REQUIRE(r.connected && r.got.ok, "no-answer", "%s: no complete answer", what.c_str());
    if (r.got.status >= 400)
      REQUIRE(r.got.all("content-type") == std::vector<std::string>{"text/plain"}, "error-type", "%s: an error of type %s (%zu types)",
              what.c_str(), r.got.first("content-type").c_str(), r.got.all("content-type").size());
    if (!docs[i]) {
      REQUIRE(r.got.status == 404 && r.got.body == HTTP_ERROR_REPLY, "no-router-error", "%s: %s %s", what.c_str(), r.got.start.c_str(),
              pbt::quote(r.got.body).c_str());
      c.label("router-error");
    } else if (docs[i]->body && r.path == docs[i]->path) {
      REQUIRE(r.got.status == docs[i]->status && r.got.body == docs[i]->body, "documented", "%s: %s %s", what.c_str(), r.got.start.c_str(),
              pbt::quote(r.got.body).c_str());
      c.label("documented");
    }
  }
}

// ------------------------------------------------------- servers that cannot start
PROPERTY(C25, cannot_start, 5) {
  Estate e;
  gen_estate(e, s, Opt());
  bool masa = s.flip();
  std::string host = tls::fresh_host();
  char *&bind_ = masa ? e.mc.bind_address : e.rc.bind_address;
  bind_ = e.str(host);
  (masa ? e.mc.port : e.rc.port) = 1024 + (unsigned)s.below(60000);
  char *&cp = masa ? e.mc.tls_cert_path : e.rc.tls_cert_path;
  char *&kp = masa ? e.mc.tls_key_path : e.rc.tls_key_path;
  std::string what;
  int taken = -1;
  switch (s.below(7)) {
  case 0: what = "certificate " + break_file(s, cp); break;
  case 1: what = "key " + break_file(s, kp); break;
  case 2: what = "no certificate configured", cp = nullptr; break;
  case 3: what = "no key configured", kp = nullptr; break;
  case 4: what = "address of another host", bind_ = e.str("192.0.2.77"); break;
  case 5: what = "another's key", kp = e.str(put_key("other.key", ec(9))); break;
  default: what = "no address", bind_ = nullptr;
  }
  c.note("%s: %s", masa ? "MASA" : "registrar", what.c_str());
  RegistrarContext *r = nullptr;
  MasaContext *m = nullptr;
  int rc = masa ? masa_start(&e.rc, &e.mc, &e.pc, &m) : registrar_start(&e.rc, &e.mc, &r);
  masa_stop(m);
  registrar_stop(r);
  if (taken >= 0)
    close(taken);
  REQUIRE(rc < 0, "false-start", "it reports %d", rc);
  c.label(what);
  c.nontrivial();
}

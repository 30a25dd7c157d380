#include "net.hpp"
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
using namespace env;
namespace net {
std::vector<Server *> servers;
std::vector<Call> calls;
bool record = true;
std::function<bool(Call &)> on_request;
std::function<void(Call &)> on_response;
void reset() {
  for (auto s : servers)
    delete s;
  servers.clear();
  calls.clear();
  record = true;
  on_request = nullptr;
  on_response = nullptr;
}
Server *find(const std::string &host, int port) {
  for (auto s : servers)
    if (s->host == host && s->port == port)
      return s;
  return nullptr;
}
static X509 *load_pem(const std::string &path) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f)
    return nullptr;
  X509 *x = PEM_read_X509(f, nullptr, nullptr, nullptr);
  fclose(f);
  ERR_clear_error();
  return x;
}
int request(Server *sv, enum HTTP_METHOD m, const std::string &path,
            const std::string &body, const std::string &ctype, X509 *peer,
            std::map<std::string, std::string> &headers,
            std::string &response) {
  for (auto &r : sv->routes)
    if (r.path == path && r.method == m) {
      RequestHeader rh;
      rh["Content-Type"] = ctype;
      rh["Host"] = sv->host;
      ResponseHeader oh;
      int st = r.handle(rh, body, (CRYPTO_CERT)peer, oh, response, sv->ctx);
      headers.clear();
      for (auto &h : oh)
        headers[h.first] = h.second;
      if (st >= 400) // what the real server's error handler does
        headers["Content-Type"] = "text/plain";
      return st;
    }
  headers["Content-Type"] = "text/plain";
  response = HTTP_ERROR_REPLY;
  return 404;
}
static bool verify_server(X509 *leaf, const std::string &ca) {
  bool ok = false;
  BIO *b = BIO_new_mem_buf(ca.data(), (int)ca.size());
  X509_STORE *st = X509_STORE_new();
  X509 *x;
  while ((x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr))) {
    X509_STORE_add_cert(st, x);
    X509_free(x);
  }
  X509_STORE_CTX *sc = X509_STORE_CTX_new();
  X509_STORE_CTX_init(sc, st, leaf, nullptr);
  X509_STORE_CTX_set_default(sc, "ssl_server");
  ok = X509_verify_cert(sc) == 1;
  X509_STORE_CTX_free(sc);
  X509_STORE_free(st);
  BIO_free(b);
  ERR_clear_error();
  return ok;
}
static int deliver(Call &c, X509 **server_cert) {
  *server_cert = nullptr;
  if (record)
    calls.push_back(c);
  size_t me = calls.size() - 1;
  if (on_request && !on_request(c)) {
    if (record)
      calls[me] = c;
    return -1;
  }
  Server *sv = find(c.host, c.port);
  if (!sv)
    return -1;
  X509 *leaf = load_pem(sv->cert_path);
  X509 *peer = load_pem(c.cert_path);
  // TLS needs both certificates
  if (!leaf || !peer || (c.with_ca && !verify_server(leaf, c.ca))) {
    X509_free(leaf);
    X509_free(peer);
    if (record)
      calls[me] = c;
    return -1;
  }
  c.reached = true;
  c.status = request(sv, HTTP_METHOD_POST, c.path, c.body, c.content_type, peer,
                     c.headers, c.response);
  X509_free(peer);
  unsigned char *o = nullptr;
  int n = i2d_X509(leaf, &o);
  c.server_cert.assign(o, o + n);
  OPENSSL_free(o);
  X509_free(leaf);
  if (on_response)
    on_response(c);
  if (record)
    calls[me] = c;
  auto x = parse_cert(c.server_cert);
  if (x) {
    *server_cert = x.get();
    X509_up_ref(*server_cert);
  }
  return c.status;
}
} // namespace net

int httplib_start(struct http_config *config,
                  std::vector<struct RouteTuple> &routes, void *user_ctx,
                  void **srv_ctx) {
  *srv_ctx = nullptr;
  if (config->tls_cert_path == nullptr || config->tls_key_path == nullptr)
    return -1;
  auto s = new net::Server();
  s->host = config->bind_address ? config->bind_address : "";
  s->port = (int)config->port;
  s->cert_path = config->tls_cert_path;
  s->key_path = config->tls_key_path;
  s->has_client_ca = config->client_ca_cert_path != nullptr;
  s->client_ca = s->has_client_ca ? config->client_ca_cert_path : "";
  s->routes = routes;
  s->ctx = user_ctx;
  net::servers.push_back(s);
  *srv_ctx = s;
  return 0;
}
void httplib_stop(void *srv_ctx) {
  for (size_t i = 0; i < net::servers.size(); i++)
    if (net::servers[i] == srv_ctx) {
      delete net::servers[i];
      net::servers.erase(net::servers.begin() + (long)i);
      return;
    }
}
int httplib_post_request(const std::string &key, const std::string &cert,
                         const std::string &host, int port,
                         const std::string &path, bool verify,
                         const std::string &body,
                         const std::string &content_type,
                         struct HttpResponse &http_res) {
  net::Call c;
  c.key_path = key, c.cert_path = cert, c.host = host, c.port = port;
  c.path = path, c.verify = verify, c.body = body, c.content_type = content_type;
  X509 *sc;
  int st = net::deliver(c, &sc);
  if (st < 0) {
    X509_free(sc);
    return -1;
  }
  http_res.peer_certificate = (CRYPTO_CERT)sc;
  http_res.response = c.response;
  return st;
}
int httplib_post_request_ca(const std::string &key, const std::string &cert,
                            const std::string &ca, const std::string &host,
                            int port, const std::string &path,
                            const std::string &body,
                            const std::string &content_type,
                            std::string &response) {
  net::Call c;
  c.key_path = key, c.cert_path = cert, c.host = host, c.port = port;
  c.path = path, c.verify = true, c.body = body, c.content_type = content_type;
  c.ca = ca, c.with_ca = true;
  X509 *sc;
  int st = net::deliver(c, &sc);
  X509_free(sc);
  if (st < 0)
    return -1;
  response = c.response;
  return st;
}

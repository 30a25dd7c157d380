// A small TLS peer built on OpenSSL and sockets alone: an HTTP client that sends
// any bytes, and a server that answers with a script.  Addresses are taken from
// 127/8, a different one for every use, so that runs never meet.
#ifndef TLS_HPP
#define TLS_HPP
#include "engine/env.hpp"
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
namespace tls {
using namespace env;
const int WAIT_S = 40;
// 127.a.b.c from the process and a counter
inline std::string fresh_host() {
  static uint32_t n = 0, pid = 0;
  if (pid != (uint32_t)getpid())
    pid = (uint32_t)getpid(), n = 0;
  uint32_t v = ((pid * 2654435761u) >> 8) + (n++) * 7919u;
  return pbt::fmt("127.%u.%u.%u", 1 + v % 250, 1 + v / 250 % 250, 1 + v / 62500 % 250);
}
inline sockaddr_in addr_of(const std::string &host, int port) {
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  inet_pton(AF_INET, host.c_str(), &a.sin_addr);
  return a;
}
inline void timeouts(int fd) {
  timeval tv = {WAIT_S, 0};
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
  int one = 1;
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
inline int dial(const std::string &host, int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a = addr_of(host, port);
  if (connect(fd, (sockaddr *)&a, sizeof a) != 0) {
    close(fd);
    return -1;
  }
  timeouts(fd);
  return fd;
}
inline int accept_any(int, X509_STORE_CTX *) { return 1; }
// the key and certificates of one end
struct Ident {
  Cert cert;
  const Key *key = nullptr;
  std::vector<Cert> chain;
};
inline bool use(SSL_CTX *x, const Ident &id) {
  if (!id.key)
    return true;
  if (SSL_CTX_use_certificate(x, id.cert.x.get()) != 1 || SSL_CTX_use_PrivateKey(x, id.key->p) != 1)
    return false;
  for (auto &c : id.chain)
    SSL_CTX_add1_chain_cert(x, c.x.get());
  return true;
}
struct Message {
  bool ok = false; // complete
  std::string start;
  int status = 0;
  std::vector<std::pair<std::string, std::string>> headers; // names in lower case
  std::string body;
  bool closed = false; // the peer announced or made the end of the connection
  std::vector<std::string> all(const std::string &n) const {
    std::vector<std::string> r;
    for (auto &h : headers)
      if (h.first == n)
        r.push_back(h.second);
    return r;
  }
  std::string first(const std::string &n) const {
    auto v = all(n);
    return v.empty() ? "" : v[0];
  }
};
inline std::string lower(std::string s) {
  for (auto &ch : s)
    ch = (char)tolower((unsigned char)ch);
  return s;
}
inline std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// one connection, either end
struct Conn {
  int fd = -1;
  SSL *ssl = nullptr;
  SSL_CTX *ctx = nullptr; // owned when a client
  std::string in;
  Conn() {}
  Conn(const Conn &) = delete;
  ~Conn() { drop(); }
  void drop() {
    if (ssl) {
      SSL_shutdown(ssl);
      SSL_free(ssl);
    }
    SSL_CTX_free(ctx);
    if (fd >= 0)
      close(fd);
    ssl = nullptr, ctx = nullptr, fd = -1;
    in.clear();
    ERR_clear_error();
  }
  bool open_(const std::string &host, int port, const Ident &id) {
    drop();
    fd = dial(host, port);
    if (fd < 0)
      return false;
    ctx = SSL_CTX_new(TLS_client_method());
    if (!use(ctx, id))
      return false;
    ssl = SSL_new(ctx);
    SSL_set_fd(ssl, fd);
    bool ok = SSL_connect(ssl) == 1;
    ERR_clear_error();
    return ok;
  }
  bool accept_(int listener, SSL_CTX *sctx) {
    fd = accept4(listener, nullptr, nullptr, SOCK_CLOEXEC);
    if (fd < 0)
      return false;
    timeouts(fd);
    ssl = SSL_new(sctx);
    SSL_set_fd(ssl, fd);
    bool ok = SSL_accept(ssl) == 1;
    ERR_clear_error();
    return ok;
  }
  bool send(const std::string &d) {
    size_t p = 0;
    while (p < d.size()) {
      int n = SSL_write(ssl, d.data() + p, (int)std::min<size_t>(d.size() - p, 16384));
      if (n <= 0) {
        ERR_clear_error();
        return false;
      }
      p += (size_t)n;
    }
    return true;
  }
  bool more() {
    char b[16384];
    int n = SSL_read(ssl, b, sizeof b);
    ERR_clear_error();
    if (n <= 0)
      return false;
    in.append(b, (size_t)n);
    return true;
  }
  Bytes peer() {
    X509 *x = SSL_get1_peer_certificate(ssl);
    if (!x)
      return {};
    unsigned char *o = nullptr;
    int n = i2d_X509(x, &o);
    Bytes r(o, o + n);
    OPENSSL_free(o);
    X509_free(x);
    return r;
  }
  // reads one message; head_only: a message whose body is never sent
  Message read(bool head_only = false) {
    Message m;
    size_t e;
    while ((e = in.find("\r\n\r\n")) == std::string::npos)
      if (!more()) {
        m.closed = true;
        return m;
      }
    std::string head = in.substr(0, e + 2);
    in.erase(0, e + 4);
    size_t p = head.find("\r\n");
    m.start = head.substr(0, p);
    if (m.start.compare(0, 9, "HTTP/1.1 ") == 0)
      m.status = atoi(m.start.c_str() + 9);
    p += 2;
    while (p < head.size()) {
      size_t q = head.find("\r\n", p);
      std::string l = head.substr(p, q - p);
      size_t k = l.find(':');
      if (k != std::string::npos)
        m.headers.push_back({lower(trim(l.substr(0, k))), trim(l.substr(k + 1))});
      p = q + 2;
    }
    m.closed = lower(m.first("connection")) == "close";
    if (head_only) {
      m.ok = true;
      return m;
    }
    if (lower(m.first("transfer-encoding")) == "chunked") {
      for (;;) {
        size_t l;
        while ((l = in.find("\r\n")) == std::string::npos)
          if (!more())
            return m;
        size_t n = strtoul(in.c_str(), nullptr, 16);
        while (in.size() < l + 2 + n + 2)
          if (!more())
            return m;
        m.body += in.substr(l + 2, n);
        in.erase(0, l + 2 + n + 2);
        if (!n)
          break;
      }
    } else {
      size_t n = strtoul(m.first("content-length").c_str(), nullptr, 10);
      while (in.size() < n)
        if (!more()) {
          m.closed = true;
          return m;
        }
      m.body = in.substr(0, n);
      in.erase(0, n);
    }
    m.ok = true;
    return m;
  }
};
// does the chain verify as OpenSSL's TLS would
inline bool chain_ok(const Bytes &leaf, const std::vector<Bytes> &anchors, const char *purpose) {
  auto l = parse_cert(leaf);
  if (!l)
    return false;
  X509_STORE *st = X509_STORE_new();
  for (auto &a : anchors) {
    auto x = parse_cert(a);
    if (x)
      X509_STORE_add_cert(st, x.get());
  }
  X509_STORE_CTX *sc = X509_STORE_CTX_new();
  X509_STORE_CTX_init(sc, st, l.get(), nullptr);
  X509_STORE_CTX_set_default(sc, purpose);
  // the security level a connection has by default asks for keys of 80 bits and more
  bool ok = X509_verify_cert(sc) == 1;
  X509_STORE_CTX_free(sc);
  X509_STORE_free(st);
  ERR_clear_error();
  return ok;
}
} // namespace tls
#endif

// In-process transport: stands in for the cpp-httplib wrapper, so that the
// registrar and MASA servers and the pledge client run in one process, on the
// real route tables and handlers, with every message observable and mutable.
#ifndef NET_HPP
#define NET_HPP
#include "env.hpp"
#include "brski/http/http.hpp"
#include "brski/http/httplib_wrapper.hpp"
#include <functional>
namespace net {
struct Server {
  std::string host, cert_path, key_path, client_ca;
  bool has_client_ca = false;
  int port = 0;
  std::vector<RouteTuple> routes;
  void *ctx = nullptr;
};
struct Call {
  std::string host, path, body, content_type, key_path, cert_path, ca;
  int port = 0;
  bool verify = false, with_ca = false;
  // filled by delivery
  int status = -1;
  std::string response;
  std::map<std::string, std::string> headers;
  env::Bytes server_cert;
  bool reached = false; // a server handled it
};
void reset();
extern std::vector<Server *> servers;
extern std::vector<Call> calls;
extern bool record; // off: calls are not recorded (several threads)
// before delivery; return false to drop the request (transport failure)
extern std::function<bool(Call &)> on_request;
// after delivery, may change status/response/server_cert
extern std::function<void(Call &)> on_response;
// deliver straight to a server
int request(Server *sv, enum HTTP_METHOD m, const std::string &path,
            const std::string &body, const std::string &ctype, X509 *peer,
            std::map<std::string, std::string> &headers, std::string &response);
Server *find(const std::string &host, int port);
} // namespace net
#endif

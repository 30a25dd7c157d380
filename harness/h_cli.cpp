// C23: the command line tool, run as a process of an unprivileged user in the
// scratch folder, with generated command lines, configurations, inputs and
// output targets.
#include "harness/estate.hpp"
#include "harness/tls.hpp"
#include <fcntl.h>
#include <filesystem>
#include <grp.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace estate;

namespace {
const int FAULT = 77; // exit code of the sanitizers
int64_t real_now() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
  return t.tv_sec;
}
int tool_fd() {
  static int fd = -1;
  if (fd < 0)
    fd = open(getenv("BRSKI_BIN") ? getenv("BRSKI_BIN") : "", O_RDONLY | O_CLOEXEC);
  if (fd < 0) {
    fprintf(stderr, "BRSKI_BIN does not name the tool\n");
    _exit(2);
  }
  return fd;
}
struct Run {
  pid_t pid = -1, feeder = -1;
  bool timeout = false;
  int status = 0;
  Bytes out;
  std::string err;
  bool faulted() const { return timeout || WIFSIGNALED(status) || WEXITSTATUS(status) == FAULT; }
  bool ok() const { return !faulted() && WEXITSTATUS(status) == 0; }
  std::string what() const {
    std::string r = timeout ? "did not end" : WIFSIGNALED(status) ? pbt::fmt("was ended by signal %d", WTERMSIG(status))
                                                                  : pbt::fmt("exited with %d", WEXITSTATUS(status));
    if (faulted()) {
      size_t p = err.find("ERROR: ");
      if (p == std::string::npos)
        p = err.find("runtime error");
      r += "\n" + err.substr(p == std::string::npos ? 0 : p, 600);
    }
    return r;
  }
};
struct Io {
  std::string in = "/dev/null", out, feed; // feed: standard input is a pipe with this text
  size_t chunk = 0; // out empty: a file of the scratch folder
  bool close_out = false;
  bool pipe_out = false; // standard output is a pipe nobody reads
};
std::string spath(const std::string &n) { return pbt::scratch() + "/" + n; }
void open_scratch() {
  std::string p = pbt::scratch();
  chmod(p.c_str(), 0777);
  chmod(p.substr(0, p.rfind('/')).c_str(), 0711);
}
Run launch(const std::vector<std::string> &args, const Io &io, const std::string &tag) {
  Run r;
  int tool = tool_fd();
  std::string so = io.out.empty() ? spath(tag + ".out") : io.out, se = spath(tag + ".err");
  if (io.out.empty())
    unlink(so.c_str());
  unlink(se.c_str());
  int in = -1;
  pid_t feeder = -1;
  if (io.chunk) {
    int p[2];
    if (pipe2(p, O_CLOEXEC))
      _exit(2);
    in = p[0];
    feeder = fork();
    if (feeder == 0) { // writes in pieces
      signal(SIGPIPE, SIG_DFL);
      alarm(90);
      for (size_t i = 0; i < io.feed.size(); i += io.chunk) {
        if (write(p[1], io.feed.data() + i, std::min(io.chunk, io.feed.size() - i)) < 0)
          break;
        int left = 1; // the next piece once this one was taken
        for (int k = 0; left && k < 20000 && ioctl(p[1], FIONREAD, &left) == 0; k++)
          usleep(100);
        usleep(200);
      }
      _exit(0);
    }
    close(p[1]);
  } else
    in = open(io.in.c_str(), O_RDONLY | O_CLOEXEC);
  int out = -1;
  if (io.pipe_out) {
    int p[2];
    if (pipe2(p, O_CLOEXEC))
      _exit(2);
    close(p[0]);
    out = p[1];
  } else
    out = open(so.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
  int err = open(se.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644);
  std::vector<char *> av;
  for (auto &a : args)
    av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  std::string wd = pbt::scratch();
  char *env[] = {(char *)"ASAN_OPTIONS=detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1",
                 (char *)"UBSAN_OPTIONS=exitcode=77:print_stacktrace=1", (char *)"TZ=UTC0", (char *)"PATH=/usr/bin:/bin", nullptr};
  r.pid = fork();
  if (r.pid == 0) {
    setpgid(0, 0);
    dup2(in, 0), dup2(io.close_out ? -1 : out, 1), dup2(err, 2);
    if (io.close_out)
      close(1);
    if (chdir(wd.c_str()))
      _exit(97);
    struct rlimit z = {0, 0}, fs = {64u << 20, 64u << 20};
    setrlimit(RLIMIT_CORE, &z);
    setrlimit(RLIMIT_FSIZE, &fs);
    signal(SIGPIPE, SIG_DFL);
    alarm(90); // nothing outlives the check
    if (geteuid() == 0 && (setgroups(0, nullptr) || setgid(65534) || setuid(65534)))
      _exit(98);
    fexecve(tool, av.data(), env);
    _exit(99);
  }
  close(in), close(out), close(err);
  r.feeder = feeder;
  return r;
}
void finish(Run &r, const Io &io, const std::string &tag, bool stop = false) {
  for (int i = 0;; i++) {
    pid_t p = waitpid(r.pid, &r.status, WNOHANG);
    if (p == r.pid)
      break;
    if (stop || i > 60000) { // a minute
      r.timeout = !stop;
      kill(r.pid, SIGKILL);
      waitpid(r.pid, &r.status, 0);
      break;
    }
    usleep(i < 200 ? 500 : 1000);
  }
  if (r.feeder > 0) {
    kill(r.feeder, SIGKILL);
    waitpid(r.feeder, nullptr, 0);
  }
  if (io.out.empty())
    read_file(spath(tag + ".out"), r.out);
  Bytes e;
  read_file(spath(tag + ".err"), e);
  r.err = S(e);
}
Run run(const std::vector<std::string> &args, const Io &io = Io(), const std::string &tag = "cli") {
  Run r = launch(args, io, tag);
  finish(r, io, tag);
  return r;
}
std::string cmdline(const std::vector<std::string> &a) {
  std::string r;
  for (auto &x : a)
    r += (r.empty() ? "" : " ") + (x.size() > 60 ? x.substr(0, 20) + "..." + x.substr(x.size() - 20) : x);
  return r;
}
std::string list_lines(const char *key, const BinaryArrayList *l) {
  std::string r;
  for (auto &i : items(l))
    r += std::string(key) + " = \"" + (const char *)i.first.data() + "\"\n";
  return r;
}
std::string line(const char *key, const char *v) { return v ? std::string(key) + " = \"" + v + "\"\n" : ""; }
std::string config_time(Src &s) { // malformed, and the same in a configuration file
  for (;;) {
    std::string t = bad_time(s);
    if (t.find_first_of("\"\n\t#; \\'") == std::string::npos)
      return t;
  }
}
std::string conf_text(const Estate &e) {
  std::string t = "[pledge]\n";
  t += line("createdOn", e.pc.created_on) + line("serialNumber", e.pc.serial_number) + line("nonce", e.pc.nonce);
  t += line("idevidCertPath", e.pc.idevid_cert_path) + line("idevidKeyPath", e.pc.idevid_key_path);
  t += line("cmsSignCertPath", e.pc.cms_sign_cert_path) + line("cmsSignKeyPath", e.pc.cms_sign_key_path);
  t += list_lines("cmsAdditionalCertPath", e.pc.cms_add_certs_paths) + list_lines("cmsVerifyCertPath", e.pc.cms_verify_certs_paths) +
       list_lines("cmsVerifyStorePath", e.pc.cms_verify_store_paths);
  t += "[registrar]\n" + pbt::fmt("port = %u\n", e.rc.port) + line("bindAddress", e.rc.bind_address);
  t += line("tlsCertPath", e.rc.tls_cert_path) + line("tlsKeyPath", e.rc.tls_key_path);
  t += line("tlsCACertPath", e.rc.tls_ca_cert_path) + line("tlsCAKeyPath", e.rc.tls_ca_key_path);
  t += line("cmsSignCertPath", e.rc.cms_sign_cert_path) + line("cmsSignKeyPath", e.rc.cms_sign_key_path);
  t += list_lines("cmsAdditionalCertPath", e.rc.cms_add_certs_paths) + list_lines("cmsVerifyCertPath", e.rc.cms_verify_certs_paths) +
       list_lines("cmsVerifyStorePath", e.rc.cms_verify_store_paths);
  t += "[masa]\n" + pbt::fmt("port = %u\n", e.mc.port) + line("bindAddress", e.mc.bind_address) + line("expiresOn", e.mc.expires_on);
  t += line("ldevidCACertPath", e.mc.ldevid_ca_cert_path) + line("tlsCertPath", e.mc.tls_cert_path) + line("tlsKeyPath", e.mc.tls_key_path);
  t += line("cmsSignCertPath", e.mc.cms_sign_cert_path) + line("cmsSignKeyPath", e.mc.cms_sign_key_path);
  t += list_lines("cmsAdditionalCertPath", e.mc.cms_add_certs_paths) + list_lines("cmsVerifyCertPath", e.mc.cms_verify_certs_paths) +
       list_lines("cmsVerifyStorePath", e.mc.cms_verify_store_paths);
  return t;
}
std::string put_conf(const Estate &e) {
  std::string p = spath("brski.ini");
  write_file(p, conf_text(e));
  return p;
}
// where a command leaves its result
struct Target {
  std::vector<std::string> args; // -o
  std::string base;              // empty: standard output
  Io io;
  bool writable = true;
  std::string what = "stdout";
};
Target gen_target(Src &s, const std::vector<std::string> &suffixes) {
  Target t;
  switch (s.weighted({35, 30, 8, 6, 6, 5, 10, 4})) {
  case 0: return t;
  case 7: t.what = "pipe without reader", t.io.pipe_out = true, t.writable = false; return t;
  case 1: t.what = "file", t.base = spath("result" + std::to_string(s.below(3))); break;
  case 2: t.what = "full device", t.io.out = "/dev/full", t.writable = false; return t;
  case 3: t.what = "no folder", t.base = spath("absent/result"), t.writable = false; break;
  case 4: {
    t.what = "not writable", t.base = spath("mine"), t.writable = geteuid() != 0 ? true : false;
    std::string f = t.base + s.pick(suffixes);
    write_file(f, std::string("kept"));
    chmod(f.c_str(), 0444);
    break;
  }
  case 5: { // a folder of that name
    t.what = "folder", t.base = spath("folder"), t.writable = false;
    mkdir((t.base + s.pick(suffixes)).c_str(), 0777);
    break;
  }
  default: { // a long name
    size_t total = 180 + s.below(200);
    t.what = "long name";
    std::string p = pbt::scratch();
    while (p.size() + 110 < total) {
      p += "/" + std::string(100, 'd');
      mkdir(p.c_str(), 0777), chmod(p.c_str(), 0777);
    }
    p += "/" + std::string(total > p.size() + 1 ? total - p.size() - 1 : 1, 'n');
    t.base = p;
  }
  }
  t.args = {"-o", t.base};
  for (auto &x : suffixes)
    if (t.writable)
      unlink((t.base + x).c_str());
  return t;
}
bool text_b64(const std::string &line, Bytes &out) { return b64d(line, out); }
// the text of standard output up to the newline it ends with
bool out_line(const Bytes &o, std::string &l) {
  l = S(o);
  if (l.empty() || l.back() != '\n')
    return false;
  l.pop_back();
  return l.find('\n') == std::string::npos;
}
Bytes pem_file(const std::string &p) { // a certificate file
  Bytes b;
  if (!read_file(p, b))
    return Bytes();
  BIO *m = BIO_new_mem_buf(b.data(), (int)b.size());
  X509 *x = PEM_read_bio_X509(m, nullptr, nullptr, nullptr);
  Bytes r;
  if (x) {
    unsigned char *o = nullptr;
    int n = i2d_X509(x, &o);
    r.assign(o, o + n);
    OPENSSL_free(o);
  }
  X509_free(x);
  BIO_free(m);
  ERR_clear_error();
  return r;
}
EVP_PKEY *key_file(const std::string &p) {
  Bytes b;
  if (!read_file(p, b))
    return nullptr;
  BIO *m = BIO_new_mem_buf(b.data(), (int)b.size());
  EVP_PKEY *k = PEM_read_bio_PrivateKey(m, nullptr, nullptr, nullptr);
  BIO_free(m);
  ERR_clear_error();
  return k;
}
// options of the tool in any position and form
std::vector<std::string> arrange(Src &s, const std::string &command, const std::vector<std::vector<std::string>> &opts) {
  std::vector<std::vector<std::string>> v = opts;
  if (s.chance(20))
    v.push_back({"-d"});
  shuffle(s, v);
  size_t at = s.chance(70) ? v.size() : s.below(v.size() + 1);
  std::vector<std::string> r = {s.pick<std::string>({"brski", "/usr/bin/brski", "./brski"})};
  for (size_t i = 0; i <= v.size(); i++) {
    if (i == at)
      r.push_back(command);
    if (i < v.size()) {
      if (v[i].size() == 2 && s.chance(15))
        r.push_back(v[i][0] + v[i][1]);
      else
        r.insert(r.end(), v[i].begin(), v[i].end());
    }
  }
  return r;
}
void begin_case() {
  for (auto &x : std::filesystem::directory_iterator(pbt::scratch()))
    std::filesystem::remove_all(x.path());
  pbt::clock_set(real_now());
  open_scratch();
}
} // namespace

// ----------------------------------------------------------- the command line
PROPERTY(C23, command_line, 15) {
  begin_case();
  std::vector<std::string> a = {"brski"};
  std::string good = put_cert("some.crt", [&] {
    CertSpec p;
    p.subject = dn("x", "serial-1");
    return make_cert(p, ec(0)).der;
  }());
  enum { SERIAL, HELP, VERSION, FAIL } want;
  static const std::vector<std::string> WORDS = {"serials", "SERIAL", "seria", "export", "", "help", "epvr ", "version", "register", "--", "preq1"};
  int form = (int)s.weighted({10, 10, 15, 15, 10, 10, 10, 20});
  std::string bad_opt = s.pick<std::string>({"-x", "-z", "-1", "--help", "--config", "-C", "-?", "-:"});
  std::vector<std::string> g = {"-i", good};
  if (s.flip())
    g.insert(g.begin() + (s.flip() ? 2 : 0), "-d");
  switch (form) {
  case 0: want = HELP; break; // nothing at all
  case 1: a.push_back("-h"), want = HELP; break;
  case 2: { // help or version before or after good options and commands
    want = s.flip() ? HELP : VERSION;
    a.insert(a.end(), g.begin(), g.end());
    a.insert(a.begin() + (long)(s.flip() && a.size() == 3 ? 1 : a.size()), want == HELP ? "-h" : "-v");
    if (s.flip())
      a.push_back("serial");
    break;
  }
  case 3: { // no such command
    std::string w;
    do
      w = s.chance(60) ? s.pick(WORDS) : s.str("abcdefghijklmnopqrstuvwxyz", 1 + s.below(10));
    while (w == "epvr" || w == "preq" || w == "vmasa" || w == "sign" || w == "serial" || w == "registrar" || w == "masa" || w == "--");
    a.insert(a.end(), g.begin(), g.end());
    a.push_back(w), want = FAIL;
    break;
  }
  case 4: // an option without its argument
    a.insert(a.end(), g.begin(), g.end());
    a.push_back("serial"), a.push_back(s.pick<std::string>({"-c", "-i", "-o", "-p", "-a", "-di"})), want = FAIL;
    break;
  case 5: // no such option
    a.insert(a.end(), g.begin(), g.end());
    a.insert(a.begin() + (s.flip() ? 1 : (long)a.size()), bad_opt);
    a.push_back("serial"), want = FAIL;
    break;
  case 6: // options and no command
    a.insert(a.end(), g.begin(), g.end()), want = FAIL;
    break;
  default: {
    std::vector<std::vector<std::string>> o = {{"-i", good}};
    if (s.flip())
      o.push_back({"-o", spath("unused")});
    if (s.flip())
      o.push_back({"-p", std::to_string(s.below(65536))});
    if (s.flip())
      o.push_back({"-a", "127.0.0.1"});
    if (s.flip())
      o.push_back({"-c", spath("none")});
    a = arrange(s, "serial", o), want = SERIAL;
  }
  }
  c.note("%s", cmdline(a).c_str());
  c.nontrivial();
  Run r = run(a);
  c.label(want == SERIAL ? "command" : want == HELP ? "help" : want == VERSION ? "version" : "usage-error");
  REQUIRE(!r.faulted(), "fault", "%s %s", cmdline(a).c_str(), r.what().c_str());
  REQUIRE(r.ok() == (want != FAIL), want == FAIL ? "false-success" : "refused", "%s %s", cmdline(a).c_str(), r.what().c_str());
  std::string o = S(r.out);
  if (want == HELP)
    REQUIRE(o.find("Usage") != std::string::npos && o.find("registrar") != std::string::npos, "no-help", "no help text");
  if (want == VERSION)
    REQUIRE(o.find("brski version ") != std::string::npos, "no-version", "no version text");
  if (want == SERIAL && std::find(a.begin(), a.end(), "-d") == a.end())
    REQUIRE(o == "serial-1", "serial", "it prints %s", pbt::quote(o).c_str());
}

// ------------------------------------------------------------------- serial
PROPERTY(C23, serial, 12) {
  begin_case();
  CertSpec sp;
  std::string sn;
  for (int i = (int)s.below(4); i > 0; i--)
    sp.subject.push_back({s.pick<std::string>({"CN", "O", "OU", "C"}), "AB"});
  bool has = s.chance(75);
  if (has) {
    sn = s.chance(65) ? s.str("abcdefgXYZ0123456789 '()+,-./:=?", 1 + s.size(63)) : s.flip() ? s.str("%sdnxl5$*.-%c\"\\", 1 + s.size(40)) : gen_unicode(s, 20);
    size_t at = s.below(sp.subject.size() + 1);
    sp.subject.insert(sp.subject.begin() + (long)at, {"serialNumber", sn});
    sp.stypes.assign(sp.subject.size(), 0);
    sp.stypes[at] = NAME_RAW;
  }
  sp.issuer = s.flip() ? dn("issuer", "another") : dn("issuer");
  Cert x = make_cert(sp, ec(0));
  std::string f = put_cert("in.crt", x.der), what = "good";
  bool ok = has;
  std::vector<std::vector<std::string>> o = {{"-i", f}};
  if (s.chance(25)) {
    ok = false;
    switch (s.below(4)) {
    case 0: o.clear(), what = "no -i"; break;
    case 1: what = put_key("in.crt", ec(1)), what = "a key"; break;
    case 2: o = {{"-i", pbt::scratch()}}, what = "a folder"; break;
    default: what = break_file(s, f);
    }
  }
  Io io;
  if (s.chance(8))
    io.out = "/dev/full", ok = false, what += ", full device";
  if (s.flip())
    o.push_back({"-c", "/nonexistent"});
  auto a = arrange(s, "serial", o);
  c.note("%s; %s; serial %s", cmdline(a).c_str(), what.c_str(), pbt::quote(sn).c_str());
  c.label(ok ? "printed" : has ? "failure" : "no-serial");
  c.nontrivial();
  Run r = run(a, io);
  REQUIRE(!r.faulted(), "fault", "serial of %s %s", what.c_str(), r.what().c_str());
  REQUIRE(r.ok() == ok, ok ? "refused" : "false-success", "serial of %s %s", what.c_str(), r.what().c_str());
  bool verbose = std::find(a.begin(), a.end(), "-d") != a.end();
  if (ok)
    REQUIRE(S(r.out) == sn, "serial", "it prints %s, the certificate states %s", pbt::quote(S(r.out)).c_str(), pbt::quote(sn).c_str());
  else if (!verbose)
    REQUIRE(r.out.empty(), "printed-on-failure", "a failure prints %s", pbt::quote(S(r.out)).c_str());
}

// --------------------------------------------------------------------- epvr
PROPERTY(C23, epvr, 25) {
  begin_case();
  Estate e;
  Opt o;
  o.plain = true;
  gen_estate(e, s, o);
  VModel want = e.pledge_model(tm_from(0));
  bool dated = s.chance(60), ok = true;
  if (dated)
    want.time[T_CREATED] = gen_tm(s), e.pc.created_on = e.str(iso(want.time[T_CREATED]));
  std::string what = "good", conf;
  bool with_c = true;
  if (s.chance(35)) {
    ok = false;
    switch (s.below(9)) {
    case 0: with_c = false, what = "no -c"; break;
    case 1: what = "created-on", e.pc.created_on = e.str(config_time(s)); break;
    case 2: what = "registrar certificate " + break_file(s, e.rc.tls_cert_path); break;
    case 3: what = "no registrar certificate", e.rc.tls_cert_path = nullptr; break;
    case 4: what = "signing certificate " + break_file(s, e.pc.cms_sign_cert_path); break;
    case 5: what = "signing key " + break_file(s, e.pc.cms_sign_key_path); break;
    case 6: what = "nonce", e.pc.nonce = e.str("===="); break;
    case 7: what = "no serial number", e.pc.serial_number = nullptr; break;
    default: what = "no signing key", e.pc.cms_sign_key_path = nullptr;
    }
  }
  conf = put_conf(e);
  if (ok && s.chance(6)) {
    ok = false;
    unlink(conf.c_str()), what = "no configuration file";
  }
  Target t = gen_target(s, {".smime"});
  std::vector<std::vector<std::string>> opts;
  if (with_c)
    opts.push_back({"-c", s.chance(20) && what != "no configuration file" ? "brski.ini" : conf});
  if (!t.args.empty())
    opts.push_back(t.args);
  auto a = arrange(s, "epvr", opts);
  std::string f = t.base + ".smime";
  c.note("%s; %s; to %s (%zu)", cmdline(a).c_str(), what.c_str(), t.what.c_str(), f.size());
  c.label(what), c.label("to " + t.what);
  c.nontrivial();
  int64_t t0 = real_now();
  Run r = run(a, t.io);
  int64_t t1 = real_now();
  bool expect = ok && t.writable;
  REQUIRE(!r.faulted(), "fault", "epvr (%s, to %s) %s", what.c_str(), t.what.c_str(), r.what().c_str());
  bool may_fail = t.what == "long name"; // a name the system takes, but the tool may bound it
  REQUIRE(r.ok() == expect || (!r.ok() && may_fail), r.ok() ? "false-success" : "refused", "epvr (%s, to %s) %s", what.c_str(),
          t.what.c_str(), r.what().c_str());
  if (!r.ok()) {
    c.label("failure");
    bool verbose = std::find(a.begin(), a.end(), "-d") != a.end();
    REQUIRE(verbose || r.out.empty(), "printed-on-failure", "a failure prints %zu bytes", r.out.size());
    return;
  }
  c.label("exported");
  Bytes m;
  if (t.base.empty()) {
    std::string l;
    if (std::find(a.begin(), a.end(), "-d") != a.end()) { // the log goes elsewhere or comes before
      l = S(r.out);
      while (!l.empty() && l.back() == '\n')
        l.pop_back();
      l = l.substr(l.rfind('\n') == std::string::npos ? 0 : l.rfind('\n') + 1);
    } else
      REQUIRE(out_line(r.out, l), "not-a-line", "it prints %s", pbt::quote(S(r.out), 80).c_str());
    REQUIRE(text_b64(l, m), "not-base64", "it prints %s", pbt::quote(l, 80).c_str());
  } else {
    Bytes txt;
    REQUIRE(read_file(f, txt), "no-file", "success without the file (%zu)", f.size());
    BIO *b = BIO_new_mem_buf(txt.data(), (int)txt.size());
    CMS_ContentInfo *ci = SMIME_read_CMS(b, nullptr);
    if (ci) {
      unsigned char *p = nullptr;
      int n = i2d_CMS_ContentInfo(ci, &p);
      m.assign(p, p + (n > 0 ? n : 0));
      OPENSSL_free(p);
    }
    CMS_ContentInfo_free(ci);
    BIO_free(b);
    ERR_clear_error();
    REQUIRE(!m.empty(), "not-smime", "the file is not an S/MIME message");
  }
  if (!dated) { // the time of the run
    CmsInfo info = cms_info(m);
    VModel g;
    REQUIRE(vmodel_from_json(S(info.content), g, nullptr), "not-a-request", "%s", pbt::quote(S(info.content), 200).c_str());
    int64_t at = tm_to(g.time[T_CREATED]);
    REQUIRE(g.has_time[T_CREATED] && at >= t0 && at <= t1, "created-on", "it states %lld, now is %lld to %lld", (long long)at,
            (long long)t0, (long long)t1);
    want.time[T_CREATED] = g.time[T_CREATED];
  }
  check_out(c, m, want, e.pl.ch.leaf.der, e.pl.extra);
}

// -------------------------------------------------------------------- vmasa
PROPERTY(C23, vmasa, 28) {
  begin_case();
  Estate e;
  Opt o;
  o.plain = true;
  o.bad_pct = 8;
  gen_estate(e, s, o);
  VModel m = e.voucher_model(e.registrar_model(e.pledge_model(gen_tm(s)), B("x"), gen_tm(s)), e.domain.der);
  Cert reg = e.reg_tls;
  std::string what = "good";
  bool ok = e.ma.trusted;
  bool send = !e.nonce.empty();
  if (s.chance(40)) {
    bool fails = true;
    switch (s.below(7)) {
    case 0: m.serial = near_serial(s, m.serial), what = "other serial number", c.note("serial %s instead of %s", pbt::quote(m.serial).c_str(), pbt::quote(e.serial).c_str()); break;
    case 1:
      if (send)
        m.arr[A_NONCE] = near_bytes(s, m.arr[A_NONCE]), what = "other nonce";
      else
        m.has_arr[A_NONCE] = true, m.arr[A_NONCE] = gen_nonempty(s, 20), what = "nonce not asked for", fails = false;
      break;
    case 2: m.has_arr[A_NONCE] = false, m.arr[A_NONCE].clear(), what = "no nonce", fails = send; break;
    case 3: m.arr[A_PINNED] = unrelated(s, 1).der, what = "unrelated certificate pinned"; break;
    case 4: reg = unrelated(s, 2), what = "another registrar"; break;
    case 5: m.has_serial = false, m.serial.clear(), what = "no serial number"; break;
    default: m.has_arr[A_PINNED] = false, m.arr[A_PINNED].clear(), what = "nothing pinned";
    }
    ok = ok && !fails;
  }
  std::string json = vmodel_json(m);
  Bytes cms = e.sign(e.ma, json);
  if (s.chance(6) && tamper(s, cms, json))
    ok = false, what = "tampered";
  // standard input
  std::string text = wrap64(s, cms), inp = "text";
  switch (s.weighted({55, 15, 6, 5, 5, 14})) {
  case 0: break;
  case 1: text += "\n"; break;
  case 2: text = "", ok = false, inp = "nothing"; break;
  case 3: text = s.str("\x01\xff !=", 1 + s.size(300)), ok = false, inp = "noise"; break;
  case 4: text.resize(text.size() / 2), ok = false, inp = "half"; break;
  default: { // around the tool's buffer
    size_t n = 4096 - 3 + s.below(8);
    if (s.chance(10))
      n = 4096 * (1 + s.below(5)) + s.below(3);
    if (text.size() <= n) {
      text += std::string(n - text.size(), '\n');
      inp = pbt::fmt("%zu characters", n);
      if (ok && s.chance(20)) // what follows the voucher is no base64
        text += s.pick<std::string>({"A=A=A=", "=====A", "A=====\n", "!"}) + "====", ok = false, inp += " and more";
    }
  }
  }
  bool large = text.size() > 4096; // the tool may refuse it, and say so
  std::string inf = spath("stdin");
  write_file(inf, text);
  Target t = gen_target(s, {".crt"});
  t.io.in = inf;
  if (s.chance(30))
    t.io.feed = text, t.io.chunk = 200 + s.below(3000);
  else if (text.empty() && s.flip())
    t.io.in = pbt::scratch(); // cannot be read
  std::string regf = put_cert("reg.crt", reg.der), conf;
  bool with_i = true;
  if (s.chance(12)) {
    ok = false;
    switch (s.below(4)) {
    case 0: with_i = false, what += ", no -i"; break;
    case 1: what += ", registrar certificate " + break_file(s, regf); break;
    case 2: what += ", no serial number configured", e.pc.serial_number = nullptr; break;
    default: what += ", bad configured nonce", e.pc.nonce = e.str("====");
    }
  }
  conf = put_conf(e);
  std::vector<std::vector<std::string>> opts = {{"-c", conf}};
  if (with_i)
    opts.push_back({"-i", regf});
  if (!t.args.empty())
    opts.push_back(t.args);
  auto a = arrange(s, "vmasa", opts);
  std::string f = t.base + ".crt";
  c.note("%s; %s, %s; stdin %s (%zu%s); to %s (%zu)", cmdline(a).c_str(), what.c_str(), e.ma.trusted ? "trusted" : "not trusted", inp.c_str(),
         text.size(), t.io.chunk ? ", in pieces" : "", t.what.c_str(), f.size());
  c.label(what), c.label("to " + t.what);
  if (inp != "text")
    c.label("stdin " + std::string(inp.find("char") != std::string::npos ? (large ? "large" : "full buffer") : inp));
  c.nontrivial();
  Run r = run(a, t.io);
  bool expect = ok && t.writable;
  REQUIRE(!r.faulted(), "fault", "vmasa (%s; stdin %s; to %s) %s", what.c_str(), inp.c_str(), t.what.c_str(), r.what().c_str());
  bool may_fail = t.what == "long name" || large;
  REQUIRE(r.ok() == expect || (!r.ok() && may_fail), r.ok() ? "false-success" : "refused", "vmasa (%s; stdin %s; to %s) %s", what.c_str(),
          inp.c_str(), t.what.c_str(), r.what().c_str());
  bool verbose = std::find(a.begin(), a.end(), "-d") != a.end();
  if (!r.ok()) {
    c.label("failure");
    REQUIRE(verbose || r.out.empty(), "printed-on-failure", "a failure prints %zu bytes", r.out.size());
    Bytes left;
    if (!t.base.empty() && t.writable)
      REQUIRE(!read_file(f, left) || left.empty(), "file-on-failure", "a failure leaves %zu bytes", left.size());
    return;
  }
  c.label("pinned");
  Bytes got;
  if (t.base.empty()) {
    std::string l = S(r.out);
    if (verbose) {
      while (!l.empty() && l.back() == '\n')
        l.pop_back();
      l = l.substr(l.rfind('\n') == std::string::npos ? 0 : l.rfind('\n') + 1);
    } else
      REQUIRE(out_line(r.out, l), "not-a-line", "it prints %s", pbt::quote(S(r.out), 80).c_str());
    REQUIRE(text_b64(l, got), "not-base64", "it prints %s", pbt::quote(l, 80).c_str());
  } else
    got = pem_file(f);
  REQUIRE(got == m.arr[A_PINNED], "pin", "another certificate than the pinned one (%zu bytes)", got.size());
}

// ------------------------------------------------- servers and their clients
namespace {
struct Proc { // a server started with the tool
  Run r;
  Io io;
  std::string tag;
  bool alive = false;
  bool start(const std::vector<std::string> &args, const std::string &t, const std::string &host, int port) {
    tag = t;
    r = launch(args, io, tag);
    alive = true;
    for (int i = 0; i < 4000; i++) {
      if (waitpid(r.pid, &r.status, WNOHANG) == r.pid) {
        alive = false;
        return false;
      }
      int fd = tls::dial(host, port);
      if (fd >= 0) {
        close(fd);
        return true;
      }
      usleep(i < 200 ? 2000 : 10000);
    }
    return false;
  }
  // the server ends by a signal of ours only
  bool stop() {
    if (!alive)
      return false;
    alive = false;
    bool own = waitpid(r.pid, &r.status, WNOHANG) == r.pid;
    if (!own) {
      kill(r.pid, SIGKILL);
      waitpid(r.pid, &r.status, 0);
    }
    Bytes e;
    read_file(spath(tag + ".err"), e);
    r.err = S(e);
    return !own;
  }
  ~Proc() { stop(); }
};
} // namespace
PROPERTY(C23, servers, 12) {
  begin_case();
  Estate e;
  Opt o;
  o.plain = true, o.bad_pct = 3;
  gen_estate(e, s, o);
  std::string rh = tls::fresh_host(), mh = tls::fresh_host();
  unsigned rport = 1024 + (unsigned)s.below(60000);
  e.mc.bind_address = e.str(mh), e.mc.port = 1024 + (unsigned)s.below(60000);
  // the registrar's address comes from the file or from the command line
  bool opt_a = s.chance(30), opt_p = s.chance(30);
  e.rc.bind_address = e.str(opt_a ? "192.0.2.9" : rh);
  e.rc.port = opt_p ? 1 : rport;
  std::vector<std::vector<std::string>> base = {{"-c", put_conf(e)}};
  if (opt_a)
    base.push_back({"-a", rh});
  if (opt_p)
    base.push_back({"-p", std::to_string(rport)});
  bool masa_down = s.chance(10), reg_down = s.chance(6), sign = s.flip();
  bool expect = e.pl.trusted && e.rg.trusted && e.ma.trusted && !masa_down && !reg_down &&
                tls::chain_ok(e.reg_tls.der, {e.domain.der}, "ssl_client");
  if (sign)
    expect = expect && tls::chain_ok(e.reg_tls.der, {e.domain.der}, "ssl_server");
  std::string what = pbt::fmt("%s%s%s", sign ? "sign" : "preq", masa_down ? ", no MASA" : "", reg_down ? ", no registrar" : "");
  Target t = gen_target(s, sign ? std::vector<std::string>{".crt", ".key"} : std::vector<std::string>{".crt"});
  auto copts = base;
  if (!t.args.empty())
    copts.push_back(t.args);
  auto ra = arrange(s, "registrar", base), ma = arrange(s, "masa", {base[0]}), ca = arrange(s, sign ? "sign" : "preq", copts);
  c.note("%s; registrar %s:%u%s%s, MASA %s:%u; %s; to %s; trusted %d %d %d", cmdline(ca).c_str(), rh.c_str(), rport, opt_a ? " -a" : "",
         opt_p ? " -p" : "", mh.c_str(), e.mc.port, what.c_str(), t.what.c_str(), e.pl.trusted, e.rg.trusted, e.ma.trusted);
  c.nontrivial();
  Proc reg, masa;
  bool mup = masa_down || masa.start(ma, "masa", mh, (int)e.mc.port);
  bool rup = reg_down || reg.start(ra, "registrar", rh, (int)rport);
  Run r;
  if (mup && rup)
    r = run(ca, t.io);
  bool rown = reg.stop(), mown = masa.stop();
  REQUIRE(mup && (masa_down || mown), "server", "the MASA %s", masa.r.what().c_str());
  REQUIRE(rup && (reg_down || rown), "server", "the registrar %s", reg.r.what().c_str());
  REQUIRE(!r.faulted(), "fault", "%s (to %s) %s", what.c_str(), t.what.c_str(), r.what().c_str());
  expect = expect && t.writable;
  REQUIRE(r.ok() == expect || (!r.ok() && t.what == "long name"), r.ok() ? "false-success" : "refused", "%s (to %s) %s", what.c_str(),
          t.what.c_str(), r.what().c_str());
  bool verbose = std::find(ca.begin(), ca.end(), "-d") != ca.end();
  c.label(sign ? "sign" : "preq"), c.label(r.ok() ? "done" : "failure");
  if (!r.ok()) {
    REQUIRE(verbose || r.out.empty(), "printed-on-failure", "a failure prints %zu bytes", r.out.size());
    return;
  }
  if (!sign) {
    Bytes got;
    if (t.base.empty()) {
      std::string l = S(r.out);
      while (!l.empty() && l.back() == '\n')
        l.pop_back();
      text_b64(l.substr(l.rfind('\n') == std::string::npos ? 0 : l.rfind('\n') + 1), got);
    } else
      got = pem_file(t.base + ".crt");
    REQUIRE(got == e.domain.der, "pin", "another certificate than the pinned one (%zu bytes)", got.size());
    return;
  }
  Bytes cert;
  EVP_PKEY *k = nullptr;
  if (t.base.empty()) {
    std::vector<std::string> l;
    std::string x;
    for (char ch : S(r.out))
      if (ch == '\n')
        l.push_back(x), x.clear();
      else
        x += ch;
    REQUIRE(l.size() >= 2 && (verbose || l.size() == 2) && x.empty(), "not-two-lines", "it prints %zu lines", l.size());
    Bytes kb;
    REQUIRE(text_b64(l[l.size() - 2], cert) && text_b64(l[l.size() - 1], kb), "not-base64", "it prints %s", pbt::quote(S(r.out), 80).c_str());
    const uint8_t *p = kb.data();
    k = d2i_AutoPrivateKey(nullptr, &p, (long)kb.size());
  } else {
    cert = pem_file(t.base + ".crt");
    k = key_file(t.base + ".key");
  }
  auto x = parse_cert(cert);
  bool own = x && signed_by(x.get(), e.domain_key->p);
  bool pair = x && k && X509_check_private_key(x.get(), k) == 1;
  EVP_PKEY_free(k);
  ERR_clear_error();
  REQUIRE(own, "enrolled-cert", "not a certificate of the domain authority (%zu bytes)", cert.size());
  REQUIRE(pair, "enrolled-key", "the certificate is not for the key");
}

// ----------------------------------------- a registrar that answers anything
namespace {
// a TLS server of one process; the k-th connection is served by serve(k, conn)
struct Scripted {
  int listener = -1;
  SSL_CTX *ctx = nullptr;
  std::thread th;
  std::atomic<bool> stop{false};
  std::atomic<int> count{0};
  std::function<bool(int)> drop;             // closed before the handshake
  std::function<void(int, tls::Conn &)> serve;
  bool start(const std::string &h, int p, const Bytes &cert, const Key &key) {
    listener = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(listener, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a = tls::addr_of(h, p);
    if (bind(listener, (sockaddr *)&a, sizeof a) != 0 || listen(listener, 8) != 0)
      return false;
    ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, tls::accept_any);
    tls::Ident id;
    id.cert = cert_from(cert), id.key = &key;
    if (!tls::use(ctx, id))
      return false;
    uint64_t seed = rng_state();
    th = std::thread([this, seed] {
      rng_reseed(seed + 11);
      while (!stop) {
        pollfd p = {listener, POLLIN, 0};
        if (poll(&p, 1, 10) <= 0)
          continue;
        int k = count++;
        if (drop(k)) {
          int fd = accept4(listener, nullptr, nullptr, SOCK_CLOEXEC);
          close(fd);
          continue;
        }
        tls::Conn c;
        if (c.accept_(listener, ctx))
          serve(k, c);
      }
      ERR_clear_error();
      OPENSSL_thread_stop();
    });
    return true;
  }
  void end() {
    stop = true;
    if (th.joinable())
      th.join();
    if (listener >= 0)
      close(listener);
    listener = -1;
    SSL_CTX_free(ctx);
    ctx = nullptr;
  }
  ~Scripted() { end(); }
};
void abort_conn(tls::Conn &c) { // the connection is reset
  linger l = {1, 0};
  setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  SSL_set_quiet_shutdown(c.ssl, 1);
}
std::string http_answer(int status, const std::string &body) {
  return pbt::fmt("HTTP/1.1 %d %s\r\nContent-Type: text/plain\r\nContent-Length: %zu\r\n\r\n", status, status == 200 ? "OK" : "No", body.size()) + body;
}
} // namespace
PROPERTY(C23, peer, 16) {
  begin_case();
  signal(SIGPIPE, SIG_IGN);
  Estate e;
  Opt o;
  o.plain = true;
  gen_estate(e, s, o);
  std::string host = tls::fresh_host();
  e.rc.bind_address = e.str(host);
  e.rc.port = 1024 + (unsigned)s.below(60000);
  bool dated = s.flip(), sign = s.chance(60);
  struct tm when = tm_from(0);
  if (dated)
    when = gen_tm(s), e.pc.created_on = e.str(iso(when));
  std::string conf = put_conf(e);
  // one fault at one of the connections
  int where = (int)s.below(sign ? 3 : 2), how = (int)s.weighted({16, 6, 12, 12, 10, 6, 6, 6, 10, 4, 6, 6, 6, 6});
  bool fatal = true;
  static const char *HOW[] = {"none", "close before handshake", "close after handshake", "reset after handshake", "close after request",
                              "reset after request", "cut head", "short body", "error status", "garbage", "empty", "base64 bytes",
                              "no base64", "another's"};
  if (how == 0 || (where == 0 && (how == 8 || how >= 10)))
    fatal = false;
  int status = s.pick<int>({400, 401, 403, 404, 407, 413, 500, 502, 503, 505, 599});
  Bytes junk = s.bytes(1 + s.size(400));
  std::string nob = "?" + s.str("!%&", s.size(30));
  size_t cutat = s.below(1000000);
  const Key &other = ec(14);
  // what came
  std::vector<Bytes> peers;
  Bytes request, enrol, issued;
  std::string problem;
  bool trusting = tls::chain_ok(e.reg_tls.der, {e.domain.der}, "ssl_server");
  Scripted sv;
  sv.drop = [&](int k) { return k == where && how == 1; };
  sv.serve = [&](int k, tls::Conn &c) {
    peers.push_back(c.peer());
    bool hit = k == where;
    if (hit && how == 2)
      return;
    if (hit && how == 3)
      return abort_conn(c);
    tls::Message m = c.read();
    if (!m.ok) { // a client that does not trust the registrar leaves
      if (k < 2 || trusting)
        problem = pbt::fmt("an incomplete request %d", k);
      return;
    }
    std::string body;
    if (k == 0) {
      if (m.start != "POST /.well-known/brski/requestvoucher HTTP/1.1")
        problem = m.start;
      body = "pledge request expected";
    } else if (k == 1) {
      if (m.start != "POST /.well-known/brski/requestvoucher HTTP/1.1")
        problem = m.start;
      b64d(m.body, request);
      CmsInfo info = cms_info(request);
      VModel g;
      if (!vmodel_from_json(S(info.content), g, nullptr))
        problem = "no pledge request";
      VModel rm = e.registrar_model(g, request, tm_from(0));
      if (hit && how == 13)
        rm.serial += "0";
      body = b64(e.sign(e.ma, vmodel_json(e.voucher_model(rm, e.domain.der))));
    } else {
      if (m.start != "POST /.well-known/est/simpleenroll HTTP/1.1")
        problem = m.start;
      b64d(m.body, enrol);
      auto x = parse_cert(enrol);
      X509 *y = x ? X509_dup(x.get()) : nullptr;
      if (!y) {
        problem = "no certificate to enrol";
        return;
      }
      if (hit && how == 13)
        X509_set_pubkey(y, other.p);
      X509_set_issuer_name(y, X509_get_subject_name(e.domain.x.get()));
      X509_sign(y, e.domain_key->p, EVP_sha256());
      unsigned char *od = nullptr;
      int n = i2d_X509(y, &od);
      issued.assign(od, od + n);
      OPENSSL_free(od);
      X509_free(y);
      body = b64(issued);
    }
    std::string a = http_answer(k == 0 ? 400 : 200, body);
    if (hit)
      switch (how) {
      case 4: return;
      case 5: return abort_conn(c);
      case 6: a = a.substr(0, cutat % a.find("\r\n\r\n")); break;
      case 7: a.resize(a.size() - 1 - cutat % body.size()); break;
      case 8: a = http_answer(status, body); break;
      case 9: a = S(junk), a[0] = a[0] == 'H' ? 'X' : a[0]; break;
      case 10: a = http_answer(200, ""); break;
      case 11: a = http_answer(200, b64(junk)); break;
      case 12: a = http_answer(200, nob); break;
      }
    c.send(a);
  };
  REQUIRE(sv.start(host, (int)e.rc.port, e.reg_tls.der, *e.tls_key), "harness", "the scripted registrar does not start");
  bool expect = !fatal && (!sign || trusting);
  Target t = gen_target(s, sign ? std::vector<std::string>{".crt", ".key"} : std::vector<std::string>{".crt"});
  std::vector<std::vector<std::string>> copts = {{"-c", conf}};
  if (!t.args.empty())
    copts.push_back(t.args);
  auto ca = arrange(s, sign ? "sign" : "preq", copts);
  std::string what = pbt::fmt("%s, connection %d: %s%s", sign ? "sign" : "preq", where, HOW[how], how == 8 ? pbt::fmt(" %d", status).c_str() : "");
  c.note("%s; to %s", what.c_str(), t.what.c_str());
  c.nontrivial();
  int64_t t0 = real_now();
  Run r = run(ca, t.io);
  int64_t t1 = real_now();
  sv.end();
  bool verbose = std::find(ca.begin(), ca.end(), "-d") != ca.end();
  c.label(HOW[how]), c.label(r.ok() ? "done" : "failure");
  REQUIRE(!r.faulted(), "fault", "%s (to %s) %s", what.c_str(), t.what.c_str(), r.what().c_str());
  REQUIRE(problem.empty(), "request", "%s: the registrar got %s", what.c_str(), problem.c_str());
  expect = expect && t.writable;
  REQUIRE(r.ok() == expect || (!r.ok() && t.what == "long name"), r.ok() ? "false-success" : "refused", "%s (to %s) %s", what.c_str(),
          t.what.c_str(), r.what().c_str());
  for (auto &p : peers)
    REQUIRE(p == e.idevid.der, "client-identity", "the registrar saw another client certificate (%zu bytes)", p.size());
  if (!request.empty()) {
    CmsInfo info = cms_info(request);
    VModel g;
    REQUIRE(vmodel_from_json(S(info.content), g, nullptr), "not-a-request", "%s", pbt::quote(S(info.content), 200).c_str());
    int64_t at = tm_to(g.time[T_CREATED]);
    if (!dated)
      REQUIRE(g.has_time[T_CREATED] && at >= t0 && at <= t1, "created-on", "it states %lld, now is %lld to %lld", (long long)at,
              (long long)t0, (long long)t1);
    check_out(c, request, e.pledge_model(dated ? when : g.time[T_CREATED]), e.pl.ch.leaf.der, e.pl.extra);
  }
  if (fatal && where < 2)
    REQUIRE(enrol.empty(), "enrolled-anyway", "%s: an enrolment is asked for", what.c_str());
  if (!r.ok()) {
    REQUIRE(verbose || r.out.empty(), "printed-on-failure", "a failure prints %zu bytes", r.out.size());
    if (!t.base.empty() && t.writable && fatal) {
      Bytes left;
      for (const char *x : {".crt", ".key"})
        REQUIRE(!read_file(t.base + x, left) || left.empty(), "file-on-failure", "a failure leaves %zu bytes", left.size());
    }
    return;
  }
  std::vector<std::string> l;
  std::string x;
  for (char ch : S(r.out))
    if (ch == '\n')
      l.push_back(x), x.clear();
    else
      x += ch;
  if (!sign) {
    Bytes got;
    if (t.base.empty())
      text_b64(l.empty() ? "" : l.back(), got);
    else
      got = pem_file(t.base + ".crt");
    REQUIRE(got == e.domain.der, "pin", "another certificate than the pinned one (%zu bytes)", got.size());
    return;
  }
  Bytes cert;
  EVP_PKEY *k = nullptr;
  if (t.base.empty()) {
    Bytes kb;
    REQUIRE(l.size() >= 2 && text_b64(l[l.size() - 2], cert) && text_b64(l[l.size() - 1], kb), "not-base64", "it prints %s",
            pbt::quote(S(r.out), 80).c_str());
    const uint8_t *p = kb.data();
    k = d2i_AutoPrivateKey(nullptr, &p, (long)kb.size());
  } else {
    cert = pem_file(t.base + ".crt");
    k = key_file(t.base + ".key");
  }
  auto y = parse_cert(cert);
  bool pair = y && k && X509_check_private_key(y.get(), k) == 1;
  EVP_PKEY_free(k);
  ERR_clear_error();
  REQUIRE(cert == issued, "enrolled-cert", "not the certificate the registrar issued (%zu bytes)", cert.size());
  REQUIRE(pair, "enrolled-key", "the certificate is not for the key");
}

// ------------------------------------------------- servers that cannot start
PROPERTY(C23, unusable, 8) {
  begin_case();
  Estate e;
  Opt o;
  o.plain = true;
  gen_estate(e, s, o);
  bool masa = s.flip();
  (masa ? e.mc.bind_address : e.rc.bind_address) = e.str(tls::fresh_host());
  (masa ? e.mc.port : e.rc.port) = 1024 + (unsigned)s.below(60000);
  char *&cp = masa ? e.mc.tls_cert_path : e.rc.tls_cert_path;
  char *&kp = masa ? e.mc.tls_key_path : e.rc.tls_key_path;
  std::string what;
  bool with_c = true;
  switch (s.below(6)) {
  case 0: what = "certificate " + break_file(s, cp); break;
  case 1: what = "key " + break_file(s, kp); break;
  case 2: what = "no certificate configured", cp = nullptr; break;
  case 3: what = "no key configured", kp = nullptr; break;
  case 4: what = "address of another host", (masa ? e.mc.bind_address : e.rc.bind_address) = e.str("192.0.2.77"); break;
  default: what = "no -c", with_c = false;
  }
  std::vector<std::vector<std::string>> opts;
  std::string conf = put_conf(e);
  if (with_c)
    opts.push_back({"-c", conf});
  auto a = arrange(s, masa ? "masa" : "registrar", opts);
  c.note("%s; %s", cmdline(a).c_str(), what.c_str());
  c.label(what);
  c.nontrivial();
  Run r = run(a);
  REQUIRE(!r.faulted(), "fault", "%s %s", what.c_str(), r.what().c_str());
  REQUIRE(!r.ok(), "false-start", "%s %s", what.c_str(), r.what().c_str());
}

// Test environment shared by every harness: key fixtures, certificates and
// CMS objects built with OpenSSL directly (never through the code under
// test), reference codecs, and small adapters to the C types of the library.
#ifndef ENV_HPP
#define ENV_HPP
#include "pbt.hpp"
#include <cstdint>
#include <ctime>
#include <memory>
#include <openssl/cms.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <string>
#include <utility>
#include <vector>

extern "C" {
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"
#include "voucher/crypto.h"
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"
#include "voucher/voucher.h"
}

namespace env {
using pbt::Bytes;
using pbt::Ctx;
using pbt::Src;
typedef std::vector<std::pair<std::string, std::string>> Name;

void rng_reseed(uint64_t v);
uint64_t rng_state();
void rng_restore(uint64_t v);
void sys_init();
void init();
void begin(pbt::Src &s); // of every case // library level init, every process

inline Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }

// ------------------------------------------------------------- C adapters
struct BA { // exactly sized heap copy, so that ASAN sees every overread
  struct BinaryArray a;
  BA() { a.array = nullptr, a.length = 0; }
  BA(const Bytes &b) { set(b); }
  void set(const Bytes &b);
  ~BA();
  BA(const BA &) = delete;
  BA &operator=(const BA &) = delete;
  operator struct BinaryArray *() { return &a; }
};
struct Raw { // exactly sized heap copy as pointer
  uint8_t *p;
  size_t n;
  Raw(const Bytes &b, bool nul = false);
  ~Raw();
  Raw(const Raw &) = delete;
};
struct List {
  struct BinaryArrayList *l = nullptr;
  List(const std::vector<Bytes> &v, bool null_if_empty = true);
  List(const std::vector<std::pair<Bytes, int>> &v);
  ~List();
  List(const List &) = delete;
  operator struct BinaryArrayList *() { return l; }
};
Bytes bytes(const struct BinaryArray *a);
std::vector<std::pair<Bytes, int>> items(const struct BinaryArrayList *l);
Bytes take(struct BinaryArray *a); // copies and frees

// ------------------------------------------------------------------- keys
struct Key {
  Bytes der;
  EVP_PKEY *p = nullptr;
  bool rsa = false;
};
const int N_EC = 16, N_RSA = 4;
const Key &ec(int i);
const Key &rsa(int i);
const Key &p384();
Key key_from_der(const Bytes &der); // owned by caller (EVP_PKEY leaks)
bool same_key(EVP_PKEY *a, EVP_PKEY *b);

// ----------------------------------------------------------- certificates
enum { NAME_RAW = 255, NAME_SAME_RDN = 256 };
struct CertSpec {
  Name subject, issuer; // empty issuer: the signer's subject, or self
  Bytes serial = {1};
  int64_t nb = 0, na = 0; // absolute; 0 = now-1day / now+10y
  int ca = -1;            // -1 no basicConstraints, 0 CA:FALSE, 1 CA:TRUE
  int pathlen = -1;
  std::string ku;    // keyUsage
  std::string eku;   // extendedKeyUsage
  bool skid = false; // subjectKeyIdentifier
  bool akid = false; // authorityKeyIdentifier
  struct Ext {
    std::string oid; // as OBJ_txt2obj takes it
    bool critical;
    Bytes value; // DER
  };
  std::vector<Ext> more; // any further extensions
  // string types of the subject's and issuer's values: 0 as OpenSSL chooses,
  // otherwise a V_ASN1_ number; NAME_RAW takes the bytes as a UTF8String as
  // they are; + NAME_SAME_RDN joins the entry to the one before
  std::vector<int> stypes, itypes;
};
struct Cert {
  Bytes der;
  std::shared_ptr<X509> x;
  const Key *key = nullptr;
};
// signer==nullptr: self signed.  sign_key overrides the signing key.
Cert make_cert(const CertSpec &sp, const Key &key, const Cert *signer = nullptr,
               const Key *sign_key = nullptr);
Cert cert_from(const Bytes &der, const Key *key = nullptr);
std::shared_ptr<X509> parse_cert(const Bytes &der); // null when not a cert
Bytes make_crl(const Cert &ca, const std::vector<Bytes> &revoked_serials);
Name get_name(X509_NAME *n);
bool signed_by(X509 *x, EVP_PKEY *k);

// -------------------------------------------------------------------- CMS
Bytes cms_sign(const Bytes &data, const Cert &c, const Key &k,
               const std::vector<Cert> &extra = {}, bool attach = true,
               bool include_signer = true);
struct CmsInfo {
  bool ok = false;
  bool attached = false;
  Bytes content;
  std::vector<Bytes> certs;
  int n_signers = 0;
  bool sig_ok = false;      // signature valid with embedded + given certs
  std::vector<Bytes> signers; // resolved signer certs
  std::string econtent_oid;
};
CmsInfo cms_info(const Bytes &der, const std::vector<Bytes> &certs = {});

// --------------------------------------------------------- reference codecs
std::string b64(const Bytes &b);
// strict RFC 4648 decode: returns false if not canonical base64 text
bool b64d(const std::string &s, Bytes &out);
std::string iso(const struct tm &t);
struct tm tm_from(int64_t t);
int64_t tm_to(const struct tm &t);
bool iso_parse(const std::string &s, struct tm &t); // strict, proleptic

struct JV {
  enum T { NUL, BOOL, NUM, STR, OBJ, ARR } t = NUL;
  bool b = false;
  std::string s; // string value or number text
  std::vector<std::pair<std::string, JV>> o;
  std::vector<JV> a;
  const JV *get(const std::string &k) const;
};
bool json_parse(const std::string &txt, JV &out, std::string *err = nullptr);
std::string json_quote(const std::string &s);

// ------------------------------------------------------------ voucher model
struct VModel {
  bool has_time[3] = {false, false, false}; // created, expires, renewal
  struct tm time[3] = {};
  int assertion = 0;
  bool has_serial = false;
  std::string serial;
  bool has_arr[5] = {};
  Bytes arr[5]; // idevid issuer, pinned, nonce, prior, proximity
  bool drc = false;
};
extern const enum VoucherAttributes TIME_ATTRS[3];
extern const enum VoucherAttributes ARR_ATTRS[5];
enum { A_IDEVID, A_PINNED, A_NONCE, A_PRIOR, A_PROX };
enum { T_CREATED, T_EXPIRES, T_RENEWAL };
extern const char *ATTR_NAME[11];
extern const char *ASSERT_NAME[4];
// the model of a voucher document per RFC 8366, nullptr-safe
bool vmodel_from_json(const std::string &txt, VModel &m, std::string *err);
std::string vmodel_json(const VModel &m); // canonical document
// compare actual voucher through the public getters; empty string when equal
std::string vdiff(struct Voucher *v, const VModel &m);
struct Voucher *vbuild(const VModel &m); // through the public setters
std::string vdesc(const VModel &m);

// ------------------------------------------------------------------- files
void write_file(const std::string &path, const Bytes &b);
void write_file(const std::string &path, const std::string &s);
bool read_file(const std::string &path, Bytes &out);
std::string pem(const char *label, const Bytes &der);
std::string put_cert(const std::string &name, const Bytes &der); // -> path
std::string put_key(const std::string &name, const Key &k);      // -> path

// --------------------------------------------------------------- generators
std::string gen_serial(Src &s, size_t maxlen = 40);
std::string bad_time(Src &s, int *kind = nullptr); // no ISO time, never empty
std::string gen_odd_serial(Src &s, size_t maxlen = 40); // what a careless printer trips over
// at least one character of any plane of Unicode, in UTF-8
std::string gen_unicode(Src &s, size_t maxchars);
Bytes gen_nonempty(Src &s, size_t maxlen);
struct tm gen_tm(Src &s, int ylo = 1970, int yhi = 9999);
VModel gen_vmodel(Src &s, size_t maxarr = 200);
std::string gen_dn_value(Src &s, size_t maxlen = 24);
} // namespace env
#endif

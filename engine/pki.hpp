// Small public key infrastructure generator shared by the harnesses.
#ifndef PKI_HPP
#define PKI_HPP
#include "env.hpp"

namespace pki {
using namespace env;

inline const Key &any_key(Src &s, int slot, int rsa_pct = 8, int p384_pct = 6) {
  // slot keeps the roles' elliptic curve keys apart
  if (s.chance(rsa_pct))
    return rsa(slot);
  if (s.chance(p384_pct) && slot == 0)
    return p384();
  return ec(slot);
}
inline Name dn(const std::string &cn, const std::string &serial = "") {
  Name n = {{"C", "IE"}, {"CN", cn}};
  if (!serial.empty())
    n.push_back({"serialNumber", serial});
  return n;
}
// roles use disjoint serial numbers: an issuer never repeats one
inline Bytes few_serial(Src &s, int role = 1) {
  return {(uint8_t)(role * 16 + s.below(3))};
}
inline Bytes serial_bytes(Src &s) {
  if (s.chance(60))
    return few_serial(s);
  Bytes b = s.bytes(1 + s.size(7));
  b[0] &= 0x0f;
  if (!b[0])
    b[0] = 1;
  return b;
}
struct Chain { // leaf, intermediates (from the leaf upwards), root
  Cert leaf, root;
  std::vector<Cert> inter;
  const Key *leaf_key = nullptr;
  bool self_signed = false; // leaf == root
  std::vector<Bytes> inter_der() const {
    std::vector<Bytes> v;
    for (auto &c : inter)
      v.push_back(c.der);
    return v;
  }
};
// key slots: leaf at base, root at base+1, intermediates base+2..
inline Chain chain(Src &s, const std::string &tag, int base, int depth,
                   const Key &leaf_key, const Name &leaf_dn) {
  Chain ch;
  ch.leaf_key = &leaf_key;
  CertSpec lp;
  lp.subject = leaf_dn;
  lp.serial = serial_bytes(s);
  if (depth == 0) {
    ch.self_signed = true;
    lp.skid = s.flip();
    if (s.flip())
      lp.ca = s.flip();
    ch.leaf = ch.root = make_cert(lp, leaf_key);
    return ch;
  }
  CertSpec rp;
  rp.subject = dn(tag + "-root");
  rp.ca = 1;
  rp.skid = s.chance(70);
  rp.serial = few_serial(s, 7);
  if (depth == 2 && s.chance(8))
    depth += 1 + (int)s.below(s.chance(25) ? 12 : 3);
  const Key &rk = any_key(s, base + 1, 3, 0);
  ch.root = make_cert(rp, rk);
  Cert up = ch.root;
  std::vector<Cert> down;
  for (int i = 1; i < depth; i++) {
    CertSpec ip;
    ip.subject = dn(tag + "-inter" + std::to_string(i));
    ip.ca = 1;
    ip.skid = rp.skid;
    ip.akid = s.flip();
    ip.serial = few_serial(s, 6);
    up = make_cert(ip, ec(base + 1 + i), &up);
    down.push_back(up);
  }
  ch.inter.assign(down.rbegin(), down.rend());
  if (s.chance(30))
    lp.ca = 0;
  lp.skid = s.flip();
  lp.akid = s.flip();
  ch.leaf = make_cert(lp, leaf_key, &up);
  return ch;
}
inline Cert unrelated(Src &s, int i) {
  CertSpec p;
  p.subject = dn("unrelated-" + std::to_string(i));
  p.serial = few_serial(s);
  p.ca = s.flip();
  p.skid = s.flip();
  return make_cert(p, ec(12 + i % 4));
}
// bystanders: mostly none, now and then more than any built-in limit
inline std::vector<Bytes> crowd(Src &s, int pct = 8) {
  std::vector<Bytes> v;
  if (s.chance(pct))
    for (int i = 0, n = 8 + (int)s.below(s.chance(20) ? 150 : 40); i < n; i++)
      v.push_back(unrelated(s, 100 + i).der);
  return v;
}
template <class T> inline void shuffle(Src &s, std::vector<T> &v) {
  for (size_t i = v.size(); i > 1; i--)
    std::swap(v[i - 1], v[s.below(i)]);
}
inline bool same_set(std::vector<Bytes> a, std::vector<Bytes> b) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return a == b;
}
inline std::vector<Bytes> list_bytes(const struct BinaryArrayList *l) {
  std::vector<Bytes> r;
  for (auto &i : items(l))
    r.push_back(i.first);
  return r;
}
// random content: text, binary, line ends, empty
inline Bytes content(Src &s, size_t maxlen) {
  size_t n = s.chance(3)      ? 0
             : maxlen < 300 ? 1 + s.size(maxlen - 1)
                            : 1 + s.length(maxlen - 1, 200000);
  switch (s.weighted({40, 30, 15, 15})) {
  case 0:
    return B(s.str("{}\":,abcdefghij-0123456789 ", n));
  case 1:
    return s.bytes(n);
  case 2:
    return B(s.str("\r\n\t ab", n));
  default: {
    Bytes b = s.bytes(n);
    for (auto &x : b)
      if (x % 3 == 0)
        x = 0;
    return b;
  }
  }
}
inline Bytes mutate(Src &s, Bytes b, int maxops = 3) {
  int k = 1 + (int)s.below((uint64_t)maxops);
  for (int i = 0; i < k && !b.empty(); i++) {
    size_t p = s.below(b.size());
    switch (s.weighted({40, 25, 10, 10, 8, 7})) {
    case 0:
      b[p] ^= (uint8_t)(1u << s.below(8));
      break;
    case 1:
      b[p] = s.byte();
      break;
    case 2:
      b.insert(b.begin() + (long)p, s.byte());
      break;
    case 3:
      b.erase(b.begin() + (long)p);
      break;
    case 4:
      b.resize(p);
      break;
    default: { // swap two regions
      size_t q = s.below(b.size());
      std::swap(b[p], b[q]);
    }
    }
  }
  return b;
}
} // namespace pki
#endif

// C22 containers and bounded helpers.
#include "engine/env.hpp"
#include <cstring>
using namespace env;

PROPERTY(C22, array_list, 4) {
  int64_t before;
  int n = (int)s.length(40, 600);
  std::vector<std::pair<Bytes, int>> model;
  for (int i = 0; i < n; i++)
    model.push_back({gen_nonempty(s, 50), (int)(uint32_t)s.below(1ull << 32)});
  c.nontrivial(n >= 2);
  c.note("%d pushes", n);
  before = pbt::live_blocks();
  {
    struct BinaryArrayList *l = init_array_list();
    REQUIRE(l, "init", "NULL");
    for (int i = 0; i < n; i++) {
      Raw r(model[(size_t)i].first);
      REQUIRE(push_array_list(l, r.p, r.n, model[(size_t)i].second) == 0,
              "push-failed", "element %d", i);
      memset(r.p, 0xee, r.n);
      REQUIRE(dl_list_len(&l->list) == (unsigned)i + 1, "length",
              "%u after %d pushes", dl_list_len(&l->list), i + 1);
    }
    REQUIRE(push_array_list(l, nullptr, 4, 0) < 0, "null-accepted", "NULL array");
    uint8_t one = 1;
    REQUIRE(push_array_list(nullptr, &one, 1, 0) < 0, "null-accepted", "NULL list");
    auto got = items(l);
    REQUIRE(got == model, "contents", "list of %zu elements differs", got.size());
    got.clear();
    got.shrink_to_fit();
    free_array_list(l);
  }
  REQUIRE(pbt::live_blocks() == before, "leak", "%lld blocks left",
          (long long)(pbt::live_blocks() - before));
}
PROPERTY(C22, keyvalue_list, 4) {
  int n = (int)s.length(30, 400);
  std::vector<std::pair<std::string, std::string>> model;
  for (int i = 0; i < n; i++)
    model.push_back({s.str("abcXYZ\"\\ :=", s.length(20, 500)),
                     s.str("abcXYZ\"\\ :={}", s.length(60, 5000))});
  c.nontrivial(n >= 2);
  c.note("%d pushes", n);
  int64_t before = pbt::live_blocks();
  {
    struct keyvalue_list *l = init_keyvalue_list();
    REQUIRE(l, "init", "NULL");
    for (int i = 0; i < n; i++) {
      Raw k(B(model[(size_t)i].first), true), v(B(model[(size_t)i].second), true);
      REQUIRE(push_keyvalue_list(l, (char *)k.p, (char *)v.p) == 0,
              "push-failed", "element %d", i);
      memset(k.p, 'Q', k.n);
      memset(v.p, 'Q', v.n);
    }
    char x[] = "x";
    REQUIRE(push_keyvalue_list(l, nullptr, x) < 0 &&
                push_keyvalue_list(l, x, nullptr) < 0 &&
                push_keyvalue_list(nullptr, x, x) < 0,
            "null-accepted", "NULL argument accepted");
    REQUIRE(dl_list_len(&l->list) == (unsigned)n, "length", "%u of %d",
            dl_list_len(&l->list), n);
    size_t i = 0;
    struct keyvalue_list *el;
    dl_list_for_each(el, &l->list, struct keyvalue_list, list) {
      REQUIRE(i < model.size() && model[i].first == el->key &&
                  model[i].second == el->value,
              "contents", "element %zu differs", i);
      i++;
    }
    std::string want = "{";
    for (size_t j = 0; j < model.size(); j++)
      want += (j ? "," : "") + model[j].first + ":" + model[j].second;
    want += "}";
    char *js = serialize_keyvalue2json(l);
    if (n == 0)
      REQUIRE(js == nullptr, "empty-json", "an empty list gave %s", js);
    else {
      REQUIRE(js != nullptr && want == js, "json-text", "%s expected %s",
              js ? js : "NULL", want.c_str());
    }
    free(js);
    free_keyvalue_list(l);
  }
  REQUIRE(pbt::live_blocks() == before, "leak", "%lld blocks left",
          (long long)(pbt::live_blocks() - before));
}
PROPERTY(C22, binary_array, 4) {
  Bytes a = gen_nonempty(s, 60), b = a;
  int k = (int)s.below(5);
  if (k == 4 && s.chance(12)) // longer by exactly what a short counter loses
    b.resize(a.size() + (s.flip() ? 65536 : 256) * (1 + s.below(2)), s.byte());
  else if (k == 4 && s.flip() && b.size() > 1)
    std::swap(b[s.below(b.size())], b[s.below(b.size())]);
  else if (k == 1)
    b[s.below(b.size())] ^= (uint8_t)(1 << s.below(8));
  else if (k == 2)
    b.push_back(s.byte());
  else if (k == 3 && b.size() > 1)
    b.pop_back();
  BA x(a), y(b);
  bool eq = a == b;
  c.nontrivial(!eq);
  c.note("%s vs %s", pbt::hex(a).c_str(), pbt::hex(b).c_str());
  REQUIRE(compare_binary_array(x, y) == (eq ? 1 : 0), "compare", "%s vs %s: %d",
          pbt::hex(a).c_str(), pbt::hex(b).c_str(), compare_binary_array(x, y));
  REQUIRE(compare_binary_array(y, x) == (eq ? 1 : 0), "compare", "not symmetric");
  REQUIRE(compare_binary_array(nullptr, x) < 0 && compare_binary_array(x, nullptr) < 0,
          "compare-null", "NULL argument accepted");
  struct BinaryArray d = {nullptr, 0};
  REQUIRE(copy_binary_array(&d, x) == 0, "copy", "failed");
  REQUIRE(d.array != x.a.array, "copy-alias", "the copy shares its bytes");
  memset(x.a.array, 0xee, x.a.length);
  REQUIRE(bytes(&d) == a, "copy-value", "%s expected %s",
          pbt::hex(bytes(&d)).c_str(), pbt::hex(a).c_str());
  free_binary_array_content(&d);
  REQUIRE(d.array == nullptr && d.length == 0, "free-content", "not emptied");
  free_binary_array_content(&d); // twice is harmless
  REQUIRE(copy_binary_array(nullptr, x) < 0 && copy_binary_array(&d, nullptr) < 0,
          "copy-null", "NULL argument accepted");
}
PROPERTY(C22, strings, 6) {
  std::string t;
  switch (s.below(4)) { // plain, escaped, any byte, long
  case 0: t = s.str("abcdefgh ", s.size(40)); break;
  case 1: t = s.str("ab\"\\/\b\f\n\r\t\x01\x1f\x7f", s.size(40)); break;
  case 2: {
    size_t k = s.size(40);
    while (k--)
      t += (char)(1 + s.below(255));
    break;
  }
  default: t = s.str("xyz \"", s.length(40, 70000)); break;
  }
  Raw src(B(t), true);
  size_t n = 1 + (t.size() > 60 ? s.below(t.size() + 10) : s.below(50));
  c.note("%s size %zu", pbt::quote(t).c_str(), n);
  c.nontrivial(t.size() > 0);
  Raw dst(Bytes(n, 'Z'));
  size_t r = sys_strlcpy((char *)dst.p, (char *)src.p, n);
  REQUIRE(r == t.size(), "strlcpy-return", "returned %zu for length %zu", r, t.size());
  std::string want = t.substr(0, n - 1);
  REQUIRE(memchr(dst.p, 0, n) && want == (char *)dst.p, "strlcpy-text",
          "%s", pbt::quote(std::string((char *)dst.p, strnlen((char *)dst.p, n))).c_str());
  size_t m = t.size() > 60 ? s.below(t.size() + 10) : s.below(60);
  Raw bare(B(t)); // no terminator: reading must stop at m
  size_t mm = std::min(m, t.size());
  REQUIRE(sys_strnlen_s((char *)bare.p, mm) == mm, "strnlen", "unterminated");
  REQUIRE(sys_strnlen_s((char *)src.p, m) == std::min(m, t.size()) || m > t.size() + 1,
          "strnlen", "length");
  char *d = sys_strdup((char *)src.p);
  REQUIRE(d && t == d, "strdup", "%s", d);
  free(d);
  d = sys_strndup((char *)src.p, mm);
  REQUIRE(d && t.substr(0, mm) == d, "strndup", "%s", d);
  free(d);
  d = (char *)sys_memdup(bare.p, bare.n);
  REQUIRE(d && (bare.n == 0 || memcmp(d, bare.p, bare.n) == 0), "memdup", "differs");
  free(d);
  char *k = serialize_escapestr((char *)src.p);
  std::string doc = "[" + std::string(k ? k : "") + "]";
  JV jv;
  bool ok = k && json_parse(doc, jv) && jv.t == JV::ARR && jv.a.size() == 1 &&
            jv.a[0].t == JV::STR && jv.a[0].s == t;
  REQUIRE(ok, "escapestr", "%s gave %s", pbt::quote(t).c_str(), k ? k : "NULL");
  free(k);
}
PROPERTY(C22, hex, 4) {
  Bytes b = gen_nonempty(s, 40);
  size_t n = 1 + s.below(s.flip() ? 2 * b.size() + 4 : 100);
  int up = (int)s.below(2);
  Raw in(b), out(Bytes(n, 'Z'));
  size_t r = printf_hex((char *)out.p, n, in.p, in.n, up);
  std::string want;
  for (auto x : b)
    want += pbt::fmt(up ? "%02X" : "%02x", x);
  c.note("%zu bytes into %zu", b.size(), n);
  c.nontrivial(n <= want.size());
  c.label(n > want.size() ? "fits" : "cut");
  REQUIRE(memchr(out.p, 0, n), "hex-unterminated", "no terminator");
  std::string got((char *)out.p);
  REQUIRE(want.compare(0, got.size(), got) == 0, "hex-text", "%s expected %s",
          got.c_str(), want.c_str());
  REQUIRE(r <= n && r <= want.size() && r % 2 == 0 && got.size() >= r, "hex-return",
          "%zu", r);
  if (n > want.size())
    REQUIRE(got == want && r == want.size(), "hex-incomplete", "%s", got.c_str());
  else
    REQUIRE(got.size() + 2 >= n, "hex-short", "%s", got.c_str());
}

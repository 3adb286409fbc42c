// executable contracts of the index codec
#include <sol/pario/compress.h>
#include "bt.h"
using namespace sol; using namespace sol::math; using namespace sol::pario;
// the published format: each difference to the previous index in 7-bit groups, least significant first, bit 7 = more follows
static void enc(uint64_t v, std::string& o) { while (v >= 128) { o += char((v & 127) | 128); v >>= 7; } o += char(v); }
template <typename T> static void one(std::vector<T> v, int pre) {
  std::sort(v.begin(), v.end());
  bt::begin(bt::fmt("type=u%zu prefix=%d list=", sizeof(T) * 8, pre) + bt::list(v.data(), v.size()), !v.empty());
  Vector<T> x; Vector<char> c; Vector<T> y;
  for (T t : v) x.push_back(t);
  if (pre >= 0) { c.clear(); y.clear(); for (int i = 0; i < pre; ++i) { c.push_back(char(i)); y.push_back(T(i)); } }
  comp_index(x, c);
  size_t P = pre > 0 ? pre : 0;
  std::string e; uint64_t last = 0; for (T t : v) { enc((uint64_t)t - last, e); last = t; }
  EXPECT(c.size() == P + e.size(), "code length %zu, expected %zu", c.size(), P + e.size());
  for (size_t i = 0; i < P; ++i) EXPECT(c[i] == char(i), "code byte %zu before the appended codes changed", i);
  for (size_t i = 0; i < e.size(); ++i) EXPECT(c[P + i] == e[i], "code byte %zu is %d, expected %d", i, (unsigned char)c[P + i], (unsigned char)e[i]);
  EXPECT(e.size() <= 10 * v.size(), "code longer than ten bytes per index");
  Vector<char> d; for (char ch : e) d.push_back(ch);
  int r = decomp_index(d, y);
  EXPECT(r == 0, "an encoded list is refused with status %d", r);
  EXPECT(y.size() == v.size(), "%zu indexes decoded, expected %zu", y.size(), v.size());
  for (size_t i = 0; i < v.size(); ++i) EXPECT(y[i] == v[i], "index %zu is %llu, expected %llu", i, (unsigned long long)y[i], (unsigned long long)v[i]);
  for (size_t i = 0; i < v.size(); ++i) EXPECT(x[i] == v[i], "the encoded list itself changed at %zu", i);
  for (size_t i = 0; i < e.size(); ++i) EXPECT(d[i] == e[i], "the decoded codes changed at %zu", i);
}
// arbitrary bytes: no access outside (ASan), bytes unchanged, a cut-off number refused
template <typename T> static void junk(const std::string& e) {
  bt::begin(bt::fmt("type=u%zu bytes=", sizeof(T) * 8) + bt::list((const unsigned char*)e.data(), e.size()), !e.empty());
  // an exactly-sized buffer: reads past the end are seen by ASan
  Vector<char> d; Vector<T> y;
  d.resize(e.size()); for (size_t i = 0; i < e.size(); ++i) d[i] = e[i];
  if (e.size()) { char* b = new char[e.size()]; memcpy(b, e.data(), e.size()); delete[] d.storage_->begin_; d.storage_->begin_ = b; d.storage_->size_ = e.size(); }
  int r = decomp_index(d, y);
  EXPECT(r == 0 || r == Status_Invalid_Format, "unknown status %d", r);
  if (e.size() && (e.back() & 128)) EXPECT(r == Status_Invalid_Format, "codes that stop inside a number are accepted");
  EXPECT(y.size() <= e.size(), "%zu indexes from %zu bytes", y.size(), e.size());
  for (size_t i = 0; i < e.size(); ++i) EXPECT(d[i] == e[i], "the decoded codes changed at %zu", i);
  if (r == 0) { // strict reference decoder
    std::vector<uint64_t> ref; uint64_t last = 0; size_t i = 0; bool ok = true;
    while (i < e.size()) { uint64_t v = 0; int s = 0; while (i < e.size() && (e[i] & 128)) { if (s < 64) v |= (uint64_t)(e[i] & 127) << s; s += 7; ++i; if (s > 63) { ok = false; } } if (i < e.size()) { if (s < 64) v |= (uint64_t)(e[i] & 127) << s; ++i; } last += v; ref.push_back(last); }
    if (ok) { EXPECT(ref.size() == y.size(), "%zu indexes decoded, expected %zu", y.size(), ref.size()); for (size_t k = 0; k < ref.size(); ++k) EXPECT((T)ref[k] == y[k], "index %zu decoded as %llu, expected %llu", k, (unsigned long long)y[k], (unsigned long long)(T)ref[k]); }
  }
}
template <typename T> static T val() {
  int b = 1 + bt::below(sizeof(T) * 8); uint64_t m = b == 64 ? ~0ull : ((1ull << b) - 1);
  switch (bt::below(4)) { case 0: return T(m); case 1: return T((1ull << (b - 1)) - bt::below(2)); default: return T(bt::rnd() & m); }
}
template <typename T> static void go(double f) {
  std::vector<T> edges; for (size_t b = 0; b < sizeof(T) * 8; ++b) for (int d = -1; d <= 1; ++d) edges.push_back(T((1ull << b) + d));
  one<T>({}, -1); one<T>({}, 3);
  for (T e : edges) { one<T>({e}, 0); for (T g : edges) one<T>({e, g}, -1); }
  one<T>(edges, 2); { std::vector<T> big; for (int i = 0; i < 5000; ++i) big.push_back(val<T>()); one<T>(big, 1); }
  for (int l = 1; l <= 14; ++l) for (int t = 0; t < 2; ++t) { std::string s(l, char(0xff)); if (t) s.back() = 1; junk<T>(s); s = "\x05" + s; junk<T>(s); }
  junk<T>("");
  while (bt::more(f)) {
    std::vector<T> v; int n = bt::below(bt::chance(10) ? 400 : 12); int mode = bt::below(3); T cur = val<T>();
    for (int i = 0; i < n; ++i) { if (mode == 0) v.push_back(val<T>()); else if (mode == 1) v.push_back(cur); else { v.push_back(cur); T d = T(1) << bt::below(10); if (T(cur + d) > cur) cur += d; } }
    one<T>(v, (int)bt::below(6) - 1);
    std::string e; int l = bt::below(24); for (int i = 0; i < l; ++i) e += char(bt::chance(60) ? bt::rnd() | 128 : bt::rnd()); junk<T>(e);
  }
}
int main(int c, char** v) { bt::init(c, v); go<uint32_t>(.4); go<uint16_t>(.7); go<uint64_t>(1); return bt::finish(); }

// executable contracts of example sorting
#include <sol/pario/data_point.h>
#include <map>
#include "bt.h"
using namespace sol; using namespace sol::pario;
static void one(const std::vector<std::pair<index_t, real_t>>& v, label_t lab) {
  std::vector<index_t> ix; for (auto& p : v) ix.push_back(p.first);
  bt::begin(bt::fmt("label=%d n=%zu indexes=", lab, v.size()) + bt::list(ix.data(), ix.size()), v.size() > 1);
  DataPoint d; for (auto& p : v) d.AddNewFeat(p.first, p.second); d.set_label(lab);
  bool inc = true; for (size_t i = 1; i < v.size(); ++i) inc = inc && v[i - 1].first < v[i].first;
  EXPECT(d.IsSorted() == inc, "IsSorted says %d", (int)d.IsSorted());
  for (size_t i = 0; i < v.size(); ++i) EXPECT(d.index(i) == v[i].first && bt::same(d.feature(i), v[i].second), "feature %zu before sorting", i);
  DataPoint c = d.Clone(); EXPECT(c.size() == v.size() && c.label() == lab, "clone differs");
  d.Sort();
  EXPECT(d.label() == lab, "label became %d", d.label());
  EXPECT(d.size() == v.size() && d.indexes().size() == v.size() && d.features().size() == v.size(), "number of features became %zu", d.size());
  for (size_t i = 1; i < v.size(); ++i) EXPECT(d.index(i - 1) <= d.index(i), "not in order at %zu", i);
  typedef std::pair<index_t, uint32_t> P; std::vector<P> a, b;
  for (size_t i = 0; i < v.size(); ++i) { a.push_back(P(v[i].first, bt::bits(v[i].second))); b.push_back(P(d.index(i), bt::bits(d.feature(i)))); }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  EXPECT(a == b, "the pairs are not the ones given");
  for (size_t i = 0; i < v.size(); ++i) EXPECT(c.index(i) == v[i].first && bt::same(c.feature(i), v[i].second), "sorting changed a clone");
  inc = true; for (size_t i = 1; i < v.size(); ++i) inc = inc && d.index(i - 1) < d.index(i);
  EXPECT(d.IsSorted() == inc, "IsSorted after sorting");
}
int main(int ac, char** av) {
  bt::init(ac, av);
  for (int n = 0; n <= 6; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= n; for (int c = 0; c < tot; ++c) { std::vector<std::pair<index_t, real_t>> v; int x = c; for (int i = 0; i < n; ++i) { v.push_back({(index_t)(x % n), real_t(i + 1)}); x /= n; } one(v, c & 1 ? 1 : -1); } }
  for (index_t e : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (index_t f : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (index_t g : {0u, 0x80000000u, 0xffffffffu}) one({{e, 1}, {f, 2}, {g, 3}}, 7);
  while (bt::more()) {
    int n = bt::below(bt::chance(5) ? 3000 : bt::chance(30) ? 200 : 15); uint64_t m = bt::chance(50) ? 1 + bt::below(n + 1) : bt::chance(50) ? 1ull << 32 : 1ull << 31;
    std::vector<std::pair<index_t, real_t>> v; int mode = bt::below(4);
    for (int i = 0; i < n; ++i) v.push_back({mode == 1 ? (index_t)(n - i) : mode == 2 ? (index_t)i : (index_t)bt::below(m), (real_t)(bt::chance(50) ? i : bt::below(3))});
    if (mode == 2 && n > 2) std::swap(v[bt::below(n)], v[bt::below(n)]);
    one(v, (label_t)bt::rnd());
  }
  return bt::finish();
}

// executable contract of the top-K heap against a set of members
#include "bt.h"
#include <set>
#include <stdexcept>
#include <sol/util/heap.h>
using namespace sol;
template <class H, bool MX> struct Run {
  H h; std::vector<float> v; std::set<index_t> in; std::string log; index_t N, K; bool ok = true;
  static bool less(float a, float b) { return MX ? a > b : a < b; }        // a is worse than b
  void check(const char* after, bool best) {
    EXPECT(h.K() == K, "%s: capacity", after);
    std::set<index_t> seen;
    for (index_t p = 0; p < K; ++p) { index_t id = h.pos2id_map_[p]; EXPECT(id < N && in.count(id) && seen.insert(id).second, "%s: position %u holds %u, not one of the selected features or held twice", after, p, id); EXPECT(h.get_pos(id) == p, "%s: feature %u is at %u but its position says %u", after, id, p, h.get_pos(id));
      EXPECT(h.value_by_pos(p) == v[id], "%s: value at %u", after, p); if (p) EXPECT(!less(v[id], v[h.pos2id_map_[(p - 1) / 2]]), "%s: heap order broken at position %u", after, p); EXPECT(!less(v[id], h.value_by_pos(0)), "%s: the top is not the worst selected feature", after); }
    for (index_t i = 0; i < N; ++i) { EXPECT(h.isTopK(i) == (in.count(i) > 0), "%s: isTopK(%u) is %d", after, i, (int)h.isTopK(i)); if (best && !in.count(i)) EXPECT(!less(h.value_by_pos(0), v[i]), "%s: feature %u outside is better than the worst selected one", after, i); }
    ok = true;
  }
  void init(index_t n, index_t k, bool given) {
    N = n; K = k; std::vector<index_t> id(k); for (index_t i = 0; i < k; ++i) id[i] = i; in.clear();
    if (given) { std::vector<index_t> all(n); for (index_t i = 0; i < n; ++i) all[i] = i; for (index_t i = 0; i < k; ++i) { std::swap(all[i], all[i + bt::below(n - i)]); id[i] = all[i]; } }
    for (auto x : id) in.insert(x); log = bt::fmt("%s heap N=%u K=%u ", MX ? "max" : "min", N, K) + bt::list(v.data(), N) + (given ? " members " + bt::list(id.data(), k) : ""); bt::begin(log); ok = false;
    if (given) h.Init(n, k, id.data(), v.data()); else h.Init(n, k, v.data()); check("after Init", false);
  }
  bool best() { for (index_t i = 0; i < N; ++i) if (!in.count(i)) for (auto j : in) if (less(v[j], v[i])) return false; return true; }
  void update(index_t i) { bool was = best(); update_(i, was); }
  void update_(index_t i, bool was) {
    log += bt::fmt(" update(%u=%.9g)", i, v[i]); bt::begin(log); ok = false; index_t w = in.count(i) ? 0 : h.pos2id_map_[0]; index_t r = h.UpdateHeap(i);
    if (in.count(i)) EXPECT(r == invalid_index, "updating a selected feature returned %u", r);
    else if (less(v[w], v[i])) { EXPECT(r == w, "%u was the worst selected feature but %u left", w, r); in.erase(w); in.insert(i); }
    else EXPECT(r == i, "feature %u is no better but %u was returned", i, r);
    check("after UpdateHeap", was);
  }
  void sink(index_t i, float x) { log += bt::fmt(" better(%u: %.9g)", i, x); v[i] = x; bt::begin(log); ok = false; h.AdjustHeap(h.get_pos(i), K - 1); check("after AdjustHeap", best()); }
  void rebuild() { log += " rebuild " + bt::list(v.data(), N); bt::begin(log); ok = false; h.BuildHeap(); check("after BuildHeap", best()); }
};
static const float VAL[] = {0, 1, -1, 2, 2, 5, -0.f, 1e30f, -1e30f, 1e-40f, 3, 4};
template <class H, bool MX> static void small() {          // every array of three values, every K, every single update
  for (index_t N = 1; N <= 6; ++N) { int tot = 1; for (index_t i = 0; i < N; ++i) tot *= 3; for (index_t K = 1; K <= N; ++K) for (int c = 0; c < tot; ++c) {
    std::vector<float> v(N); int x = c; for (auto& f : v) f = x % 3, x /= 3;
    for (index_t i = 0; i < N; ++i) { Run<H, MX> r; r.v = v; r.init(N, K, false); if (!r.ok) return; r.update(i); if (!r.ok) return; }
    for (index_t i = 0; i < K; ++i) for (int d = 1; d < 3; ++d) { Run<H, MX> r; r.v = v; r.init(N, K, false); if (!r.ok) return; r.sink(i, v[i] + (MX ? -d : d)); if (!r.ok) return; } } }
}
template <class H, bool MX> static void random() {
  Run<H, MX> r; index_t N = 1 + bt::below(bt::chance(20) ? 200 : 12), K = 1 + bt::below(N); int kind = bt::below(3); r.v.reserve(4096); auto val = [&] { return kind == 0 ? VAL[bt::below(12)] : kind == 1 ? (float)bt::below(5) : (float)(bt::unit() * 4 - 2); };
  for (index_t i = 0; i < N; ++i) r.v.push_back(val()); r.init(N, K, bt::chance(40)); if (!r.ok) return;
  int n = bt::below(40); for (int k = 0; k < n && r.ok; ++k) { int op = bt::below(10);
    if (op < 5) { index_t i = bt::below(r.N); if (!r.in.count(i)) r.v[i] = val(); r.update(i); }
    else if (op < 8) { index_t i = r.h.pos2id_map_[bt::below(K)]; float x = val(); if (Run<H, MX>::less(r.v[i], x) || x == r.v[i]) r.sink(i, x); }
    else if (op < 9) { for (index_t i = 0; i < r.N; ++i) if (bt::chance(50)) r.v[i] = val(); r.rebuild(); }
    else { index_t m = r.N + bt::below(5); while (r.v.size() < m) r.v.push_back(val()); r.log += bt::fmt(" N=%u", m); bt::begin(r.log); std::vector<float> w = r.v; w.swap(r.v); r.h.set_N(m, r.v.data()); r.N = m; r.v.reserve(4096); r.h.set_N(m, r.v.data()); r.check("after set_N", false);
      if (m > 1) { bool t = false; try { r.h.set_N(m - 1, r.v.data()); } catch (std::invalid_argument&) { t = true; } if (!t) bt::fail("the number of features was allowed to decrease"); } } }
}
int main(int c, char** v) { bt::init(c, v); small<MinHeap, false>(); small<MaxHeap, true>(); while (bt::more()) { random<MinHeap, false>(); random<MaxHeap, true>(); } return bt::finish(); }

// executable contracts of Vector, Matrix, SVector
#include <new>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
#include <memory>
#include "bt.h"
using namespace sol; using namespace sol::math;
// handles over a pool of models: model = contents + capacity lower bound; several handles share one model
template <typename T> struct Model { std::vector<T> v; size_t cap = 0; };
template <typename T> static T gen() { return T(1 + bt::below(100)); }
template <typename T> static void vec_ops(int steps) {
  typedef Vector<T> V;
  std::string log = bt::fmt("Vector elem=%zu ops:", sizeof(T));
  const int H = 4;
  std::vector<V*> h(H, nullptr); std::vector<std::shared_ptr<Model<T>>> m(H);
  for (int s = 0; s < steps; ++s) {
    int i = bt::below(H), j = bt::below(H), op = bt::below(12);
    log += bt::fmt(" %d/%d,%d", op, i, j); bt::begin(log);
    if (!h[i]) {
      if (op < 4) { h[i] = new V(); m[i] = nullptr; }
      else if (op < 7) { size_t n = bt::below(9); h[i] = new V(n); m[i] = std::make_shared<Model<T>>(); m[i]->v.assign(n, T(0)); }
      else if (h[j]) { h[i] = new V(*h[j]); m[i] = m[j]; }
      continue;
    }
    V& v = *h[i];
    auto need = [&]() { if (!m[i]) m[i] = std::make_shared<Model<T>>(); };
    switch (op) {
      case 0: case 1: case 2: { need(); T x = gen<T>(); v.push_back(x); m[i]->v.push_back(x); break; }
      case 3: { need(); size_t n = bt::below(40); size_t c0 = v.size() ? v.capacity() : 0; (void)c0; std::vector<T> all; if (v.storage_) all.assign(v.storage_->begin_, v.storage_->begin_ + v.storage_->size_);
        v.resize(n); EXPECT(v.size() == n, "resize to %zu gives size %zu", n, v.size()); EXPECT(v.capacity() >= n && v.capacity() >= all.size(), "capacity %zu after resize to %zu, before %zu", v.capacity(), n, all.size());
        for (size_t k = 0; k < v.capacity(); ++k) { T e = k < all.size() ? all[k] : T(0); EXPECT(v.storage_->begin_[k] == e, "after resize to %zu slot %zu is not what it was (or zero)", n, k); }
        size_t o = m[i]->v.size(); m[i]->v.resize(n); for (size_t k = o; k < n; ++k) m[i]->v[k] = v[k]; break; }
      case 4: { if (m[i] && m[i]->v.size()) { v.pop_back(); m[i]->v.pop_back(); } else if (v.storage_) { bool th = false; try { v.pop_back(); } catch (std::runtime_error&) { th = true; } EXPECT(th, "pop_back of an empty vector did not throw"); } break; }
      case 5: { need(); v.clear(); m[i]->v.clear(); break; }
      case 6: { need(); size_t n = bt::below(50), c = v.storage_ ? v.capacity() : 0; std::vector<T> all; if (v.storage_) all.assign(v.storage_->begin_, v.storage_->begin_ + c); v.reserve(n); EXPECT(v.capacity() == std::max(n, c), "reserve %zu: capacity %zu, before %zu", n, v.capacity(), c);
        for (size_t k = 0; k < v.capacity(); ++k) EXPECT(v.storage_->begin_[k] == (k < c ? all[k] : T(0)), "reserve changed slot %zu", k); break; }
      case 7: case 8: if (h[j]) { *h[i] = *h[j]; m[i] = m[j]; } break;
      case 9: delete h[i]; h[i] = nullptr; m[i] = nullptr; break;
      case 10: if (m[i] && m[i]->v.size()) { size_t k = bt::below(m[i]->v.size()); T x = gen<T>(); v[k] = x; m[i]->v[k] = x; } break;
      case 11: { if (m[i] && m[i]->v.size()) { v.push_back(v[0]); m[i]->v.push_back(m[i]->v[0]); } break; }
    }
    for (int a = 0; a < H; ++a) if (h[a]) {
      size_t n = m[a] ? m[a]->v.size() : 0;
      EXPECT(h[a]->size() == n, "handle %d has size %zu, expected %zu", a, h[a]->size(), n);
      EXPECT((size_t)(h[a]->end() - h[a]->begin()) == n, "handle %d: begin..end spans %zd", a, h[a]->end() - h[a]->begin());
      for (size_t k = 0; k < n; ++k) EXPECT((*h[a])[k] == m[a]->v[k], "handle %d element %zu differs", a, k);
      if (m[a]) { int c = 0; for (int b = 0; b < H; ++b) c += h[b] && m[b] == m[a]; EXPECT(h[a]->count_ && *h[a]->count_ == c, "handle %d: reference count is not the number of handles %d", a, c);
        for (int b = 0; b < H; ++b) if (h[b] && m[b]) EXPECT((h[b]->storage_ == h[a]->storage_) == (m[b] == m[a]), "handles %d and %d share storage wrongly", a, b); }
    }
  }
  for (auto p : h) delete p;
}
static void svec_ops(int steps) {
  typedef SVector<real_t> V; typedef std::vector<std::pair<index_t, real_t>> M;
  std::string log = "SVector ops:"; const int H = 3;
  std::vector<V*> h(H, nullptr); std::vector<std::shared_ptr<M>> m(H);
  for (int s = 0; s < steps; ++s) {
    int i = bt::below(H), j = bt::below(H), op = bt::below(9);
    log += bt::fmt(" %d/%d,%d", op, i, j); bt::begin(log);
    if (!h[i]) { if (op < 4 || !h[j]) { h[i] = new V(); m[i] = nullptr; } else { h[i] = new V(*h[j]); m[i] = m[j]; } continue; }
    V& v = *h[i]; auto need = [&]() { if (!m[i]) m[i] = std::make_shared<M>(); };
    switch (op) {
      case 0: case 1: case 2: { need(); index_t x = bt::rnd(); real_t y = bt::unit(); v.push_back(x, y); m[i]->push_back({x, y}); break; }
      case 3: { need(); size_t n = bt::below(20), o = m[i]->size(); v.resize(n); m[i]->resize(n); for (size_t k = o; k < n; ++k) (*m[i])[k] = {v.index(k), v.value(k)}; EXPECT(v.indexes().size() == n && v.values().size() == n, "resize to %zu", n); break; }
      case 4: need(); v.clear(); m[i]->clear(); break;
      case 5: case 6: if (h[j]) { *h[i] = *h[j]; m[i] = m[j]; } break;
      case 7: delete h[i]; h[i] = nullptr; m[i] = nullptr; break;
      case 8: need(); v.reserve(bt::below(30)); break;
    }
    for (int a = 0; a < H; ++a) if (h[a]) {
      size_t n = m[a] ? m[a]->size() : 0;
      EXPECT(h[a]->size() == n, "handle %d has size %zu, expected %zu", a, h[a]->size(), n);
      EXPECT(h[a]->dim() == (n ? (index_t)((*m[a])[n - 1].first + 1) : 0), "dim of handle %d", a);
      for (size_t k = 0; k < n; ++k) EXPECT(h[a]->index(k) == (*m[a])[k].first && bt::same(h[a]->value(k), (*m[a])[k].second), "handle %d element %zu differs", a, k);
    }
  }
  for (auto p : h) delete p;
}
static void mat_ops() {
  size_t r0 = bt::below(6), c0 = bt::below(6), r1 = bt::below(9), c1 = bt::below(9);
  bt::begin(bt::fmt("Matrix %zux%zu -> %zux%zu", r0, c0, r1, c1), r1 * c1 > 0);
  Matrix<real_t> m; m.resize({r0, c0}); std::vector<real_t> all;
  for (size_t k = 0; k < m.capacity(); ++k) m.data()[k] = k + 1;
  size_t cap = m.capacity();
  m.resize({r1, c1});
  EXPECT(m.rows() == r1 && m.cols() == c1 && m.size() == r1 * c1, "shape after resize");
  EXPECT(m.capacity() >= std::max(cap, r1 * c1), "capacity shrank or does not cover the shape");
  for (size_t k = 0; k < m.capacity(); ++k) EXPECT(m[k] == (k < cap ? real_t(k + 1) : real_t(0)), "slot %zu", k);
  for (size_t y = 0; y < r1; ++y) for (size_t x = 0; x < c1; ++x) EXPECT(&m(x, y) == m.data() + y * c1 + x, "element (%zu,%zu) is at the wrong place", x, y);
}
#include <memory>
int main(int c, char** v) {
  bt::init(c, v);
  while (bt::more()) { vec_ops<real_t>(60); vec_ops<index_t>(40); vec_ops<char>(40); vec_ops<double>(20); svec_ops(50); for (int i = 0; i < 20; ++i) mat_ops(); }
  return bt::finish();
}

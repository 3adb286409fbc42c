// entry points: the top-K heap
#include <sol/util/heap.h>
using namespace sol; using namespace sol::math;
#define H(n, C) extern "C" void adj_##n(C& h, index_t s, index_t m) { h.AdjustHeap(s, m); } extern "C" void build_##n(C& h) { h.BuildHeap(); } extern "C" index_t upd_##n(C& h, index_t i) { return h.UpdateHeap(i); } \
  extern "C" bool top_##n(C& h, index_t i) { return h.isTopK(i); } extern "C" void setn_##n(C& h, index_t n_, const real_t* v) { h.set_N(n_, v); } extern "C" void init_##n(C& h, index_t n_, index_t k, const real_t* v) { h.Init(n_, k, v); } extern "C" index_t pos_##n(C& h, index_t i) { return h.get_pos(i); }
H(min, MinHeap) H(max, MaxHeap)
#define O(n, f) extern "C" long o_Heap_##n() { return (long)__builtin_offsetof(MinHeap, f); }
O(N, N_) O(K, K_) O(v, values_) O(id2pos, id2pos_map_) O(pos2id, pos2id_map_)
extern "C" long z_Heap() { return sizeof(MinHeap); }

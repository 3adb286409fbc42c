// entry points: the blocking queue, on elements that are any 64-bit values
#include <sol/util/block_queue.h>
#include <cstdint>
using namespace sol;
struct Item { uint64_t v; bool operator!=(std::nullptr_t) const { return v != 0; } bool operator==(std::nullptr_t) const { return v == 0; } };
typedef BlockQueue<Item> Q;
extern "C" void q_ctor(Q* q, int n) { new (q) Q(n); }
extern "C" void q_put(Q& q, const Item& e) { q.Enqueue(e); }
extern "C" void q_put_list(Q& q, Item* l, int n) { q.Enqueue(l, n); }
extern "C" uint64_t q_get(Q& q) { return q.Dequeue().v; }
extern "C" int q_get_list(Q& q, Item* l, int n, bool force) { return q.Dequeue(l, n, force); }
extern "C" bool q_try_get(Q& q, Item* e) { return q.TryDequeue(*e); }
extern "C" int q_size(Q& q) { return q.size(); }
#define O(n, f) extern "C" long o_Q_##n() { return (long)__builtin_offsetof(Q, f); }
O(elems, elems_) O(num, elem_num_) O(head, head_) O(tail, tail_) O(size, queue_size_) O(lock, lock_) O(nonfull, nonfull_.cv_) O(nonempty, nonempty_.cv_) O(nfm, nonfull_.mutex_) O(nem, nonempty_.mutex_)
extern "C" long z_Q() { return sizeof(Q); }

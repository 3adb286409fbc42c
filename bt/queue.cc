// executable contract of the blocking queue: schedules of producers and consumers, explored by a scheduler that stands in for
// pthread's mutex and condition variable (one thread runs at a time; any thread may be chosen at every lock, unlock, wait, notify)
#include "bt.h"
#include <pthread.h>
#include <ucontext.h>
#include <map>
#include <memory>
struct Th { ucontext_t c; std::vector<char> stack; int state = 0; void* on = nullptr; int id; std::vector<long> items; std::vector<std::pair<size_t, int>> moves; int acq = 0; bool fin = false; };   // state 0 ready, 1 wants mutex, 2 waits for condition
static std::vector<std::unique_ptr<Th>> T; static Th* cur; static ucontext_t mainc; static bool locked; static bool spurious; static size_t hold; static std::string trace_; static bool bad; static std::string why;
static void yield_() { swapcontext(&cur->c, &mainc); }
static void on_acquire(); static void on_release();
static int my_lock(void*) { if (!cur) return 0; cur->state = 1; yield_(); on_acquire(); return 0; }
static int my_unlock(void*) { if (!cur) return 0; on_release(); locked = false; cur->state = 0; yield_(); return 0; }
static int my_wait(void* c, void*) { on_release(); locked = false; cur->state = 2; cur->on = c; yield_(); on_acquire(); return 0; }
static int my_signal(void* c) { std::vector<Th*> w; for (auto& t : T) if (t->state == 2 && t->on == c) w.push_back(t.get()); if (!w.empty()) w[bt::below(w.size())]->state = 1; return 0; }
static int my_broadcast(void* c) { for (auto& t : T) if (t->state == 2 && t->on == c) t->state = 1; return 0; }
#define pthread_mutex_lock(m) my_lock(m)
#define pthread_mutex_unlock(m) my_unlock(m)
#define pthread_cond_wait(c, m) my_wait(c, m)
#define pthread_cond_signal(c) my_signal(c)
#define pthread_cond_broadcast(c) my_broadcast(c)
#include <sol/util/block_queue.h>
using namespace sol;
typedef BlockQueue<long*> Q; static std::unique_ptr<Q> q;
static void oops(const std::string& s) { if (!bad) { bad = true; why = s; } }
static void on_acquire() { ++hold; cur->acq = q->size(); }
static void on_release() { int n = q->size(); if (n < 0 || n > q->capacity()) oops(bt::fmt("the queue holds %d elements, its capacity is %d", n, q->capacity())); if (n != cur->acq) cur->moves.emplace_back(hold, n - cur->acq); cur->acq = n; }
struct Step { int kind; int n; bool force; };                       // 0 put, 1 put list, 2 get, 3 get list
static std::vector<std::vector<Step>> script; static std::vector<std::vector<long*>> give; static long cells[4096];
static void body(int id) {
  Th* t = T[id].get(); size_t k = 0; std::vector<long*> buf;
  for (auto& s : script[id]) {
    if (s.kind == 0) { q->Enqueue(give[id][k]); t->items.push_back(give[id][k] ? give[id][k] - cells : -1); ++k; }
    else if (s.kind == 1) { q->Enqueue(give[id].data() + k, s.n); for (int i = 0; i < s.n; ++i, ++k) t->items.push_back(give[id][k] ? give[id][k] - cells : -1); }
    else if (s.kind == 2) { long* e = q->Dequeue(); t->items.push_back(e ? e - cells : -1); }
    else { int left = s.n; while (left > 0 && !bad) { int w = 1 + bt::below(left); buf.assign(w + 1, cells + 4000); int got = q->Dequeue(buf.data(), w, s.force);
        if (got < 1 || got > w) { oops(bt::fmt("asked for %d elements, got %d", w, got)); break; } if (buf[got] != cells + 4000) oops("wrote beyond the elements handed out");
        if (s.force && got < w && buf[got - 1] != nullptr) oops(bt::fmt("a forced call for %d elements ended after %d without an end mark", w, got));
        for (int i = 0; i < got; ++i) t->items.push_back(buf[i] ? buf[i] - cells : -1); left -= got; } }
    if (bad) break;
  }
  t->fin = true; t->state = 9; swapcontext(&t->c, &mainc);
}
static void one() {
  int size = 1 + bt::below(4), np = 1 + bt::below(3), nc = 1 + bt::below(3), total = 0; std::string d = bt::fmt("capacity %d:", size); script.clear(); give.clear(); long next = 1; bool nulls = bt::chance(30); spurious = bt::chance(40);
  for (int p = 0; p < np; ++p) { script.emplace_back(); give.emplace_back(); d += " producer"; int n = bt::below(4) + (p == 0); for (int i = 0; i < n; ++i) { int l = bt::chance(60) ? 0 : 1 + bt::below(6); int c = l ? l : 1; script.back().push_back({l ? 1 : 0, c, false}); d += bt::fmt(l ? " list%d" : " one", c); for (int j = 0; j < c; ++j) give.back().push_back(nulls && bt::chance(30) ? nullptr : cells + next++); total += c; } }
  int left = total; for (int c = 0; c < nc; ++c) { script.emplace_back(); give.emplace_back(); d += " consumer"; int mine = c == nc - 1 ? left : (int)bt::below(left + 1); left -= mine; while (mine > 0) { if (bt::chance(50)) { script.back().push_back({2, 1, false}); --mine; d += " one"; } else { int n = 1 + bt::below(mine); bool f = bt::chance(50); script.back().push_back({3, n, f}); mine -= n; d += bt::fmt(f ? " force%d" : " upto%d", n); } } }
  bt::begin(d + (spurious ? " (spurious wake-ups)" : "")); cur = nullptr; q.reset(new Q(size)); T.clear(); locked = false; hold = 0; bad = false;
  for (size_t i = 0; i < script.size(); ++i) { T.emplace_back(new Th); Th* t = T.back().get(); t->id = (int)i; t->stack.resize(64 << 10); getcontext(&t->c); t->c.uc_stack.ss_sp = t->stack.data(); t->c.uc_stack.ss_size = t->stack.size(); t->c.uc_link = &mainc; makecontext(&t->c, (void (*)())body, 1, (int)i); }
  int mode = bt::below(3); Th* last = nullptr;
  for (int steps = 0;; ++steps) {
    if (bad) break; std::vector<Th*> r; bool all = true; for (auto& t : T) { if (!t->fin) all = false; if (!t->fin && (t->state == 0 || (t->state == 1 && !locked))) r.push_back(t.get()); if (spurious && t->state == 2 && bt::chance(10)) { t->state = 1; } }
    if (all) break; if (r.empty()) { bool w = false; if (spurious) for (auto& t : T) if (t->state == 2 || t->state == 1) w = true; int n = 0; for (auto& t : T) n += t->state == 2; if (w && steps < 20000) { bool any = false; for (auto& t : T) any |= t->state == 1 && !locked; if (any) continue; }
      if (spurious && n && steps < 20000) continue; oops(bt::fmt("%d threads wait for ever (%d elements in the queue)", n, q->size())); break; }
    if (steps > 40000) { oops("the operations do not end"); break; }
    Th* t = r[bt::below(r.size())]; if (mode == 1 && last) for (Th* x : r) if (x == last && bt::chance(80)) t = x; if (mode == 2) t = r.back();
    if (mode == 2 && bt::chance(20)) t = r[0];
    if (t->state == 1) { locked = true; t->state = 0; } last = t; cur = t; swapcontext(&mainc, &t->c); cur = nullptr;
  }
  EXPECT(!bad, "%s", why.c_str());
  // the elements in the order they went in and came out
  std::map<size_t, std::vector<long>> in, out; size_t nin = 0, nout = 0;
  for (auto& t : T) { size_t k = 0; for (auto& m : t->moves) for (int i = 0; i < std::abs(m.second); ++i, ++k) { EXPECT(k < t->items.size(), "thread %d moved more elements than it was asked to", t->id); (m.second > 0 ? in : out)[m.first].push_back(t->items[k]); } EXPECT(k == t->items.size(), "thread %d moved %zu elements, %zu reported", t->id, k, t->items.size()); }
  std::vector<long> a, b; for (auto& x : in) a.insert(a.end(), x.second.begin(), x.second.end()); for (auto& x : out) b.insert(b.end(), x.second.begin(), x.second.end()); (void)nin; (void)nout;
  EXPECT(a == b, "put %s, got %s", bt::list(a.data(), a.size()).c_str(), bt::list(b.data(), b.size()).c_str()); EXPECT(q->size() == 0 && q->empty(), "%d elements left", q->size());
}
int main(int c, char** v) { bt::init(c, v); while (bt::more()) for (int i = 0; i < 100 && bt::more(); ++i) one(); return bt::finish(); }

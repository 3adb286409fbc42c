// executable contract of data iteration: the real DataIter, DataReadTask and BlockQueue under a scheduler that stands in for
// pthread's mutex, condition variable and thread (one runs at a time; any may be chosen at every lock, unlock, wait, notify, read)
#include "bt.h"
#include <pthread.h>
#include <ucontext.h>
#include <map>
#include <memory>
#include <thread>
#include <functional>
struct Th { ucontext_t c; std::vector<char> stack; int state = 0; void* on = nullptr; bool fin = false; std::function<void()> f; };   // 0 ready, 1 wants the mutex `on`, 2 waits for condition `on`, 3 joins thread `on`
static std::vector<std::unique_ptr<Th>> T; static Th* cur; static ucontext_t mainc; static std::map<void*, bool> held; static std::map<Th*, void*> mx; static bool bad, spurious; static std::string why;
static void oops(const std::string& s) { if (!bad) { bad = true; why = s; } }
static void yield_() { if (cur) swapcontext(&cur->c, &mainc); }
static int my_lock(void* m) { if (!cur) return 0; cur->state = 1; cur->on = m; yield_(); return 0; }
static int my_unlock(void* m) { if (!cur) return 0; held[m] = false; cur->state = 0; yield_(); return 0; }
static int my_wait(void* c, void* m) { held[m] = false; cur->state = 2; cur->on = c; mx[cur] = m; yield_(); return 0; }
static void wake(Th* t) { t->state = 1; t->on = mx[t]; }
static int my_signal(void* c) { std::vector<Th*> w; for (auto& t : T) if (!t->fin && t->state == 2 && t->on == c) w.push_back(t.get()); if (!w.empty()) wake(w[bt::below(w.size())]); return 0; }
static int my_broadcast(void* c) { for (auto& t : T) if (!t->fin && t->state == 2 && t->on == c) wake(t.get()); return 0; }
static void entry(int i) { T[i]->f(); T[i]->fin = true; T[i]->state = 9; swapcontext(&T[i]->c, &mainc); }
static Th* spawn(std::function<void()> f) { T.emplace_back(new Th); Th* t = T.back().get(); t->f = f; t->stack.resize(128 << 10); getcontext(&t->c); t->c.uc_stack.ss_sp = t->stack.data(); t->c.uc_stack.ss_size = t->stack.size(); t->c.uc_link = &mainc; makecontext(&t->c, (void (*)())entry, 1, (int)T.size() - 1); return t; }
#define pthread_mutex_lock(m) my_lock(m)
#define pthread_mutex_unlock(m) my_unlock(m)
#define pthread_cond_wait(c, m) my_wait(c, m)
#define pthread_cond_signal(c) my_signal(c)
#define pthread_cond_broadcast(c) my_broadcast(c)
#define CXX_SELF_CUSTOMIZED_THREAD_H__
#include <sol/util/mutex.h>
#include <sol/util/monitor.h>
namespace sol { class Thread { Th* t; public: typedef void (*routine)(void*); template <typename F> Thread(F f, void* p) { t = spawn([f, p] { f(p); }); } void join() { while (!t->fin && !bad) { cur->state = 3; cur->on = t; yield_(); } } }; }
#include <src/sol/pario/data_read_task.cc>
#include <src/sol/pario/data_iter.cc>
using namespace sol; using namespace sol::pario;
struct Set { int n, err, passes; };                     // records, error instead of record `err` of pass 1 (or -1), passes
static std::vector<Set> sets; static int live_readers, closed;
struct ProbeReader : DataReader {
  int id = -1, pos = 0, pass = 0, n_open = 0; bool end = false;
  ~ProbeReader() { --live_readers; } ProbeReader() { ++live_readers; }
  int Open(const std::string& p, const char*) override { id = atoi(p.c_str()); return id < 0 ? Status_IO_Error : Status_OK; }
  void Close() override { ++closed; }
  bool Good() override { return true; }
  void Rewind() override { pos = 0; end = false; ++pass; }
  int Next(DataPoint& x) override {
    cur->state = 0; yield_(); if (end) { oops("reads on after the end of the data"); return Status_EndOfFile; }
    if (pos >= sets[id].n) { end = true; return Status_EndOfFile; }
    if (pass == 0 && pos == sets[id].err) { end = true; return Status_Invalid_Format; }
    x.Clear(); x.set_label(id * 10000 + pass * 1000 + pos); x.AddNewFeat(1 + pos % 7, (real_t)pos); ++pos; return Status_OK;
  }
};
RegisterDataReader(ProbeReader, "probe", "scripted data source");
static std::vector<int> got; static bool fin_;
static void user(int bs, int bn, int stop, bool keep, int again, int prelisted) {
  {
    DataIter it(bs, bn); int k = 0; for (auto& s : sets) { if (prelisted > (int)(&s - &sets[0])) { if (it.AddReader(bt::fmt("%d", k++), "probe", s.passes) != Status_OK) oops("the data set was refused"); } else ++k; }
    if (bt::chance(10)) { if (it.AddReader("-1", "probe", 1) == Status_OK) oops("a data set that cannot be opened was accepted"); if (it.AddReader("0", "nosuch", 1) == Status_OK) oops("an unknown format was accepted"); }
    MiniBatch* b = nullptr; MiniBatch* spare = nullptr; int nb = 0; int sid = 0, sp = 0, off = 0; (void)spare;
    while (!bad && nb != stop) {
      b = it.Next(b); if (!b) break; ++nb; if (b->size() < 0 || b->size() > bs || b->capacity() != bs) { oops(bt::fmt("a batch of %d records, batch size %d", b->size(), bs)); break; }
      // where this batch ends within its pass
      while (sid < (int)sets.size() && sp >= sets[sid].passes) { ++sid; sp = 0; off = 0; }
      if (sid >= (int)sets.size()) { if (b->size()) oops("records after the last pass"); continue; }
      Set& s = sets[sid]; int lim = s.err >= 0 && s.err < s.n && sp == 0 ? s.err : s.n; bool e = lim != s.n;
      for (int i = 0; i < b->size(); ++i) { if (off >= lim) { oops(bt::fmt("more than the %d records of data set %d, pass %d", lim, sid, sp)); break; } DataPoint& x = (*b)[i]; got.push_back(x.label()); if (x.label() != sid * 10000 + sp * 1000 + off || x.indexes().size() != 1 || x.indexes()[0] != (index_t)(1 + off % 7) || x.features()[0] != (real_t)off) { oops(bt::fmt("record %d of data set %d, pass %d: got label %d", off, sid, sp, x.label())); break; } ++off; }
      if (b->size() < bs) { if (off != lim) oops(bt::fmt("a short batch of %d records (batch size %d) before the end of the pass", b->size(), bs)); if (e) { ++sid; sp = 0; } else ++sp; off = 0; }
    }
    if (!bad && nb != stop) {        // came to the end
      while (sid < (int)sets.size() && sp >= sets[sid].passes) { ++sid; sp = 0; off = 0; }
      if (sid < (int)sets.size()) oops(bt::fmt("ended before data set %d, pass %d, record %d", sid, sp, off));
      for (int i = 0; i < again && !bad; ++i) if (it.Next(nullptr)) oops("a batch after the end");
    }
    if (b && !keep && !bad) { b = nullptr; }
    if (bad) { T[0]->fin = true; T[0]->state = 9; swapcontext(&T[0]->c, &mainc); }
  }
  fin_ = true;
}
static void one() {
  sets.clear(); int n = bt::chance(10) ? 0 : 1 + bt::below(3), bs = 1 + bt::below(5), bn = 1 + bt::below(3); std::string d = bt::fmt("batch size %d, %d batches:", bs, bn);
  for (int i = 0; i < n; ++i) { int r = bt::below(12); Set s{r, bt::chance(15) ? (int)bt::below(r + 1) : -1, bt::chance(10) ? (int)bt::below(2) - 1 : 1 + (int)bt::below(3)}; if (s.passes < 0) s.passes = 0; sets.push_back(s); d += bt::fmt(" %d records, %d passes%s;", s.n, s.passes, s.err >= 0 && s.err < s.n && s.passes ? bt::fmt(", read error at %d", s.err).c_str() : ""); }
  int stop = bt::chance(30) ? (int)bt::below(5) : -1; spurious = bt::chance(30); d += stop >= 0 ? bt::fmt(" given up after %d batches", stop) : std::string(" read to the end");
  bt::begin(d); cur = nullptr; T.clear(); held.clear(); mx.clear(); bad = false; got.clear(); fin_ = false; live_readers = 0; T.reserve(64); int again = bt::below(3);
  spawn([=] { user(bs, bn, stop, true, again, 99); }); int mode = bt::below(4); Th* last = nullptr;
  for (int steps = 0;; ++steps) {
    if (bad || T[0]->fin) break;
    std::vector<Th*> r; for (auto& t : T) { if (t->fin) continue; if (spurious && t->state == 2 && bt::chance(5)) wake(t.get()); if (t->state == 0 || (t->state == 1 && !held[t->on]) || (t->state == 3 && ((Th*)t->on)->fin)) r.push_back(t.get()); }
    if (r.empty()) { int n2 = 0; for (auto& t : T) n2 += !t->fin && t->state == 2; if (spurious && n2 && steps < 100000) continue; oops(fin_ ? "threads left waiting" : "everything waits for ever"); break; }
    if (steps > 200000) { oops("the iteration does not end"); break; }
    Th* t = r[bt::below(r.size())]; if (mode == 1 && last) for (Th* x : r) if (x == last && bt::chance(80)) t = x; if (mode == 2 && bt::chance(80)) t = r.back(); if (mode == 3 && bt::chance(80)) t = r[0];
    if (t->state == 1) { held[t->on] = true; t->state = 0; } if (t->state == 3) t->state = 0; last = t; cur = t; swapcontext(&mainc, &t->c); cur = nullptr;
  }
  EXPECT(!bad, "%s", why.c_str()); for (auto& t : T) EXPECT(t->fin, "a reader thread is still running after the iterator was destroyed"); EXPECT(live_readers == 0, "%d data sources left open", live_readers);
}
int main(int c, char** v) { bt::init(c, v); while (bt::more()) for (int i = 0; i < 100 && bt::more(); ++i) one(); return bt::finish(); }

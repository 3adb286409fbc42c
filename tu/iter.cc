// entry points: the reading task and the data iterator; data source, queues and threads are arbitrary (behind hooks)
#include <src/sol/pario/data_iter.cc>
#include <src/sol/pario/data_read_task.cc>
using namespace sol; using namespace sol::pario;
extern "C" { int h_read(void*, void*); void h_rewind(void*); void h_close(void*); }
struct ProbeReader : DataReader {
  int Open(const std::string&, const char*) override { return 0; }
  void Close() override { h_close(this); }
  bool Good() override { return true; }
  void Rewind() override { h_rewind(this); }
  int Next(DataPoint& x) override { return h_read(this, &x); }
};
extern "C" void* mk_probe() { return new ProbeReader; }
struct RT : DataReadTask { static void go(DataReadTask& t) { static_cast<RT&>(t).DataReadTask::run(); } };
extern "C" void v_run(DataReadTask& t) { RT::go(t); }
extern "C" MiniBatch* v_next(DataIter& it, MiniBatch* b) { return it.DataIter::Next(b); }
#define Z(C) extern "C" long z_##C() { return sizeof(C); }
#define O(C, n, f) extern "C" long o_##C##_##n() { return (long)__builtin_offsetof(C, f); }
Z(DataReadTask) Z(DataIter) Z(MiniBatch) Z(DataPoint)
O(MiniBatch, n, data_num) O(MiniBatch, p, points_) O(MiniBatch, cap, capacity_)
O(DataReadTask, reader, reader_) O(DataReadTask, pass, pass_num_)
O(DataIter, factory, mini_batch_factory_) O(DataIter, buf, mini_batch_buf_) O(DataIter, readers, readers_) O(DataIter, idx, running_reader_idx_)
struct Lay { char a[sizeof(DataReadTask)]; };

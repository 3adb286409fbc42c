// entry points: training and testing loops, preprocessing; the learner and the data source are arbitrary (behind the virtual calls)
#include <src/sol/model/model.cc>
#include <src/sol/model/online_model.cc>
using namespace sol; using namespace sol::model; using namespace sol::pario; using namespace sol::math;
extern "C" { void h_begintrain(void*); void h_endtrain(void*); label_t h_iterate(void*, const void*, float*); label_t h_predict(void*, const void*, float*); MiniBatch* h_next(void*, MiniBatch*); size_t h_time(void*); void h_step(void*); }
struct ProbeT : OnlineModel {
  ProbeT() : OnlineModel(2, "") {}
  void BeginTrain() override { h_begintrain(this); }
  void EndTrain() override { h_endtrain(this); }
  label_t Iterate(const DataPoint& x, float* p) override { return h_iterate(this, &x, p); }
  label_t Predict(const DataPoint& x, float* p) override { return h_predict(this, &x, p); }
  label_t TrainPredict(const DataPoint&, float*) override { return 0; }
  void GetModelParam(std::ostream&) const override {}
  int SetModelParam(std::istream&) override { return 0; }
};
struct ProbeIter : DataIter { MiniBatch* Next(MiniBatch* p) override { return h_next(this, p); } };
struct ProbeShow : OnlineModel::IterDisplayer { size_t next_show_time() override { return h_time(this); } void next() override { h_step(this); } };
extern "C" void mk_probes(void** o) { o[0] = new ProbeT; o[1] = new ProbeIter; o[2] = new ProbeShow; }
extern "C" float v_train(OnlineModel& m, DataIter& it) { return m.OnlineModel::Train(it); }
extern "C" float v_test(Model& m, DataIter& it) { return m.Model::Test(it, nullptr); }
extern "C" void v_filter(Model& m, DataPoint& x) { m.FilterFeatures(x); }
extern "C" label_t v_calib(Model& m, label_t y) { return m.CalibrateLabel(y); }
extern "C" void v_pre(Model& m, DataPoint& x) { m.PreProcess(x); }
#define Z(C) extern "C" long z_##C() { return sizeof(C); }
#define O(C, n, f) extern "C" long o_##C##_##n() { return (long)__builtin_offsetof(C, f); }
#define M(n, f) O(OnlineModel, n, f)
M(clf, clf_num_) M(cls, class_num_) M(mu, model_updated_) M(reinit, require_reinit_) M(norm, norm_type_) M(maxi, max_index_) M(flags, sel_feat_flags_) M(upd, update_num_) M(t, cur_iter_num_) M(data, cur_data_num_) M(err, cur_err_num_) M(show, iter_displayer_) M(cb, iter_callback_) M(ctx, iter_callback_user_context_)
O(MiniBatch, n, data_num) O(MiniBatch, p, points_) Z(OnlineModel) Z(MiniBatch) Z(DataPoint)

// entry points: the online linear learners, called without virtual dispatch
#include <src/sol/model/online_linear_model.cc>
#include <src/sol/model/regularizer.cc>
#include <src/sol/model/olm/perceptron.cc>
#include <src/sol/model/olm/ogd.cc>
#include <src/sol/model/olm/pa.cc>
#include <src/sol/model/olm/alma2.cc>
#include <src/sol/model/olm/rda.cc>
#include <src/sol/model/olm/sop.cc>
#include <src/sol/model/olm/arow.cc>
#include <src/sol/model/olm/cw.cc>
#include <src/sol/model/olm/eccw.cc>
#include <src/sol/model/olm/ada_fobos.cc>
#include <src/sol/model/olm/ada_rda.cc>
#include <src/sol/model/olm/fofs.cc>
using namespace sol; using namespace sol::model; using namespace sol::pario; using namespace sol::math;
extern "C" label_t v_predict(OnlineLinearModel& m, const DataPoint& dp, float* p) { return m.OnlineLinearModel::Predict(dp, p); }
extern "C" label_t v_trainpredict(OnlineLinearModel& m, const DataPoint& dp, float* p) { return m.OnlineLinearModel::TrainPredict(dp, p); }
extern "C" label_t v_iterate(OnlineLinearModel& m, const DataPoint& dp, float* p) { return m.OnlineLinearModel::Iterate(dp, p); }
#define U(C) extern "C" void u_##C(C& m, const DataPoint& dp, const float* p, float loss) { m.C::Update(dp, p, loss); }
#define T(C) extern "C" label_t t_##C(C& m, const DataPoint& dp, float* p) { return m.C::TrainPredict(dp, p); }
#define E(C) extern "C" void e_##C(C& m) { m.C::EndTrain(); }
#define D(C) extern "C" void d_##C(C& m, index_t d) { m.C::update_dim(d); }
U(Perceptron) U(OGD) U(PA) U(PAI) U(PAII) U(ALMA2) U(RDA) U(SOP) U(AROW) U(CW) U(ECCW) U(AdaFOBOS) U(AdaRDA) U(FOFS)
T(STG) T(FOBOS_L1) T(RDA) T(RDA_L1) T(ERDA_L1) T(SOP) T(AdaFOBOS_L1) T(AdaRDA_L1)
E(STG) E(FOBOS_L1) E(RDA) E(RDA_L1) E(ERDA_L1) E(SOP) E(AdaFOBOS_L1) E(AdaRDA) E(AdaRDA_L1)
D(OnlineLinearModel) D(STG) D(RDA) D(SOP) D(AROW) D(CW) D(ECCW) D(AdaFOBOS) D(AdaRDA) D(FOFS) D(PET)
extern "C" void r_begin(LazyOnlineL1Regularizer& r, const DataPoint& dp) { r.LazyOnlineL1Regularizer::BeginIterate(dp); }
extern "C" void r_end(LazyOnlineL1Regularizer& r, const DataPoint& dp, int n) { r.LazyOnlineL1Regularizer::EndIterate(dp, n); }
extern "C" void r_final(OnlineL1Regularizer& r, Vector<float>& w) { r.OnlineL1Regularizer::FinalizeRegularization(w); }
// sizes and field offsets, which the contracts read from here
#define Z(C) extern "C" long z_##C() { return sizeof(C); }
#define O(C, n, f) extern "C" long o_##C##_##n() { return (long)__builtin_offsetof(C, f); }
#define M(n, f) O(OnlineLinearModel, n, f)
M(clf, clf_num_) M(mu, model_updated_) M(loss, loss_) M(reg, regularizer_) M(upd, update_num_) M(beta, bias_eta0_) M(t, cur_iter_num_) M(t0, initial_t_) M(data, cur_data_num_) M(err, cur_err_num_) M(dim, dim_) M(eta, eta_) M(lazy, lazy_update_) M(active, active_smoothness_) M(cost, cost_sensitive_learning_) M(costm, cost_margin_) M(w, weights_) M(g, gradients_)
Z(Perceptron) Z(OGD) Z(PA) Z(PAI) Z(PAII) Z(ALMA2) Z(RDA) Z(SOP) Z(AROW) Z(CW) Z(ECCW) Z(AdaFOBOS) Z(AdaRDA) Z(STG) Z(FOBOS_L1) Z(RDA_L1) Z(ERDA_L1) Z(AdaFOBOS_L1) Z(AdaRDA_L1) Z(OnlineLinearModel) Z(FOFS) Z(PET) Z(LazyOnlineL1Regularizer)
O(OGD, power, power_t_) O(OGD, eta0, eta0_) O(OGD, pow, pow_) O(STG, k, k_) O(STG, ltt, last_trunc_time_) O(STG, lambda, l1_.lambda_) O(FOBOS_L1, lambda, l1_.lambda_) O(FOBOS_L1, lut, l1_.last_update_time_)
O(PA, coeff, eta_coeff_) O(PAI, C, C_) O(PAII, C, C_) O(RDA, sigma, sigma_) O(RDA, ut, ut_) O(RDA_L1, lambda, l1_.lambda_) O(ERDA_L1, lambda, l1_.lambda_) O(ERDA_L1, rou, rou_)
O(SOP, a, a_) O(SOP, X, X_) O(SOP, v, v_) O(AROW, r, r_) O(AROW, S, Sigmas_) O(CW, S, Sigmas_) O(CW, a, a_) O(CW, phi, phi_) O(CW, V, Vi_) O(ECCW, S, Sigmas_) O(ECCW, a, a_) O(ECCW, phi, phi_) O(ECCW, V, vi_) O(ECCW, psi, psi_) O(ECCW, xi, xi_)
O(AdaFOBOS, H, H_) O(AdaFOBOS, delta, delta_) O(AdaFOBOS_L1, lambda, l1_.lambda_) O(AdaFOBOS_L1, lut, l1_.last_update_time_) O(AdaRDA, H, H_) O(AdaRDA, ut, ut_) O(AdaRDA, delta, delta_) O(AdaRDA_L1, lambda, l1_.lambda_)
O(LazyOnlineL1Regularizer, t0, initial_t_) O(LazyOnlineL1Regularizer, lut, last_update_time_) O(LazyOnlineL1Regularizer, thr, sparse_thresh_)
#define L1(C) O(C, l1, l1_) O(C, thr, l1_.sparse_thresh_)
L1(STG) L1(FOBOS_L1) L1(RDA_L1) L1(ERDA_L1) L1(AdaFOBOS_L1) L1(AdaRDA_L1)
// dynamic dispatch: an arbitrary learner, loss and regularizer behind the virtual calls of Iterate
#include <src/sol/model/online_model.cc>
extern "C" { void h_dim(void*, index_t); label_t h_train(void*, const void*, float*); void h_update(void*, const void*, const float*, float); float h_grad(void*, const void*, float*, label_t, float*, int); void h_begin(void*, const void*); void h_end(void*, const void*, int); }
struct Probe : OnlineLinearModel {
  Probe() : OnlineLinearModel(2) {}
  void update_dim(index_t d) override { h_dim(this, d); }
  label_t TrainPredict(const DataPoint& dp, float* p) override { return h_train(this, &dp, p); }
  void Update(const DataPoint& dp, const float* p, float l) override { h_update(this, &dp, p, l); }
};
struct ProbeLoss : sol::loss::Loss {
  ProbeLoss() : sol::loss::Loss(0) {}
  float loss(const DataPoint&, float*, label_t, int) override { return 0; }
  float gradient(const DataPoint& dp, float* p, label_t y, float* g, int n) override { return h_grad(this, &dp, p, y, g, n); }
};
struct ProbeReg : OnlineRegularizer {
  void BeginIterate(const DataPoint& dp) override { h_begin(this, &dp); }
  void EndIterate(const DataPoint& dp, int n) override { h_end(this, &dp, n); }
};
extern "C" void mk_probe(void** o) { o[0] = new Probe; o[1] = new ProbeLoss; o[2] = new ProbeReg; }
extern "C" float v_sched(OGD& m, float p, int t) { m.set_power_t(p); return m.pow_(t, m.power_t_); }
extern "C" float v_trunc(float a, float b) { return sol::math::expr::truncate(a, b); }

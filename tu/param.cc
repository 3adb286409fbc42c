// entry points: setting hyper-parameters, called without virtual dispatch
#include <src/sol/model/model.cc>
#include <src/sol/model/online_model.cc>
#include <src/sol/model/online_linear_model.cc>
#include <src/sol/model/regularizer.cc>
#include <src/sol/model/olm/perceptron.cc>
#include <src/sol/model/olm/ogd.cc>
#include <src/sol/model/olm/pa.cc>
#include <src/sol/model/olm/alma2.cc>
#include <src/sol/model/olm/rda.cc>
#include <src/sol/model/olm/sop.cc>
#include <src/sol/model/olm/arow.cc>
#include <src/sol/model/olm/cw.cc>
#include <src/sol/model/olm/eccw.cc>
#include <src/sol/model/olm/ada_fobos.cc>
#include <src/sol/model/olm/ada_rda.cc>
#include <src/sol/model/olm/fofs.cc>
using namespace sol; using namespace sol::model;
#define S(C) extern "C" void s_##C(C& m, const std::string& n, const std::string& v) { m.C::SetParameter(n, v); } extern "C" long z_##C() { return sizeof(C); }
S(Perceptron) S(OGD) S(STG) S(FOBOS_L1) S(PET) S(PA) S(PAI) S(PAII) S(ALMA2) S(RDA) S(RDA_L1) S(ERDA_L1) S(SOP) S(AROW) S(SOFS) S(CW) S(ECCW) S(AdaFOBOS) S(AdaFOBOS_L1) S(AdaFOBOS_OFS) S(AdaRDA) S(AdaRDA_L1) S(AdaRDA_OFS) S(FOFS)
extern "C" void v_initial_t(OnlineModel& m, int n) { m.OnlineModel::set_initial_t(n); }
#define O(C, n, f) extern "C" long o_##C##_##n() { return (long)__builtin_offsetof(C, f); }
#define M(n, f) O(OnlineModel, n, f)
M(clf, clf_num_) M(cls, class_num_) M(reinit, require_reinit_) M(reg, regularizer_) M(bias, bias_eta0_) M(t0, initial_t_) M(t, cur_iter_num_) M(smooth, active_smoothness_) M(cost, cost_margin_) M(costl, cost_sensitive_learning_) M(lazy, lazy_update_)
O(OGD, power_t, power_t_) O(OGD, pow, pow_) O(OGD, eta, eta0_) O(STG, k, k_) O(PAI, C, C_) O(PAII, C, C_) O(RDA, sigma, sigma_) O(ERDA_L1, rou, rou_) O(SOP, a, a_) O(AROW, r, r_) O(CW, phi, phi_) O(CW, a, a_) O(CW, S, Sigmas_) O(ECCW, a, a_) O(ECCW, S, Sigmas_)
O(AdaFOBOS, eta, eta_) O(AdaFOBOS, delta, delta_) O(AdaFOBOS, H, H_) O(AdaRDA, eta, eta_) O(AdaRDA, delta, delta_) O(AdaRDA, H, H_) O(FOFS, eta, eta_) O(FOFS, lambda, lambda_) O(FOFS, B, B_)
O(ALMA2, p, p_) O(ALMA2, sp, square_p1_) O(ALMA2, alpha, alpha_) O(ALMA2, BB, B_) O(ALMA2, C, C_) O(ALMA2, k, k_)
O(Regularizer, lambda, lambda_) O(OnlineL1Regularizer, thr, sparse_thresh_) O(LazyOnlineL1Regularizer, t0, initial_t_) O(LazyOnlineL1Regularizer, lut, last_update_time_)

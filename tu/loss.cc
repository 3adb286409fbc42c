// entry points: every loss, called without virtual dispatch
#include <src/sol/loss/bool_loss.cc>
#include <src/sol/loss/hinge_loss.cc>
#include <src/sol/loss/logistic_loss.cc>
#include <src/sol/loss/square_loss.cc>
using namespace sol; using namespace sol::loss; using namespace sol::pario;
#define L(C, n) \
  extern "C" float v_##n##_loss(C& l, const DataPoint& dp, float* p, label_t pl, int k) { return l.C::loss(dp, p, pl, k); } \
  extern "C" float v_##n##_gradient(C& l, const DataPoint& dp, float* p, label_t pl, float* g, int k) { return l.C::gradient(dp, p, pl, g, k); }
L(BoolLoss, bool) L(MaxScoreBoolLoss, mbool) L(UniformBoolLoss, ubool)
L(HingeLoss, hinge) L(MaxScoreHingeLoss, mhinge) L(UniformHingeLoss, uhinge)
L(LogisticLoss, logistic) L(MaxScoreLogisticLoss, mlogistic) L(UniformLogisticLoss, ulogistic)
L(SquareLoss, square)

// executable contracts of the ten losses against a double-precision reference
#include <new>
#include <limits>
#include <sol/loss/bool_loss.h>
#include <sol/loss/hinge_loss.h>
#include <sol/loss/logistic_loss.h>
#include <sol/loss/square_loss.h>
#include "bt.h"
using namespace sol; using namespace sol::loss; using namespace sol::pario;
static const char* NAMES[] = {"bool", "maxscore-bool", "uniform-bool", "hinge", "maxscore-hinge", "uniform-hinge", "logistic", "maxscore-logistic", "uniform-logistic", "square"};
static Loss* ls[10];
static double sp(double z) { return z > 100 ? z : z < -100 ? 0 : std::log(1 + std::exp(z)); }
static double sg(double z) { return z > 100 ? 1 : z < -100 ? 0 : 1 / (1 + std::exp(-z)); }
static float score(int style) {
  switch (style) {
    case 0: return (float)((int)bt::below(5) - 2);                       // ties
    case 1: return (float)(bt::unit() * 4 - 2);
    case 2: return (float)(bt::unit() * 400 - 200);                      // around the logistic cut-offs
    case 3: return (float)(((int)bt::below(5) - 2) * 0.25);
    case 4: return bt::chance(30) ? 0.f : (float)((bt::unit() - 0.5) * 1e-4);
    default: return (float)((bt::unit() - 0.5) * 1e6);
  }
}
static void one() {
  int k = bt::below(10); bool bin = k == 0 || k == 3 || k == 6, mc = !bin && k != 9, hinge = k >= 3 && k <= 5;
  int n = mc ? 2 + bt::below(bt::chance(10) ? 40 : 6) : 1, style = bt::below(6);
  const int PAD = 3; float CAN = -7.25f;
  std::vector<float> p(n + PAD), g(n + PAD, CAN); for (auto& x : p) x = score(style);
  if (mc && bt::chance(10)) { float v = score(style); for (auto& x : p) x = v; }
  label_t lab = bin ? (bt::chance(50) ? 1 : -1) : mc ? (label_t)bt::below(n) : (label_t)((int)bt::below(9) - 4);
  label_t pl = bin ? Loss::Sign(p[0]) : mc ? label_t(std::max_element(p.begin(), p.begin() + n) - p.begin()) : 0;
  if (mc && p[pl] > p[lab] == false && bt::chance(50)) pl = lab;          // any best class may be the predicted one
  float margin = bt::chance(50) ? 1.f : bt::chance(30) ? 0.f : (float)(bt::unit() * 3);
  bool handler = hinge && bt::chance(40);
  bt::begin(bt::fmt("%s: %d classes scores %s label %d predicted %d margin %g%s", NAMES[k], n, bt::list(p.data(), n).c_str(), lab, pl, margin, handler ? " (by handler)" : ""));
  Loss* l = ls[k]; DataPoint dp; dp.set_label(lab);
  std::vector<float> seen;
  if (hinge) {
    HingeBase* h = (HingeBase*)l; h->set_margin(margin);
    std::function<float(const DataPoint&, float*, label_t, float*, int)> f;
    if (handler) f = [&](const DataPoint&, float*, label_t, float* gg, int) { seen.assign(gg, gg + n); return margin; };
    if (handler) h->set_margin(-5.f);
    h->set_margin(f);
  }
  std::vector<float> p0 = p;
  float a = 0; if (!handler) a = l->loss(dp, p.data(), pl, n);
  for (size_t i = 0; i < p.size(); ++i) EXPECT(bt::same(p[i], p0[i]), "loss() changed score %zu from %g to %g", i, p0[i], p[i]);
  float b = l->gradient(dp, p.data(), pl, g.data(), n);
  for (size_t i = 0; i < p.size(); ++i) EXPECT(bt::same(p[i], p0[i]), "gradient() changed score %zu from %g to %g", i, p0[i], p[i]);
  if (handler) { EXPECT(((HingeBase*)l)->margin() == margin, "the handler's margin was not taken"); a = l->loss(dp, p.data(), pl, n); }
  EXPECT(bt::same(a, b), "loss() gives %.9g, gradient() %.9g", a, b);
  EXPECT(a >= 0, "loss is %g", a);
  for (int i = n; i < n + PAD; ++i) EXPECT(g[i] == CAN, "gradient entry %d beyond the %d classes was written", i, n);
  double scale = 1; for (int i = 0; i < n; ++i) scale = std::max(scale, (double)std::fabs(p[i]));
  double tol = 4e-6 * scale * (n + 1);
  double v = 0; std::vector<double> e(n, 0.0), alt;   // expected loss and gradient
  int w = -1; bool ok = false;
  if (k == 9) { double d = p[0] - (double)lab; v = d * d / 2; e[0] = d; tol = 1e-5 * (1 + v); }
  else if (bin) {
    double z = (double)p[0] * lab;
    if (k == 0) { v = pl != lab; e[0] = v ? -lab : 0; }
    else if (k == 3) { v = std::max(0.0, margin - z); e[0] = a > 0 ? -lab : 0; }
    else { v = sp(-z); e[0] = -lab * sg(-z); }
  } else {
    double S = 0; int N = 0; for (int i = 0; i < n; ++i) if (i != lab && p[i] >= p[lab]) S += p[i], ++N;
    int kind = k % 3, base = k / 3;   // 1 max-score, 2 uniform
    double avg = N ? S / N : 0;
    if (kind == 1) {
      // any best other class is allowed as competitor
      float best = -std::numeric_limits<float>::max(); for (int i = 0; i < n; ++i) if (i != lab) best = std::max(best, p[i]);
      double z = (double)best - p[lab];
      v = base == 0 ? pl != lab : base == 1 ? std::max(0.0, margin + z) : sp(z);
      double c = base == 2 ? sg(z) : a > 0 ? 1 : 0;
      for (int i = 0; i < n; ++i) if (i != lab && (base == 0 ? i == pl || pl == lab : p[i] == best)) {
        bool m = true; for (int j = 0; j < n; ++j) m = m && std::fabs(g[j] - (j == lab ? -c : j == i ? c : 0)) <= 1e-5 + (c ? tol * (base == 2) : 0);
        if (m) { ok = true; w = i; break; }
      }
      EXPECT(ok, "gradient %s is not that of the loss (a best other class +%g, true class -%g)", bt::list(g.data(), n).c_str(), c, c);
      if (handler && c) for (int j = 0; j < n; ++j) EXPECT(std::fabs(seen[j] - (j == lab ? -1 : j == w ? 1 : 0)) < 1e-6, "the margin handler saw gradient %s", bt::list(seen.data(), n).c_str());
    } else {
      if (N == 0) v = 0;
      else v = base == 0 ? pl != lab : base == 1 ? std::max(0.0, margin - p[lab] + avg) : sp(avg - p[lab]);
      if (base == 1 && N == 0) v = std::max(0.0, margin - (double)p[lab] + 0.0), ok = true;
      double c = base == 2 ? (N ? sg(avg - p[lab]) : 0) : a > 0 ? 1 : 0;
      if (base == 1 && N == 0) { EXPECT(a >= 0, "negative"); return; }
      for (int j = 0; j < n; ++j) { e[j] = j == lab ? -c : p[j] >= p[lab] ? c / N : 0; if (c == 0) e[j] = 0; }
      if (handler) for (int j = 0; j < n; ++j) EXPECT(std::fabs(seen[j] - (j == lab ? -1 : p[j] >= p[lab] ? 1.0 / N : 0)) < 1e-5, "the margin handler saw gradient %s", bt::list(seen.data(), n).c_str());
    }
  }
  EXPECT(std::fabs(a - v) <= tol, "loss is %.9g, expected %.9g", a, v);
  if (!ok) for (int j = 0; j < n; ++j) EXPECT(std::fabs(g[j] - e[j]) <= 1e-5 + (k >= 6 && k <= 8 ? tol : k == 9 ? 1e-6 * scale : 0), "gradient entry %d is %.9g, expected %.9g", j, g[j], e[j]);
  if (a == 0 && k < 6) for (int j = 0; j < n; ++j) EXPECT(g[j] == 0, "no loss, but gradient entry %d is %g", j, g[j]);
}
int main(int c, char** v) {
  bt::init(c, v);
  ls[0] = new BoolLoss; ls[1] = new MaxScoreBoolLoss; ls[2] = new UniformBoolLoss; ls[3] = new HingeLoss; ls[4] = new MaxScoreHingeLoss; ls[5] = new UniformHingeLoss;
  ls[6] = new LogisticLoss; ls[7] = new MaxScoreLogisticLoss; ls[8] = new UniformLogisticLoss; ls[9] = new SquareLoss;
  while (bt::more()) for (int i = 0; i < 1000; ++i) one();
  return bt::finish();
}

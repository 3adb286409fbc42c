// reference learners: single-precision transcription of the published update rules, driven through the public interface only
#ifndef MODEL_REF_H_
#define MODEL_REF_H_
#include <map>
#include <memory>
#include <sol/model/online_linear_model.h>
#include <sol/loss/hinge_loss.h>
#include "bt.h"
using namespace sol; using namespace sol::model; using namespace sol::pario;
typedef std::vector<float> V;
struct Ex { std::vector<index_t> i; V v; label_t y; index_t dim() const { return i.empty() ? 1 : i.back() + 1; } };
static std::string show(const Ex& e) { std::string s = std::to_string(e.y); for (size_t k = 0; k < e.i.size(); ++k) s += bt::fmt(" %u:%.9g", e.i[k], e.v[k]); return s; }
static void fill(DataPoint& dp, const Ex& e) { dp = DataPoint(); for (size_t k = 0; k < e.i.size(); ++k) dp.AddNewFeat(e.i[k], e.v[k]); dp.set_label(e.y); }
static float shrink(float a, float b) { if (a >= 0) return a > b ? a - b : 0; return -a > b ? a + b : 0; }
struct Ref {
  std::string n; int K; std::map<std::string, float> p; std::shared_ptr<loss::Loss> L;
  std::vector<V> w, S, u; V X, lut, g, sc; float eta, V_ = 0; int t = 0, k = 1; size_t upd = 0; index_t dim = 1; bool shaky = false, lazy = false; float scale = 1;
  float P(const char* s, float d) const { auto i = p.find(s); return i == p.end() ? d : i->second; }
  bool is(const char* s) const { return n == s; }
  bool l1() const { return n.size() > 3 && n.substr(n.size() - 3) == "-l1"; }
  bool ada() const { return n.substr(0, 4) == "ada-"; }
  bool dual() const { return n.find("rda") != std::string::npos; }
  float s0() const { return ada() ? P("delta", 10) : is("cw") || is("eccw") ? P("a", 1) : is("arow") ? 1 : 0; }
  Ref(const std::string& name, int cls, const std::map<std::string, float>& par, const std::string& loss) : n(name), K(cls == 2 ? 1 : cls), p(par), L(loss::Loss::Create(loss)) {
    eta = ada() ? P("eta", 1) : is("fofs") ? P("eta", 1) : 1; t = (int)P("t", 0); k = (int)P("k", 1); lazy = P("lazy_update", 0) != 0;
    w.assign(K, V(1, 0.f)); S.assign(K, V(1, s0())); u = w; X.assign(1, 0.f); lut.assign(1, P("t", 0)); g.assign(K, 0.f); sc.assign(K, 0.f);
    begin();
  }
  void begin() {
    auto* h = dynamic_cast<loss::HingeBase*>(L.get());
    if (is("alma2")) h->set_margin((1.f - P("alpha", .9f)) * (1 / P("alpha", .9f)) * sqrtf(P("p", 2) - 1) / sqrtf((float)k));
    if (is("cw") || is("eccw")) h->set_margin([this](const DataPoint& dp, float*, label_t, float* gr, int) {
      V_ = 0; for (int c = 0; c < K; ++c) if (gr[c] != 0) { float d = 0; for (size_t q = 0; q < dp.size(); ++q) d += S[c][dp.index(q)] * (dp.feature(q) * dp.feature(q)); V_ += d * (gr[c] * gr[c]); if (P("bias_eta", 0) != 0) V_ += S[c][0] * gr[c] * gr[c]; }
      return P("phi", 0.5244f) * V_; });
  }
  void grow(index_t d) { if (d <= dim) return; for (int c = 0; c < K; ++c) w[c].resize(d, 0.f), S[c].resize(d, s0()), u[c].resize(d, 0.f); X.resize(d, 0.f); lut.resize(d, P("t", 0)); dim = d; }
  float beta() const { return P("bias_eta", 0) * eta; }
  float tt(int d) const { return (float)(t + d + 1e-20); }
  void near_(double a, double b) { if (a != b && std::fabs(a - b) < 2e-4 * scale) shaky = true; }
  // bring the weights of the given entries up to date
  void refresh(const Ex& e) {
    float lam = P("lambda", 0);
    if (is("fobos-l1") || is("ada-fobos-l1") || is("stg")) {
      int kk = (int)P("k", 1);
      for (size_t q = 0; q < e.i.size(); ++q) {
        index_t j = e.i[q];
        if (is("stg")) { int st = int(t - 1 - lut[j]); if (st < kk) continue; st -= st % kk; for (int c = 0; c < K; ++c) w[c][j] = shrink(w[c][j], st * (eta * lam)); lut[j] += st; continue; }
        for (int c = 0; c < K; ++c) w[c][j] = shrink(w[c][j], ada() ? eta * lam * (t - 1 - lut[j]) / S[c][j] : eta * lam * (t - 1 - lut[j]));
      }
      for (int c = 0; c < K; ++c) w[c][0] = shrink(w[c][0], ada() ? beta() * lam / S[c][0] : beta() * lam);
      if (is("stg")) lut[0] = t - 1;
    }
    std::vector<index_t> all(e.i); all.push_back(0);
    if (is("rda") || is("rda-l1") || is("erda-l1")) {
      float th = rate(-1); for (int c = 0; c < K; ++c) for (index_t j : all) w[c][j] = -(j ? eta : beta()) * (is("rda") ? u[c][j] : shrink(u[c][j], th));
    }
    if (is("ada-rda-l1")) for (int c = 0; c < K; ++c) for (index_t j : all) w[c][j] = -(j ? eta : beta()) * shrink(u[c][j], lam * t) / S[c][j];
    if (is("sop")) for (int c = 0; c < K; ++c) for (size_t q = 0; q < e.i.size(); ++q) w[c][e.i[q]] = u[c][e.i[q]] / (P("a", 1) + X[e.i[q]] + e.v[q] * e.v[q]);
  }
  float rate(int d) {   // dual averaging: sets the rate, returns the truncation threshold
    float s = P("sigma", 1), T = tt(d), lam = P("lambda", 0);
    if (is("erda-l1")) { eta = 1.f / (sqrtf(T) * s); return lam * T + s * P("rou", 0) * sqrtf(T); }
    eta = 1.f / (T * s); return lam * T;
  }
  label_t score(const Ex& e, V& s) {
    for (int c = 0; c < K; ++c) { float d = 0; for (size_t q = 0; q < e.i.size(); ++q) if (e.i[q] < dim) d += w[c][e.i[q]] * e.v[q]; s[c] = d + w[c][0]; }
    if (K == 1) return s[0] >= 0 ? 1 : -1;
    return label_t(std::max_element(s.begin(), s.end()) - s.begin());
  }
  void guard(const Ex& e) {
    for (float x : sc) if (!(std::fabs(x) < 1e4)) shaky = true; else scale = std::max(scale, std::fabs(x));
    if (K == 1) near_(sc[0], 0);
    else for (int a = 0; a < K; ++a) for (int b = 0; b < a; ++b) near_(sc[a], sc[b]);
  }
  label_t step(const Ex& e) {
    grow(e.dim()); ++t; refresh(e);
    label_t y = score(e, sc); guard(e);
    if (P("cost_margin", 0) > 0) dynamic_cast<loss::HingeBase*>(L.get())->set_margin(e.y == 1 ? P("cost_margin", 0) : 1.f);
    DataPoint dp; fill(dp, e); V s2 = sc; float l = L->gradient(dp, s2.data(), y, g.data(), K);
    if (l > 0 && l < 2e-4 * scale) shaky = true;
    if (l == 0) { if (auto* h = dynamic_cast<loss::HingeBase*>(L.get())) { double m = h->margin(); if (K == 1) near_(m, (double)sc[0] * e.y); else for (int c = 0; c < K; ++c) if (c != e.y) near_(m + sc[c], sc[e.y]); } }
    if (lazy ? y != e.y : l > 0) { ++upd; update(e, l); }
    if ((l1() && !dual()) ) { for (index_t j : e.i) lut[j] = t - 1; lut[0] = t - 1; }
    return y;
  }
  void update(const Ex& e, float l) {
    float be = P("bias_eta", 0), C = P("C", is("alma2") ? sqrtf(2.f) : 1), nx = 0; for (float x : e.v) nx += x * x;
    float phi = P("phi", 0.5244f), tmp = 0, co = K == 1 ? 1 : 2;
    if (is("perceptron") || is("sop")) eta = 1;
    if (is("ogd") || is("stg") || is("fobos-l1")) { float q = P("power_t", .5f); eta = P("eta", 1) / (q == 0 ? 1 : q == 0.5f ? sqrtf((float)t) : q == 1 ? (float)t : powf((float)t, q)); }
    if (is("pa")) eta = l / (co * nx);
    if (is("pa1")) eta = std::min(C, l / (co * nx));
    if (is("pa2")) eta = l / (co * nx + 0.5f / C);
    if (is("alma2")) eta = C / (sqrtf(P("p", 2) - 1) * sqrtf((float)k));
    if (is("arow")) { float b = 0; for (int c = 0; c < K; ++c) if (g[c] != 0) { float d = 0; for (size_t q = 0; q < e.i.size(); ++q) d += S[c][e.i[q]] * (e.v[q] * e.v[q]); b += d * (g[c] * g[c]); if (be != 0) b += S[c][0] * g[c] * g[c]; } eta = l * (1.f / (b + P("r", 1))); }
    if (is("cw")) { float M = phi * V_ - l; float z = 1 + 2 * phi * M; eta = (-z + sqrtf(z * z - 8 * phi * (M - phi * V_))) / (4 * phi * V_); tmp = 2 * eta * phi; }
    if (is("eccw")) { float psi = 1 + phi * phi / 2, xi = 1 + phi * phi, m = phi * V_ - l, z = m * phi * phi; eta = (-m * psi + sqrtf(z * z * .25f + V_ * phi * phi * xi)) / (V_ * xi); float q = .5f * (-eta * V_ * phi + sqrtf(eta * eta * V_ * V_ * phi * phi + 4 * V_)); tmp = eta * phi * std::fabs(q); }
    if (!(eta < 1e6) || (eta != 0 && std::fabs(eta) < 1e-30)) { if (!dual()) shaky = true; }
    for (int c = 0; c < K; ++c) {
      if (g[c] == 0) continue;
      float G = g[c]; std::vector<index_t> I(e.i); V x(e.v); I.push_back(0); x.push_back(1.f);
      float mom = 1; if (is("fofs")) { mom = 1 - P("lambda", 0) * eta; for (float& y : w[c]) y *= mom; }
      for (size_t q = 0; q < I.size(); ++q) {
        index_t j = I[q]; float xx = x[q], r = j ? eta : beta(); bool b = j == 0;
        if (is("rda") || is("rda-l1") || is("erda-l1")) { u[c][j] += G * xx; continue; }
        if (is("sop")) { u[c][j] -= (b ? beta() : 1.f) * G * xx; continue; }
        if (ada()) {
          float D = s0(), h = S[c][j]; S[c][j] = sqrtf((h - D) * (h - D) + (G * xx) * (G * xx)) + D;
          if (dual()) { u[c][j] += G * xx; if (b) w[c][0] *= be; else w[c][j] = -eta * u[c][j] / S[c][j]; }
          else w[c][j] -= r * G * xx / S[c][j];
          continue;
        }
        if (is("arow") || is("cw") || is("eccw")) { float s = S[c][j]; w[c][j] -= r * G * s * xx; S[c][j] = is("arow") ? s / (1 + s * (xx * xx) * (G * G / P("r", 1))) : s / (1 + tmp * s * (xx * xx)); continue; }
        if (is("perceptron")) { w[c][j] -= (b ? beta() : 1.f) * G * xx; continue; }
        w[c][j] -= r * G * xx;
      }
      if (is("alma2") || is("fofs")) { float nn = 0; for (float y : w[c]) nn += y * y; nn = sqrtf(nn); if (is("alma2")) { near_(nn, 1); if (nn > 1) for (float& y : w[c]) y /= nn; } else { float cf = 1.f / sqrtf(P("lambda", 0)) / nn; near_(cf, 1); if (cf < 1) for (float& y : w[c]) y *= cf; } }
      for (index_t j : I) if (!(std::fabs(w[c][j]) < 1e4) || (is("cw") && !(S[c][j] > 1e-6))) shaky = true;
    }
    if (is("sop")) for (size_t q = 0; q < e.i.size(); ++q) X[e.i[q]] += e.v[q] * e.v[q];
    if (is("alma2")) { ++k; begin(); }
  }
  void end() {
    float lam = P("lambda", 0); bool d = is("rda") || is("rda-l1") || is("erda-l1"); float th = d ? rate(0) : 0;
    for (int c = 0; c < K; ++c) for (index_t j = 0; j < dim; ++j) {
      float& y = w[c][j];
      if (is("stg") || is("fobos-l1")) { y = shrink(y, eta * lam * (t - lut[j])); if (!j && l1()) y = shrink(y, beta() * lam); }
      if (is("ada-fobos-l1")) { y = shrink(y, eta * lam * (t - lut[j]) / S[c][j]); if (!j) y = shrink(y, beta() * lam / S[c][0]); }
      if (d) y = -(j ? eta : beta()) * (is("rda") ? u[c][j] : shrink(u[c][j], th));
      if (is("ada-rda")) y = -eta * u[c][j] / S[c][j] * (j ? 1 : P("bias_eta", 0));
      if (is("ada-rda-l1")) y = -eta * shrink(u[c][j], lam * t) / S[c][j] * (j ? 1 : P("bias_eta", 0));
      if (is("sop")) y = u[c][j] / (P("a", 1) + X[j]);
      if ((l1() || is("stg")) && std::fabs(y) < P("sparse_thresh", 1e-6f)) y = 0;
    }
  }
};
struct Setup { std::string n, loss; int cls; std::map<std::string, float> p; };
static std::string show(const Setup& s) { std::string r = s.n + " " + s.loss + bt::fmt(" %d classes", s.cls); for (auto& q : s.p) r += bt::fmt(" %s=%.9g", q.first.c_str(), q.second); return r; }
static std::string num(float f) { return bt::fmt("%.9g", f); }
static std::unique_ptr<OnlineLinearModel> make(const Setup& s) {
  Model* m = Model::Create(s.n, s.cls); if (!m) { bt::fail("no model " + s.n); return nullptr; }
  m->SetParameter("loss", s.loss);
  for (auto& q : s.p) m->SetParameter(q.first, q.first == "lazy_update" ? (q.second ? "true" : "false") : num(q.second));
  m->BeginTrain();
  return std::unique_ptr<OnlineLinearModel>((OnlineLinearModel*)m);
}
static const char* PLAIN[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda", "sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda", "fofs"};
static const char* L1S[] = {"fobos-l1", "stg", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"};
static Setup pick(bool l1) {
  Setup s; s.n = l1 ? L1S[bt::below(6)] : PLAIN[bt::below(14)]; s.cls = bt::chance(50) ? 2 : 3 + (int)bt::below(3);
  auto has = [&](const char* a) { return s.n == a; }; auto sub = [&](const char* a) { return s.n.find(a) != std::string::npos; };
  bool bl = has("perceptron") || has("sop"), hin = has("alma2") || has("cw") || has("eccw") || has("arow");
  const char* base[] = {"bool", "hinge", "logistic"}; int b = bl ? 0 : hin ? 1 : bt::below(3);
  s.loss = std::string(s.cls == 2 ? "" : bt::chance(60) ? "maxscore-" : "uniform-") + base[b];
  auto r = [&](double lo, double hi) { return bt::chance(40) ? (float)(lo + (hi - lo) * 0.5) : (float)(lo + (hi - lo) * bt::unit()); };
  auto opt = [&](const char* k, int pc, double lo, double hi) { if (bt::chance(pc)) s.p[k] = r(lo, hi); };
  opt("bias_eta", 50, 0.1, 1.5);
  if (bt::chance(20)) s.p["t"] = (float)bt::below(20);
  if (bt::chance(20)) s.p["lazy_update"] = 1;
  if (bt::chance(15)) s.p["dim"] = (float)(2 + bt::below(30));
  if (has("ogd") || has("stg") || has("fobos-l1")) { opt("eta", 50, 0.05, 1.5); if (bt::chance(70)) { const float q[] = {0.f, .5f, 1.f, .25f, .75f, 2.f}; s.p["power_t"] = q[bt::below(6)]; } }
  if (sub("ada-")) { opt("eta", 60, 0.1, 2); opt("delta", 60, 0.5, 8); }
  if (sub("rda") && !sub("ada")) opt("sigma", 50, 0.3, 4);
  if (has("erda-l1")) opt("rou", 60, 0, .5);
  if (has("arow")) opt("r", 60, .3, 3);
  if (has("sop")) opt("a", 60, .5, 3);
  if (has("cw") || has("eccw")) { opt("a", 40, .3, 1.5); opt("phi", 40, .2, 1.2); }
  if (has("pa1") || has("pa2")) opt("C", 60, .01, 2);
  if (has("alma2")) { opt("alpha", 50, .3, 1); opt("C", 40, .5, 2); if (bt::chance(20)) s.p["p"] = 3; if (bt::chance(20)) s.p["k"] = (float)(1 + bt::below(5)); }
  if (has("fofs")) { s.p["eta"] = r(.05, .5); s.p["lambda"] = r(.005, .5); }
  if (l1) { s.p["lambda"] = r(0, has("fobos-l1") || has("stg") ? 0.1 : 0.05); if (bt::chance(20)) s.p["sparse_thresh"] = r(1e-5, .05); if (has("stg") && bt::chance(60)) s.p["k"] = (float)(1 + bt::below(5)); }
  if (s.loss == "hinge" && !hin && bt::chance(20)) s.p["cost_margin"] = r(.5, 3);
  return s;
}
static Ex example(int cls, index_t maxd, bool grid, int empty = 5) {
  Ex e; e.y = cls == 2 ? (bt::chance(50) ? 1 : -1) : (label_t)bt::below(cls);
  if (bt::chance(empty)) return e;
  for (index_t j = 1; j < maxd; ++j) if (bt::below(maxd) < 1 + bt::below(4)) { e.i.push_back(j); e.v.push_back(grid ? (float)((int)bt::below(5) - 2) * .5f : (float)(bt::unit() * 3 - 1.5)); }
  return e;
}
#endif

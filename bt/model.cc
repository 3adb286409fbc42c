// executable contracts of the online learners, through Create/SetParameter/BeginTrain/Iterate/EndTrain/Predict and the weights
#include "model_ref.h"
#ifndef MODE
#define MODE 10
#endif
typedef std::unique_ptr<OnlineLinearModel> M;
static std::string HIST;
static bool close_(float a, float b, float sc) { return a == b || std::fabs(a - b) <= 2e-3f * (std::fabs(b) + .02f * sc) + 1e-6f; }
static bool agree(M& m, Ref& r, const char* when) {
  for (int c = 0; c < r.K; ++c) {
    float sc = 0; for (float x : r.w[c]) sc = std::max(sc, std::fabs(x));
    if (m->w(c).dim() < r.dim) { bt::fail(bt::fmt("%s: class %d has %zu weights, %u needed", when, c, (size_t)m->w(c).dim(), r.dim)); return false; }
    for (index_t j = 0; j < r.dim; ++j) if (!close_(m->w(c)[j], r.w[c][j], sc)) { bt::fail(bt::fmt("%s: weight %u of class %d is %.9g, the rule gives %.9g", when, j, c, m->w(c)[j], r.w[c][j])); return false; }
    for (index_t j = r.dim; j < m->w(c).dim(); ++j) if (m->w(c)[j] != 0) { bt::fail(bt::fmt("%s: weight %u of class %d is %g although the feature was never seen", when, j, c, m->w(c)[j])); return false; }
  }
  return true;
}
static void train(bool l1) {
  Setup s = pick(l1); bool grid = bt::chance(30); int n = 1 + bt::below(bt::chance(10) ? 120 : 14); index_t maxd = 3 + bt::below(bt::chance(20) ? 40 : 8);
  std::vector<Ex> h; std::string d = show(s) + " |";
  for (int i = 0; i < n; ++i) { h.push_back(example(s.cls, i < n / 2 ? 2 + maxd / 2 : maxd, grid)); d += " " + show(h.back()) + ";"; }
  bt::begin(d); M m = make(s); if (!m) return; Ref r(s.n, s.cls, s.p, s.loss); if (s.p.count("dim")) r.grow((index_t)s.p["dim"]);
  V sc(r.K + 1, -77.f); DataPoint dp; int t0 = r.t;
  for (int i = 0; i < n; ++i) {
    fill(dp, h[i]); label_t y = m->Iterate(dp, sc.data()); label_t z = r.step(h[i]); if (r.shaky) return;
    EXPECT(sc[r.K] == -77.f, "example %d: wrote beyond the %d scores", i, r.K);
    for (int c = 0; c < r.K; ++c) EXPECT(close_(sc[c], r.sc[c], r.scale), "example %d: training score of class %d is %.9g, expected %.9g", i, c, sc[c], r.sc[c]);
    EXPECT(y == z, "example %d: predicted %d, expected %d", i, y, z);
    EXPECT(m->update_num() == r.upd, "example %d: %zu updates so far, expected %zu (update exactly on positive loss, with lazy_update on mistakes)", i, m->update_num(), r.upd);
    EXPECT(m->cur_iter_num() == t0 + i + 1, "example %d: iteration counter is %d", i, m->cur_iter_num());
    if (!agree(m, r, bt::fmt("after example %d", i).c_str())) return;
    EXPECT(dp.size() == h[i].i.size() && dp.label() == h[i].y, "example changed by training");
  }
  m->EndTrain(); r.end(); if (!agree(m, r, "after the end of training")) return;
}
// lazy truncation at a constant rate equals truncating every weight by eta*lambda after every iteration
static void eager() {
  Setup s; s.n = bt::chance(50) ? "fobos-l1" : "stg"; s.cls = bt::chance(60) ? 2 : 3; s.loss = s.cls == 2 ? "hinge" : "maxscore-hinge"; s.p["power_t"] = 0; s.p["eta"] = (float)(.1 + bt::unit()); s.p["lambda"] = (float)(.05 * bt::unit());
  int n = 1 + bt::below(30); std::vector<Ex> h; std::string d = "eager truncation: " + show(s) + " |";
  for (int i = 0; i < n; ++i) { h.push_back(example(s.cls, 9, false)); d += " " + show(h.back()) + ";"; }
  bt::begin(d); M m = make(s); if (!m) return; Setup o = s; o.n = "ogd"; o.p.erase("lambda"); Ref r("ogd", s.cls, o.p, s.loss); r.eta = s.p["eta"];
  V sc(r.K); DataPoint dp;
  for (int i = 0; i < n; ++i) {
    if (i) for (auto& w : r.w) for (index_t j = 1; j < r.dim; ++j) w[j] = shrink(w[j], s.p["eta"] * s.p["lambda"]);
    fill(dp, h[i]); m->Iterate(dp, sc.data()); r.step(h[i]); if (r.shaky) return;
    for (int c = 0; c < r.K; ++c) EXPECT(close_(sc[c], r.sc[c], r.scale), "example %d: score of class %d is %.9g, truncating after every iteration gives %.9g", i, c, sc[c], r.sc[c]);
  }
  if (r.upd == 0) return;
  m->EndTrain(); for (auto& w : r.w) for (index_t j = 1; j < r.dim; ++j) { w[j] = shrink(w[j], s.p["eta"] * s.p["lambda"]); if (std::fabs(w[j]) < 2e-6) w[j] = 0; }
  for (int c = 0; c < r.K; ++c) for (index_t j = 1; j < r.dim; ++j) EXPECT(std::fabs(m->w(c)[j] - r.w[c][j]) < 2e-4, "after training weight %u of class %d is %.9g, truncating after every iteration gives %.9g", j, c, m->w(c)[j], r.w[c][j]);
}
static const char* ALL[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "rda", "sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda", "fofs", "fobos-l1", "stg", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1", "pet", "sofs", "adafobos-ofs", "adarda-ofs"};
// prediction is the linear score, over known features, of the weights; it changes nothing
static void predict() {
  Setup s = pick(bt::chance(40)); if (bt::chance(20)) { s = Setup(); s.n = ALL[20 + bt::below(4)]; s.cls = 2 + (int)bt::below(3); s.loss = s.cls == 2 ? "hinge" : "maxscore-hinge"; }
  index_t maxd = 3 + bt::below(12); int n = bt::below(12); std::string d = show(s) + " |"; std::vector<Ex> h;
  for (int i = 0; i < n; ++i) { h.push_back(example(s.cls, maxd, false)); d += " " + show(h.back()) + ";"; }
  Ex e = example(s.cls, bt::chance(40) ? 3 * maxd : maxd, bt::chance(30), 10); if (bt::chance(10)) { e.i.push_back(e.dim() + bt::below(1u << 31)); e.v.push_back(1.5f); }
  d += " predict " + show(e); bt::begin(d); M m = make(s); if (!m) return; int K = m->clf_num(); V sc(K + 1, -77.f); DataPoint dp;
  EXPECT(K == (s.cls == 2 ? 1 : s.cls), "%d scores for %d classes", K, s.cls);
  for (auto& q : h) { fill(dp, q); m->Iterate(dp, sc.data()); }
  if (bt::chance(60)) m->EndTrain();
  if (bt::chance(40)) for (int c = 0; c < K; ++c) for (size_t j = 0; j < m->w(c).dim(); ++j) m->w(c)[j] = (float)((int)bt::below(7) - 3) * .25f;   // any weights, with ties
  std::vector<V> w(K); for (int c = 0; c < K; ++c) for (size_t j = 0; j < m->w(c).dim(); ++j) w[c].push_back(m->w(c)[j]);
  size_t u = m->update_num(); int t = m->cur_iter_num(); label_t y0 = 0; V s0;
  for (int rep = 0; rep < 2; ++rep) {
    fill(dp, e); sc.assign(K + 1, -77.f); label_t y = m->Predict(dp, sc.data()); V a(K); double scale = 1; bool fin = true;
    for (int c = 0; c < K; ++c) { double v = 0, ab = 0; for (size_t q = 0; q < e.i.size(); ++q) if (e.i[q] < w[c].size()) { double p = (double)w[c][e.i[q]] * e.v[q]; v += p; ab += std::fabs(p); } v += w[c][0]; ab += std::fabs(w[c][0]);
      if (!(ab < 1e30)) { fin = false; continue; }
      EXPECT(std::fabs(sc[c] - v) <= 1e-6 * (e.i.size() + 2) * ab + 1e-30, "score of class %d is %.9g, the weighted sum is %.9g", c, sc[c], v); }
    EXPECT(sc[K] == -77.f, "wrote beyond the scores");
    if (fin) { if (K == 1) EXPECT(y == (sc[0] >= 0 ? 1 : -1), "score %g gives label %d", sc[0], y); else { EXPECT(y >= 0 && y < K, "label %d of %d classes", y, K); for (int c = 0; c < K; ++c) EXPECT(sc[c] <= sc[y], "label %d has score %g, class %d %g", y, sc[y], c, sc[c]); } }
    if (rep) { EXPECT(y == y0, "second prediction differs"); for (int c = 0; c < K; ++c) EXPECT(bt::same(s0[c], sc[c]), "second score differs"); } y0 = y; s0 = sc;
    EXPECT(dp.size() == e.i.size() && dp.label() == e.y, "prediction changed the example"); for (size_t q = 0; q < e.i.size(); ++q) EXPECT(dp.index(q) == e.i[q] && dp.feature(q) == e.v[q], "prediction changed the example");
    EXPECT(m->update_num() == u && m->cur_iter_num() == t, "prediction changed the counters");
    for (int c = 0; c < K; ++c) { EXPECT(m->w(c).dim() == w[c].size(), "prediction changed the dimension"); for (size_t j = 0; j < w[c].size(); ++j) EXPECT(bt::same(m->w(c)[j], w[c][j]), "prediction changed weight %zu of class %d", j, c); }
  }
}
// growing with the examples gives the same model as starting at full dimension
static void growth() {
  Setup s = pick(bt::chance(40)); if (bt::chance(25)) { s = Setup(); s.n = ALL[20 + bt::below(4)]; s.cls = 2 + (int)bt::below(3); s.loss = s.cls == 2 ? "hinge" : "maxscore-hinge"; if (s.n == "pet" && bt::chance(50)) s.p["eta"] = .5f; }
  s.p.erase("dim"); index_t maxd = 4 + bt::below(bt::chance(10) ? 3000 : 30); int n = 2 + bt::below(14); std::string d = "dimension: " + show(s) + " |"; std::vector<Ex> h;
  for (int i = 0; i < n; ++i) { index_t m = 2 + (maxd - 2) * (i + 1) / n; Ex e = example(s.cls, m, false); if (bt::chance(30) && m > e.dim()) { e.i.push_back(m); e.v.push_back(1.f); } h.push_back(e); d += " " + show(e) + ";"; }
  Setup b = s; b.p["dim"] = (float)(maxd + 1 + bt::below(4));
  bt::begin(d); M m = make(s), f = make(b); if (!m || !f) return; int K = m->clf_num(); V x(K), y(K); DataPoint dp; index_t mx = 1;
  for (int i = 0; i < n; ++i) {
    fill(dp, h[i]); mx = std::max(mx, h[i].dim()); label_t a = m->Iterate(dp, x.data()), c = f->Iterate(dp, y.data());
    EXPECT(a == c, "example %d: predicted %d when growing, %d at full dimension", i, a, c);
    for (int k = 0; k < K; ++k) EXPECT(bt::same(x[k], y[k]), "example %d: score of class %d is %.9g when growing, %.9g at full dimension", i, k, x[k], y[k]);
    for (int k = 0; k < K; ++k) { EXPECT(m->w(k).dim() == mx, "example %d: %zu weights in class %d, highest feature is %u", i, (size_t)m->w(k).dim(), k, mx - 1); for (index_t j = 0; j < mx; ++j) EXPECT(bt::same(m->w(k)[j], f->w(k)[j]), "example %d: weight %u of class %d is %.9g when growing, %.9g at full dimension", i, j, k, m->w(k)[j], f->w(k)[j]); }
  }
  m->EndTrain(); f->EndTrain();
  for (int k = 0; k < K; ++k) for (index_t j = 0; j < f->w(k).dim(); ++j) { float a = j < m->w(k).dim() ? m->w(k)[j] : 0.f; EXPECT(a == f->w(k)[j] || (a != a && f->w(k)[j] != f->w(k)[j]), "after training weight %u of class %d is %.9g when growing, %.9g at full dimension", j, k, a, f->w(k)[j]); }
}
int main(int c, char** v) {
  bt::init(c, v);
  while (bt::more()) for (int i = 0; i < 50 && bt::more(); ++i) {
#if MODE == 5
    predict();
#elif MODE == 10
    train(false);
#elif MODE == 11
    if (bt::chance(75)) train(true); else eager();
#elif MODE == 17
    if (bt::chance(60)) growth(); else train(bt::chance(50));   // the state of new features shows in the reference learners' weights
#endif
  }
  return bt::finish();
}

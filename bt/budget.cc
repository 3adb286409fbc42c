// executable contract: a feature-selecting learner never has more than B features with non-zero weight
#include "bt.h"
#include <memory>
#include <map>
#include <set>
#include "model_ref.h"
typedef std::unique_ptr<OnlineLinearModel> M;
static const char* N[] = {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
static std::string D; 
static bool within(M& m, int B, const char* when) {
  std::set<index_t> f; for (int c = 0; c < m->clf_num(); ++c) for (index_t j = 1; j < m->dim_; ++j) if (m->w(c)[j] != 0) f.insert(j);
  if ((int)f.size() <= B) return true; std::string s; for (auto x : f) s += bt::fmt(" %u", x); bt::fail(bt::fmt("%zu features have non-zero weight %s, budget %d:%s", f.size(), when, B, s.c_str())); return false;
}
static void run() {
  const char* n = N[bt::below(5)]; int cls = bt::chance(60) ? 2 : 3 + bt::below(2), B = 1 + bt::below(bt::chance(20) ? 20 : 5); M m((OnlineLinearModel*)sol::model::Model::Create(n, cls)); D = bt::fmt("%s %d classes B=%d", n, cls, B);
  auto set = [&](const char* p, const std::string& v) { m->SetParameter(p, v); D += std::string(" ") + p + "=" + v; };
  m->SetParameter("B", std::to_string(B)); if (bt::chance(40)) set("bias_eta", "0.5"); if (bt::chance(30) && n[1] != 'o') set("eta", bt::chance(50) ? "0.25" : "4"); else if (bt::chance(30) && n[0] == 'f') set("eta", "0.3"); if (bt::chance(20)) set("t", "5"); if (bt::chance(30)) set("lazy_update", "true"); if (bt::chance(15)) set("norm", "2");
  static const char* bl[] = {"hinge", "logistic", "square", "bool"}; static const char* ml[] = {"maxscore-hinge", "uniform-hinge", "maxscore-logistic", "uniform-logistic"};
  if (bt::chance(50)) try { set("loss", cls == 2 ? bl[bt::below(4)] : ml[bt::below(4)]); } catch (std::invalid_argument&) { return; }
  index_t maxd = 1 + bt::below(bt::chance(20) ? 60 : 12); bool grid = bt::chance(70); std::vector<float> sc(cls); D += " |"; int rounds = 1 + bt::below(2);
  for (int r = 0; r < rounds; ++r) {
    if (r == 0) { bt::begin(D); m->BeginTrain(); if (!within(m, B, "when training starts")) return; }
    int k = 1 + bt::below(25); for (int i = 0; i < k; ++i) {
      Ex e = example(cls, i < k / 2 ? 1 + maxd / 2 : maxd, grid);
      D += " " + show(e) + ";"; bt::begin(D); DataPoint dp; fill(dp, e); m->PreProcess(dp); m->Iterate(dp, sc.data()); if (!within(m, B, "after this example")) return; if (bt::chance(10)) { m->Predict(dp, sc.data()); if (!within(m, B, "after a prediction")) return; } }
    D += " end;"; bt::begin(D); m->EndTrain(); if (!within(m, B, "after the end of training")) return;
  }
}
int main(int c, char** v) { bt::init(c, v); while (bt::more()) run(); return bt::finish(); }

// executable contracts: preprocessing (MODE 16), error rates of training and testing (MODE 21)
#include "bt.h"
#include <fstream>
#include <memory>
#include <set>
#include <map>
#include "sol/pario/data_iter.h"
#include "model_ref.h"
typedef std::unique_ptr<OnlineLinearModel> M;
static std::string tmp(const char* n) { const char* d = getenv("BT_DIR"); return std::string(d ? d : ".") + "/" + n; }
#if MODE == 16
static void prep() {
  static const char* names[] = {"ogd", "perceptron", "arow", "stg", "ada-rda-l1", "fofs"};
  int cls = 2 + bt::below(3); Setup s; s.n = names[bt::below(6)]; s.cls = cls; std::string d = s.n + bt::fmt(" %d classes", cls); M m((OnlineLinearModel*)sol::model::Model::Create(s.n, cls));
  static const char* norms[] = {"None", "L1", "L2", "0", "1", "2"}; int nt = bt::below(7); if (nt < 6) { m->SetParameter("norm", norms[nt]); d += std::string(" norm=") + norms[nt]; } int nv = nt < 6 ? nt % 3 : 0;
  std::set<index_t> sel; bool filter = bt::chance(50);
  if (filter) {
    std::ofstream f(tmp("list")); int n = 1 + bt::below(8), kind = bt::below(12); std::string t; bool bad = false;
    if (kind == 0) { t = bt::chance(50) ? "" : "# nothing\n"; bad = true; }
    else for (int i = 0; i < n; ++i) { index_t v = 1 + bt::below(bt::chance(20) ? 5000 : 20); if (bt::chance(15)) t += "# a comment 7\n"; if (kind == 1 && i == n - 1) { t += bt::chance(50) ? "0\n" : "-3\n"; bad = true; } else { t += bt::fmt(bt::chance(20) ? " %u\n" : "%u\n", v); sel.insert(v); } }
    f << t; f.close(); bt::begin(d + " list: " + t); d += " list of"; for (index_t v : sel) d += bt::fmt(" %u", v);
    bool thrown = false; try { m->SetParameter("filter", tmp("list")); } catch (std::invalid_argument&) { thrown = true; }
    EXPECT(thrown == bad, "a %s list of pre-selected features is %s", bad ? "bad" : "good", thrown ? "refused" : "accepted"); if (bad) return;
  }
  for (int rep = 0; rep < 3; ++rep) {
    Ex e; int n = bt::below(9); index_t i = 0; bool zero = bt::chance(15); bool dupl = bt::chance(10);
    for (int k = 0; k < n; ++k) { i += dupl ? bt::below(2) : 0; i += dupl ? 0 : 1 + bt::below(bt::chance(20) ? 3000 : 4); if (!i) i = 1; e.i.push_back(i); float v = zero ? (bt::chance(50) ? 0.f : -0.f) : (float)((int)bt::below(2001) - 1000) * (bt::chance(10) ? 1e6f : bt::chance(10) ? 1e-6f : .01f); e.v.push_back(v); }
    if (filter && n && bt::chance(50)) for (auto& x : e.i) if (bt::chance(60)) { auto it = sel.lower_bound(x); if (it != sel.end()) x = *it; } std::sort(e.i.begin(), e.i.end());
    if (bt::chance(30)) for (size_t k = e.i.size(); k > 1; --k) std::swap(e.i[k - 1], e.i[bt::below(k)]);
    e.y = bt::chance(70) ? (int)bt::below(4) - 1 : (int)bt::below(1000) - 500; bt::begin("PreProcess " + d + " | " + show(e), n > 0);
    DataPoint dp; fill(dp, e); m->PreProcess(dp);
    label_t y = cls == 2 ? (e.y == 1 ? 1 : -1) : e.y; EXPECT(dp.label() == y, "label %d became %d, expected %d", e.y, dp.label(), y);
    EXPECT(dp.size() == e.i.size(), "%zu features became %zu", e.i.size(), (size_t)dp.size());
    double s1 = 0, s2 = 0; std::vector<double> v; for (size_t k = 0; k < e.i.size(); ++k) { double x = filter && !sel.count(e.i[k]) ? 0 : e.v[k]; v.push_back(x); s1 += std::fabs(x); s2 += x * x; }
    double nm = nv == 1 ? s1 : nv == 2 ? std::sqrt(s2) : 0;
    for (size_t k = 0; k < e.i.size(); ++k) {
      EXPECT(dp.index(k) == e.i[k], "feature %zu moved from %u to %u", k, e.i[k], dp.index(k)); double w = nm > 0 ? v[k] / nm : v[k]; float g = dp.feature(k);
      EXPECT(nm > 0 ? std::fabs(g - w) <= 2e-6 * std::fabs(w) * (n + 2) + 1e-37 : (double)g == w, "value of feature %u is %.9g, expected %.9g", e.i[k], g, w);
    }
  }
}
#else
struct Mem : sol::pario::DataIter { std::vector<std::vector<Ex>> b; size_t k = 0; std::vector<std::unique_ptr<sol::pario::MiniBatch>> mb;
  Mem() : sol::pario::DataIter(1, 1) {} sol::pario::MiniBatch* Next(sol::pario::MiniBatch*) override { if (k >= b.size()) return nullptr; auto& e = b[k++]; mb.emplace_back(new sol::pario::MiniBatch((int)e.size() + 1)); auto* p = mb.back().get(); for (size_t i = 0; i < e.size(); ++i) fill((*p)[i], e[i]); p->data_num = (int)e.size(); return p; } };
struct Rep { long long d, i, u; double e; }; static std::vector<Rep> REP;
static void cb(void*, long long d, long long i, long long u, double e) { REP.push_back({d, i, u, e}); }
static void rates() {
  static const char* names[] = {"ogd", "perceptron", "arow", "pa1", "stg", "rda-l1", "ada-fobos", "cw", "fobos-l1"}; Setup s; s.n = names[bt::below(9)]; s.cls = 2 + bt::below(3); bool file = bt::chance(40); std::string par;
  M m((OnlineLinearModel*)sol::model::Model::Create(s.n, s.cls)), r((OnlineLinearModel*)sol::model::Model::Create(s.n, s.cls)); auto both = [&](const char* n, const char* v) { m->SetParameter(n, v); r->SetParameter(n, v); par += std::string(" ") + n + "=" + v; };
  if (bt::chance(30)) both("norm", bt::chance(50) ? "L1" : "L2"); if (bt::chance(30)) both("lazy_update", "true"); if (bt::chance(30)) both("t", bt::chance(50) ? "7" : "1");
  int step = 0, base = 0; if (bt::chance(40)) { if (bt::chance(50)) { step = 1 + bt::below(4); m->SetParameter("step_show", std::to_string(step)); } else { base = 2 + bt::below(2); m->SetParameter("exp_show", std::to_string(base)); } }
  bool cbk = bt::chance(90); m->set_iterate_callback(cbk ? cb : nullptr, nullptr); if (!cbk) step = base = 0;
  r->BeginTrain(); size_t err = 0, num = 0; std::vector<float> sc(s.cls); double next = step ? step : base ? base : 1e18; int show_k = 1;
  int calls = 1 + bt::below(3);
  for (int c = 0; c < calls; ++c) {
    std::vector<std::vector<Ex>> b; int nb = bt::below(4) + (c == 0), pass = 1 + bt::below(3), bs = 1 + bt::below(5); std::string d = bt::fmt("%s %d classes, call %d:", s.n.c_str(), s.cls, c) + par; std::vector<Ex> all;
    for (int i = 0; i < nb; ++i) { b.emplace_back(); int n = bt::below(5) + (i == 0); for (int k = 0; k < n; ++k) { Ex e = example(s.cls, 8, true, 0); if (e.i.empty()) { e.i.push_back(1); e.v.push_back(1.f); } b.back().push_back(e); all.push_back(e); d += " " + show(e) + ";"; } d += " /"; }
    if (all.empty()) continue; bt::begin(d); std::vector<Ex> seq; float rate; REP.clear(); std::string path = tmp("data.svm"); std::ostringstream os; bool test = c > 0 && bt::chance(40);
    if (file) { std::ofstream f(path); f.precision(9); for (auto& e : all) { f << e.y; for (size_t k = 0; k < e.i.size(); ++k) f << " " << e.i[k] << ":" << e.v[k]; f << "\n"; } f.close();
      sol::pario::DataIter it(bs, 1 + bt::below(3)); EXPECT(it.AddReader(path, "svm", pass) == 0, "reader"); rate = test ? m->Test(it, &os) : m->Train(it); for (int p = 0; p < pass; ++p) for (auto& e : all) seq.push_back(e); }
    else { Mem it; it.b = b; rate = test ? m->Test(it, &os) : m->Train(it); seq = all; }
    if (test) {
      size_t e2 = 0; r->EndTrain(); std::istringstream is(os.str()); std::string line; std::getline(is, line);
      for (auto& e : seq) { DataPoint dp; fill(dp, e); r->PreProcess(dp); label_t y = r->Predict(dp, sc.data()); if (y != dp.label()) ++e2; EXPECT((bool)std::getline(is, line), "a line of predictions is missing"); int a, q; EXPECT(sscanf(line.c_str(), "%d %d", &a, &q) == 2 && a == dp.label() && q == y, "prediction line '%s' for label %d predicted %d", line.c_str(), dp.label(), y); }
      EXPECT(!std::getline(is, line), "more prediction lines than examples"); EXPECT(rate == float(double(e2) / seq.size()), "test error rate %.9g for %zu mistakes in %zu examples", rate, e2, seq.size()); break;
    }
    size_t q = 0;
    for (auto& e : seq) { DataPoint dp; fill(dp, e); r->PreProcess(dp); if (r->Iterate(dp, sc.data()) != dp.label()) ++err; ++num;
      if ((double)num >= next) { EXPECT(q < REP.size(), "no progress report after example %zu", num); EXPECT(REP[q].d == (long long)num && REP[q].u == (long long)r->update_num() && (float)REP[q].e == float(err) / num, "progress after example %zu says %lld examples, rate %.9g, %lld updates; expected rate %.9g, %zu updates", num, REP[q].d, REP[q].e, REP[q].u, float(err) / num, (size_t)r->update_num()); ++q; next = step ? next + step : std::pow((double)base, ++show_k); } }
    EXPECT(rate == float(err) / num, "training error rate %.9g for %zu mistakes in %zu examples", rate, err, num);
    if (step || base) { EXPECT(REP.size() == q + 1 && REP[q].d == (long long)num && (float)REP[q].e == rate, "%zu progress reports, expected %zu", REP.size(), q + 1); }
    EXPECT(m->update_num() == r->update_num() && m->cur_iter_num() == r->cur_iter_num(), "%zu updates and %d steps, expected %zu and %d", (size_t)m->update_num(), m->cur_iter_num(), (size_t)r->update_num(), r->cur_iter_num());
  }
}
#endif
int main(int c, char** v) {
  bt::init(c, v);
  while (bt::more()) for (int i = 0; i < 20 && bt::more(); ++i)
#if MODE == 16
    prep();
#else
    rates();
#endif
  return bt::finish();
}

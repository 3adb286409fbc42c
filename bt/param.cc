// executable contract of hyper-parameters: taken over exactly, or refused, by name and value, through the public interface
#include "bt.h"
#include <memory>
#include <limits>
#include <functional>
#include <stdexcept>
#include "sol/model/olm/perceptron.h"
#include "sol/model/olm/ogd.h"
#include "sol/model/olm/pa.h"
#include "sol/model/olm/alma2.h"
#include "sol/model/olm/rda.h"
#include "sol/model/olm/sop.h"
#include "sol/model/olm/arow.h"
#include "sol/model/olm/cw.h"
#include "sol/model/olm/eccw.h"
#include "sol/model/olm/ada_fobos.h"
#include "sol/model/olm/ada_rda.h"
#include "sol/model/olm/fofs.h"
using namespace sol; using namespace sol::model;
typedef std::unique_ptr<OnlineLinearModel> M; typedef std::function<double(OnlineLinearModel*)> G;
enum R { ANY, GE0, GT0, UNIT };
struct P { const char* models; const char* name; bool integer; R r; G get; };
#define FLD(C, f) G([](OnlineLinearModel* m) { return (double)static_cast<C*>(m)->f; })
static const char* MODELS[] = {"perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"};
static G lam = [](OnlineLinearModel* m) { return (double)m->regularizer_->lambda_; };
static G thr = [](OnlineLinearModel* m) { return (double)static_cast<OnlineL1Regularizer*>(m->regularizer_)->sparse_thresh_; };
static std::vector<P> TAB = {
  {"*", "bias_eta", false, GE0, FLD(OnlineModel, bias_eta0_)}, {"*", "t", true, GE0, FLD(OnlineModel, initial_t_)}, {"*", "active_smoothness", false, GT0, FLD(OnlineModel, active_smoothness_)}, {"*2", "cost_margin", false, GT0, FLD(OnlineModel, cost_margin_)},
  {"|ogd|stg|fobos-l1|pet|", "power_t", false, GE0, FLD(OGD, power_t_)}, {"|ogd|stg|fobos-l1|pet|", "eta", false, GE0, FLD(OGD, eta0_)}, {"|stg|", "k", true, GT0, FLD(STG, k_)}, {"|pa1|", "C", false, ANY, FLD(PAI, C_)}, {"|pa2|", "C", false, ANY, FLD(PAII, C_)},
  {"|alma2|", "alpha", false, UNIT, FLD(ALMA2, alpha_)}, {"|alma2|", "C", false, ANY, FLD(ALMA2, C_)}, {"|alma2|", "k", true, GT0, FLD(ALMA2, k_)}, {"|rda|rda-l1|erda-l1|", "sigma", false, GT0, FLD(RDA, sigma_)}, {"|erda-l1|", "rou", false, GE0, FLD(ERDA_L1, rou_)},
  {"|sop|", "a", false, ANY, FLD(SOP, a_)}, {"|cw|", "a", false, ANY, FLD(CW, a_)}, {"|cw|", "phi", false, ANY, FLD(CW, phi_)}, {"|eccw|", "a", false, ANY, FLD(ECCW, a_)}, {"|eccw|", "phi", false, ANY, FLD(ECCW, phi_)}, {"|arow|sofs|", "r", false, ANY, FLD(AROW, r_)},
  {"|ada-fobos|ada-fobos-l1|adafobos-ofs|", "eta", false, GE0, FLD(AdaFOBOS, eta_)}, {"|ada-fobos|ada-fobos-l1|adafobos-ofs|", "delta", false, GT0, FLD(AdaFOBOS, delta_)}, {"|ada-rda|ada-rda-l1|adarda-ofs|", "eta", false, GE0, FLD(AdaRDA, eta_)}, {"|ada-rda|ada-rda-l1|adarda-ofs|", "delta", false, GT0, FLD(AdaRDA, delta_)},
  {"|fofs|", "eta", false, GE0, FLD(FOFS, eta_)}, {"|fofs|", "lambda", false, GE0, FLD(FOFS, lambda_)}, {"|fofs|", "B", true, GT0, FLD(FOFS, B_)},
  {"|stg|fobos-l1|rda-l1|erda-l1|ada-fobos-l1|ada-rda-l1|pet|sofs|adafobos-ofs|adarda-ofs|", "lambda", false, ANY, lam}, {"|pet|sofs|adafobos-ofs|adarda-ofs|", "B", false, ANY, lam}, {"|stg|fobos-l1|rda-l1|erda-l1|ada-fobos-l1|ada-rda-l1|", "sparse_thresh", false, ANY, thr}};
static const char* VALS[] = {"0", "1", "-1", "0.5", "-0.5", "1e-7", "-1e-7", "-0.0", "1.0000001", "2", "-2", "17", "1e30", "-1e30", "nan", "inf", "-inf", "2147483647", "-2147483648", "0.99999994", "-1.5", "1e-44", "", "abc", "99999999999"};
static bool set(M& m, const std::string& n, const std::string& v) { try { m->SetParameter(n, v); return true; } catch (std::exception&) { return false; } }
static void number(const char* mn, int cls) {
  M m((OnlineLinearModel*)Model::Create(mn, cls)); const char* v = VALS[bt::below(sizeof VALS / sizeof *VALS)]; std::string b;
  if (bt::chance(30)) { b = bt::fmt("%.9g", (float)((int)bt::below(4001) - 2000) / 1000.f); v = b.c_str(); }
  static std::vector<std::string> names; if (names.empty()) { for (auto& p : TAB) names.push_back(p.name); for (const char* x : {"zzz", "Eta", "et", "etaa", "", "lambda "}) names.push_back(x); }
  const std::string n = names[bt::below(names.size())]; bt::begin(bt::fmt("%s, %d classes: SetParameter(\"%s\", \"%s\")", mn, cls, n.c_str(), v));
  const P* p = nullptr; for (auto& q : TAB) if (n == q.name && (q.models[0] == '*' ? !q.models[1] || cls == 2 : strstr(q.models, ("|" + std::string(mn) + "|").c_str()) != nullptr)) p = &q;
  if (p && p->integer && std::string(v).find_first_not_of("-0123456789") != std::string::npos && v[0] != 'a') return;   // only whole numbers are documented
  bool got = set(m, n, v);
  if (!p) { EXPECT(!got, "an unknown parameter was accepted"); return; }
  double x; bool num = true; try { x = p->integer ? (double)std::stoi(v) : (double)std::stof(v); } catch (std::exception&) { num = false; x = 0; }
  if (p->integer && num && x > 2147480000.0 && n == "t") return;
  bool ok = num && (p->r == ANY || (p->r == GE0 && x >= 0) || (p->r == GT0 && x > 0) || (p->r == UNIT && x > 0 && x <= 1));
  EXPECT(got == ok, "the value was %s", got ? "accepted" : "refused"); if (!got) return; double y = p->get(m.get()); EXPECT(y == x || (x != x && y != y), "the value became %.9g", y);
}
static void choice(const char* mn, int cls) {
  M m((OnlineLinearModel*)Model::Create(mn, cls)); std::string s = mn;
  if (bt::chance(50)) {
    static const char* L[] = {"bool", "maxscore-bool", "uniform-bool", "square", "logistic", "maxscore-logistic", "uniform-logistic", "hinge", "maxscore-hinge", "uniform-hinge", "nosuch", ""}; int k = bt::below(12); std::string l = L[k]; bt::begin(bt::fmt("%s, %d classes: loss %s", mn, cls, l.c_str()));
    bool bc = k == 0 || k == 4 || k == 7, mc = k == 1 || k == 2 || k == 5 || k == 6 || k == 8 || k == 9, isb = k <= 2, ish = k >= 7 && k <= 9; bool ok = cls == 2 ? bc : mc; if (s == "perceptron" || s == "sop") ok = ok && isb; if (s == "alma2" || s == "arow" || s == "sofs" || s == "cw" || s == "eccw") ok = ok && ish;
    bool got = set(m, "loss", l); EXPECT(got == ok, "the loss was %s", got ? "accepted" : "refused");
  } else {
    static const char* N[] = {"None", "L1", "L2", "0", "1", "2", "3", "-1", "l1", "L3", "", "1x", "L22"}; int k = bt::below(13); bt::begin(bt::fmt("%s, %d classes: norm \"%s\"", mn, cls, N[k])); bool ok = k < 6 && (s != "alma2" || k % 3 == 2);
    bool got = set(m, "norm", N[k]); EXPECT(got == ok, "the norm was %s", got ? "accepted" : "refused"); if (ok) EXPECT((int)m->norm_type_ == k % 3, "the norm became %d", (int)m->norm_type_);
  }
}
static void classes(const char* mn) { int c = (int)bt::below(7) - 2; bt::begin(bt::fmt("%s with %d classes", mn, c)); bool got = true; try { M m((OnlineLinearModel*)Model::Create(mn, c)); if (!m) got = false; } catch (std::exception&) { got = false; } EXPECT(got == (c > 1), "%d classes were %s", c, got ? "accepted" : "refused"); }
int main(int c, char** v) { bt::init(c, v); while (bt::more()) { for (int i = 0; i < 50; ++i) { const char* m = MODELS[bt::below(24)]; int k = bt::chance(50) ? 2 : 3 + bt::below(3); if (bt::chance(75)) number(m, k); else if (bt::chance(85)) choice(m, k); else classes(m); } } return bt::finish(); }

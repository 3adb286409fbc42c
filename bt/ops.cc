// executable contracts of the vector expressions, against entry-by-entry evaluation
#include <new>
#include <cmath>
#include "ops_kernels.h"
#include "bt.h"
typedef std::vector<float> R; typedef std::vector<std::pair<index_t, float>> SX;
static float num() { return bt::chance(15) ? 0.f : bt::chance(50) ? (float)((int)bt::below(9) - 4) : (float)(bt::unit() * 4 - 2); }
static float tr(float a, float b) { return a >= 0 ? (a > b ? a - b : 0) : (-a > b ? a + b : 0); }
static bool near(float a, float b) { return bt::same(a, b) || a == b || std::fabs(a - b) <= 1e-5f * (std::fabs(a) + std::fabs(b)) + 1e-30f; }
static V mk(const R& r, size_t extra) { V v; if (extra) { v.resize(r.size() + extra); for (size_t i = 0; i < r.size() + extra; ++i) v[i] = 777.f; } v.resize(r.size()); for (size_t i = 0; i < r.size(); ++i) v[i] = r[i]; return v; }
static float ev(const std::string& k, float w, float u, float h, float x, float a, float b) {
#define E1(n, e) if (k == n) return e;
  E1("d_add_s", w + a) E1("d_sub_s", w - a) E1("d_mul_s", w * a) E1("d_div_s", w / a) E1("d_set_s", a) E1("d_add", w + u) E1("d_sub", w - u) E1("d_mul", w * u) E1("d_div", w / u) E1("d_set", u)
  E1("d_abs", w + std::fabs(u)) E1("d_trunc", tr(w, a * (b - u))) E1("d_trunc_h", tr(w, a * (b - u) / h)) E1("d_rda", -a * u) E1("d_rda_h", -a * u / h) E1("d_rdal1", -a * tr(u, b)) E1("d_rdal1_h", -a * tr(u, b) / h) E1("d_sop", u / (a + h))
  E1("s_add", w + x) E1("s_axpy1", w - a * x) E1("s_axpy", w - a * b * x) E1("s_ada", w - a * b * x / h) E1("s_cw", w - a * b * u * x) E1("s_sig", w / (1.f + a * w * (x * x))) E1("s_sig2", w / (1.f + w * (x * x) * a))
  E1("s_h", sqrtf((w - a) * (w - a) + (b * x) * (b * x)) + a) E1("s_trunc", tr(w, a * (b - u))) E1("s_trunc_h", tr(w, a * (b - u) / h)) E1("s_rda", -a * u) E1("s_rda_h", -a * u / h) E1("s_rdal1", -a * tr(u, b)) E1("s_rdal1_h", -a * tr(u, b) / h)
  E1("s_sop", u / (a + h + x * x)) E1("s_sq", w + x * x) E1("s_abs", std::fabs(u)) E1("s_abs2", w + std::fabs(u))
  E1("x_add", x + a) E1("x_sub", x - a) E1("x_mul", x * a) E1("x_div", x / a)
  abort();
}
struct KK { const char* n; void (*f)(V&, V&, V&, S&, float, float); };
#define KL(n) {#n, k_##n}
static KK ks[] = {KL(d_add_s), KL(d_sub_s), KL(d_mul_s), KL(d_div_s), KL(d_set_s), KL(d_add), KL(d_sub), KL(d_mul), KL(d_div), KL(d_set), KL(d_abs), KL(d_trunc), KL(d_trunc_h), KL(d_rda), KL(d_rda_h), KL(d_rdal1), KL(d_rdal1_h), KL(d_sop),
  KL(s_add), KL(s_axpy1), KL(s_axpy), KL(s_ada), KL(s_cw), KL(s_sig), KL(s_sig2), KL(s_h), KL(s_trunc), KL(s_trunc_h), KL(s_rda), KL(s_rda_h), KL(s_rdal1), KL(s_rdal1_h), KL(s_sop), KL(s_sq), KL(s_abs), KL(s_abs2), KL(x_add), KL(x_sub), KL(x_mul), KL(x_div)};
static const int NK = sizeof ks / sizeof *ks;
static std::string show(const SX& x) { std::string s = "{"; for (auto& p : x) s += bt::fmt("%u:%g ", p.first, p.second); return s + "}"; }
static void one() {
  size_t n = bt::chance(10) ? 0 : 1 + bt::below(bt::chance(10) ? 70 : 9), extra = bt::below(4);
  R w(n), u(n), h(n); for (auto& v : w) v = num(); for (auto& v : u) v = num(); for (auto& v : h) v = 0.5f + (float)bt::unit();
  SX x; for (index_t i = 0; i < n + 4; ++i) if (bt::chance(50)) x.push_back({i, num()}); if (bt::chance(5)) x.push_back({(index_t)-1, num()}); if (bt::chance(10)) x.clear();
  float a = num(), b = num(); int ki = bt::below(NK + 7);
  V W = mk(w, extra), U = mk(u, 0), H = mk(h, 0); S X; if (x.size() || bt::chance(50)) { X.reserve(x.size()); X.resize(0); } for (auto& p : x) X.push_back(p.first, p.second);
  const char* FN[] = {"dot", "dot_d", "dot_sq", "norm1", "norm2", "xnorm1", "xnorm2"};
  std::string k = ki < NK ? ks[ki].n : FN[ki - NK];
  bool mis = (k == "d_add" || k == "d_sub" || k == "d_mul" || k == "d_div" || k == "d_set" || k == "dot_d" || k == "d_abs") && bt::chance(15);
  if (mis) { size_t m = n + 1 + bt::below(3); u.assign(m, 1.f); U = mk(u, 0); }
  bt::begin(bt::fmt("%s: w %s u %s h %s x %s a %g b %g", k.c_str(), bt::list(w.data(), n).c_str(), bt::list(u.data(), u.size()).c_str(), bt::list(h.data(), n).c_str(), show(x).c_str(), a, b), n + x.size() > 0);
  float r = 0; bool th = false;
  try { if (ki < NK) ks[ki].f(W, U, H, X, a, b); else { float (*fs[])(V&, V&, V&, S&, float, float) = {f_dot, f_dot_d, f_dot_sq, f_norm1, f_norm2, f_xnorm1, f_xnorm2}; r = fs[ki - NK](W, U, H, X, a, b); } } catch (std::runtime_error&) { th = true; }
  EXPECT(th == mis, mis ? "operands of different shape were not refused" : "operands of one shape were refused");
  std::vector<float> ew = w, exv; for (auto& p : x) exv.push_back(p.second);
  if (!mis && ki < NK) {
    if (k[0] == 'd') for (size_t i = 0; i < n; ++i) ew[i] = ev(k, w[i], u[i], h[i], 0, a, b);
    else if (k[0] == 's') { for (auto& p : x) if (p.first < n) ew[p.first] = ev(k, w[p.first], u[p.first], h[p.first], p.second, a, b); }
    else for (auto& v : exv) v = ev(k, 0, 0, 0, v, a, b);
  }
  if (!mis && ki >= NK) {
    double e = 0, m = 0; auto add = [&](double t) { e += t; m += std::fabs(t); };
    if (k == "dot") { for (auto& p : x) if (p.first < n) add((double)w[p.first] * p.second); } else if (k == "dot_sq") { for (auto& p : x) if (p.first < n) add((double)w[p.first] * p.second * p.second); }
    else if (k == "dot_d") for (size_t i = 0; i < n; ++i) add((double)w[i] * u[i]); else if (k == "norm1") for (float v : w) add(std::fabs(v)); else if (k == "norm2") for (float v : w) add((double)v * v);
    else if (k == "xnorm1") for (auto& p : x) add(std::fabs(p.second)); else for (auto& p : x) add((double)p.second * p.second);
    EXPECT(std::fabs(r - e) <= 1e-5 * m + 1e-12, "the sum is %.9g, expected %.9g", r, e);
  }
  EXPECT(W.size() == n && U.size() == u.size() && H.size() == n && X.size() == x.size(), "a size changed");
  for (size_t i = 0; i < n; ++i) EXPECT(near(W[i], ew[i]), "entry %zu is %.9g, expected %.9g", i, W[i], ew[i]);
  for (size_t i = n; i < n + extra; ++i) EXPECT(W.begin()[i] == 777.f, "memory behind the vector was written (slot %zu)", i);
  for (size_t i = 0; i < u.size(); ++i) EXPECT(bt::same(U[i], u[i]), "operand u changed at %zu", i);
  for (size_t i = 0; i < n; ++i) EXPECT(bt::same(H[i], h[i]), "operand h changed at %zu", i);
  for (size_t i = 0; i < x.size(); ++i) EXPECT(X.index(i) == x[i].first && near(X.value(i), exv[i]), "example entry %zu is %u:%.9g, expected %u:%.9g", i, X.index(i), X.value(i), x[i].first, exv[i]);
}
static void mat() {
  size_t r = 1 + bt::below(4), c = 1 + bt::below(5), r2 = bt::chance(70) ? r : 1 + bt::below(4), c2 = bt::chance(70) ? c : 1 + bt::below(5); int op = bt::below(6); float a = num() + 5;
  Matrix<float> m, o; m.resize({r, c}); o.resize({r2, c2}); R M(r * c), O(r2 * c2); for (size_t i = 0; i < M.size(); ++i) m[i] = M[i] = num(); for (size_t i = 0; i < O.size(); ++i) o[i] = O[i] = num() + 9;
  bt::begin(bt::fmt("matrix op %d: %zux%zu with %zux%zu", op, r, c, r2, c2)); bool th = false, mis = r != r2 || c != c2;
  try { switch (op) { case 0: m += o; break; case 1: m -= o; break; case 2: m *= o; break; case 3: m /= o; break; case 4: m *= a; mis = false; break; case 5: m = m + o * a; break; } } catch (std::runtime_error&) { th = true; }
  EXPECT(th == mis, mis ? "matrices of different shape were not refused" : "matrices of one shape were refused");
  const Matrix<float>& cm = m;
  for (size_t y = 0; y < r; ++y) for (size_t x = 0; x < c; ++x) { size_t i = y * c + x; float e = M[i]; if (!mis) e = op == 0 ? M[i] + O[i] : op == 1 ? M[i] - O[i] : op == 2 ? M[i] * O[i] : op == 3 ? M[i] / O[i] : op == 4 ? M[i] * a : M[i] + O[i] * a;
    EXPECT(near(cm(x, y), e) && near(m[i], e), "element (%zu,%zu) is %.9g, expected %.9g", x, y, cm(x, y), e); }
}
int main(int c, char** v) { bt::init(c, v); while (bt::more()) { for (int i = 0; i < 500; ++i) one(); for (int i = 0; i < 30; ++i) mat(); } return bt::finish(); }

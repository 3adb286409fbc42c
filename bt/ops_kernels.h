// entry points: every vector expression the learners are made of
#include <cmath>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
using namespace sol; using namespace sol::math; using namespace sol::math::expr;
typedef Vector<float> V; typedef SVector<float> S;
#define K(n, ...) extern "C" void k_##n(V& w, V& u, V& h, S& x, float a, float b) { __VA_ARGS__; }
#define F(n, ...) extern "C" float f_##n(V& w, V& u, V& h, S& x, float a, float b) { return __VA_ARGS__; }
K(d_add_s, w += a) K(d_sub_s, w -= a) K(d_mul_s, w *= a) K(d_div_s, w /= a) K(d_set_s, w = a)
K(d_add, w += u) K(d_sub, w -= u) K(d_mul, w *= u) K(d_div, w /= u) K(d_set, w.assign(u))
K(d_abs, w += L1(u)) K(d_trunc, w = truncate(w, a * (b - u))) K(d_trunc_h, w = truncate(w, a * (b - u) / h))
K(d_rda, w = -a * u) K(d_rda_h, w = -a * u / h) K(d_rdal1, w = -a * truncate(u, b)) K(d_rdal1_h, w = -a * truncate(u, b) / h) K(d_sop, w = u / (a + h))
K(s_add, w += x) K(s_axpy1, w -= a * x) K(s_axpy, w -= a * b * x) K(s_ada, w -= a * b * x / h) K(s_cw, w -= a * b * u * x)
K(s_sig, w /= (1.f + a * w * L2(x))) K(s_sig2, w /= (1.f + w * L2(x) * a)) K(s_h, w = Sqrt(L2(w - a) + L2(b * x)) + a)
K(s_trunc, w = truncate(w.slice(x), a * (b - u))) K(s_trunc_h, w = truncate(w.slice(x), a * (b - u) / h))
K(s_rda, w = -a * u.slice(x)) K(s_rda_h, w = -a * u.slice(x) / h) K(s_rdal1, w = -a * truncate(u.slice(x), b)) K(s_rdal1_h, w = -a * truncate(u.slice(x), b) / h)
K(s_sop, w = u / (a + h + L2(x))) K(s_sq, w += L2(x)) K(s_abs, w = L1(u.slice(x))) K(s_abs2, w += L1(u.slice(x)))
K(x_add, x += a) K(x_sub, x -= a) K(x_mul, x *= a) K(x_div, x /= a)
F(dot, dotmul(w, x)) F(dot_d, dotmul(w, u)) F(dot_sq, dotmul(w, L2(x)))
F(norm1, Norm1(w)) F(norm2, Norm2(w)) F(xnorm1, reduce<op::plus>(L1(x))) F(xnorm2, Norm2(x))
extern "C" float v_trunc(float a, float b) { return truncate(a, b); }

// entry points of the containers
#include <new>
#include <sol/math/vector.h>
#include <sol/math/sparse_vector.h>
using namespace sol; using namespace sol::math;
template class sol::math::Vector<float>;
template class sol::math::Vector<uint32_t>;
extern "C" {
void v_vec_clear(Vector<float>& v) { v.clear(); }
void v_vec_pop(Vector<float>& v) { v.pop_back(); }
void v_vec_reserve(Vector<float>& v, size_t n) { v.reserve(n); }
void v_vec_make(void* p, size_t n) { new (p) Vector<float>(n); }
void v_mat_resize(Matrix<float>& m, const Shape<2>& s) { m.resize(s); }
void v_vec_copy(void* p, const Vector<float>& s) { new (p) Vector<float>(s); }
void v_vec_assign(Vector<float>& d, const Vector<float>& s) { d = s; }
void v_vec_destroy(Vector<float>& v) { v.Vector<float>::~Vector(); }
void v_svec_resize(SVector<float>& v, size_t n) { v.resize(n); }
void v_svec_push(SVector<float>& v, uint32_t i, float x) { v.push_back(i, x); }
void v_svec_clear(SVector<float>& v) { v.clear(); }
void v_svec_copy(void* p, const SVector<float>& s) { new (p) SVector<float>(s); }
void v_svec_assign(SVector<float>& d, const SVector<float>& s) { d = s; }
void v_svec_destroy(SVector<float>& v) { v.SVector<float>::~SVector(); }
}

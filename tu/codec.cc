// entry points of the index codec, for the index types the library supports
#include <sol/pario/compress.h>
using namespace sol; using namespace sol::math; using namespace sol::pario;
template class sol::math::Vector<char>;
template class sol::math::Vector<uint16_t>;
template class sol::math::Vector<uint32_t>;
template class sol::math::Vector<uint64_t>;
#define INST(N, T) extern "C" { \
  void v_comp_##N(const Vector<T>& x, Vector<char>& codes) { comp_index(x, codes); } \
  int v_decomp_##N(const Vector<char>& codes, Vector<T>& y) { return decomp_index(codes, y); } \
  int v_decomp_any_##N(const Vector<char>& codes, Vector<T>& y) { return decomp_index(codes, y); } \
  int v_roundtrip_##N(const Vector<T>& x, Vector<char>& codes, Vector<T>& y) { \
    codes.clear(); v_comp_##N(x, codes); return v_decomp_##N(codes, y); } }
INST(t, uint16_t) INST(j, uint32_t) INST(m, uint64_t)

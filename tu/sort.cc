// entry points: sorting of examples
#include <src/sol/pario/data_point.cc>
using namespace sol; using namespace sol::math; using namespace sol::pario;
template class sol::math::Vector<float>;
template class sol::math::Vector<uint32_t>;
extern "C" {
void v_sort(DataPoint& p) { p.Sort(); }
bool v_is_sorted(const DataPoint& p) { return p.IsSorted(); }
void v_clone(const DataPoint& p, DataPoint& q) { p.Clone(q); }
void v_clear(DataPoint& p) { p.Clear(); }
void v_add(DataPoint& p, uint32_t i, float f) { p.AddNewFeat(i, f); }
}

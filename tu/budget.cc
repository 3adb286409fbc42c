// entry points: the feature-selecting learners
#include "model.cc"
U(PET) E(AdaRDA_OFS) Z(AdaRDA_OFS) Z(AdaFOBOS_OFS) Z(SOFS) U(SOFS) U(AdaFOBOS_OFS) U(AdaRDA_OFS)
O(PET, abs, abs_weights_) O(FOFS, abs, abs_weights_) O(FOFS, B, B_) O(PET, B, l0_.lambda_) O(AdaRDA_OFS, B, l0_.lambda_) O(AdaFOBOS_OFS, B, l0_.lambda_) O(SOFS, B, l0_.lambda_)
O(PET, heap, min_heap_) O(FOFS, heap, min_heap_) O(AdaRDA_OFS, heap, min_heap_) O(AdaFOBOS_OFS, heap, min_heap_) O(SOFS, heap, max_heap_)
O(AdaRDA_OFS, Hs, H_sum_) O(AdaFOBOS_OFS, Hs, H_sum_)
extern "C" long o_Heap_id2pos() { return (long)__builtin_offsetof(MinHeap, id2pos_map_); }

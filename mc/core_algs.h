// The masked multiplication algorithms behind one run-time interface.
#pragma once
#include "alg.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"

namespace mcx {
// groups: 1 hash, 2 msa, 3 mca + heap, 4 old msa/heap variants, 5 inner
template<class IT, class NT> std::vector<Alg<IT, NT>> algs(int groups) {
    std::vector<Alg<IT, NT>> v;
#define MCX_A(G, NAME, COMPL, SORTED, ...) \
    v.push_back({NAME " 1p", G, COMPL, 1, SORTED, false, &MaskedSpGEMM1p<__VA_ARGS__, IT, NT, Mul<NT>, Add<NT>>, nullptr}); \
    v.push_back({NAME " 2p", G, COMPL, 2, SORTED, false, &MaskedSpGEMM2p<__VA_ARGS__, IT, NT, Mul<NT>, Add<NT>>, nullptr});
#if MCX_GROUPS & 1
    if (groups & 1) {
        MCX_A(1, "MaskedHash", false, true, MaskedHash<false, false>::template Impl)
        MCX_A(1, "MaskedHash compl sorted", true, true, MaskedHash<true, true>::template Impl)
        MCX_A(1, "MaskedHash compl unsorted", true, false, MaskedHash<true, false>::template Impl)
    }
#endif
#if MCX_GROUPS & 2
    if (groups & 2) {
        MCX_A(2, "MSA1A", false, true, MSA1A<false, false>::template Impl)
        MCX_A(2, "MSA2A", false, true, MSA2A<false, false>::template Impl)
        MCX_A(2, "MSA1A compl sorted", true, true, MSA1A<true, true>::template Impl)
        MCX_A(2, "MSA1A compl unsorted", true, false, MSA1A<true, false>::template Impl)
        MCX_A(2, "MSA2A compl sorted", true, true, MSA2A<true, true>::template Impl)
        MCX_A(2, "MSA2A compl unsorted", true, false, MSA2A<true, false>::template Impl)
    }
#endif
#if MCX_GROUPS & 4
    if (groups & 4) {
        MCX_A(3, "MCA", false, true, MCA<false, false>::template Impl)
        MCX_A(3, "MaskedHeap<0>", false, true, MaskedHeap<false, true, 0>::template Impl)
        MCX_A(3, "MaskedHeap<1>", false, true, MaskedHeap<false, true, 1>::template Impl)
        MCX_A(3, "MaskedHeap<2>", false, true, MaskedHeap<false, true, 2>::template Impl)
        MCX_A(3, "MaskedHeap<8>", false, true, MaskedHeap<false, true, 8>::template Impl)
        MCX_A(3, "MaskedHeap<64>", false, true, MaskedHeap<false, true, 64>::template Impl)
        MCX_A(3, "MaskedHeap<dot>", false, true, MaskedHeap<false, true, MaskedHeapDot>::template Impl)
        MCX_A(3, "MaskedHeap compl", true, true, MaskedHeap<true, true, 0>::template Impl)
    }
#endif
#if MCX_GROUPS & 8
    if (groups & 8) {
        MCX_A(4, "MSA1A_old", false, true, MSA1A_old)
        MCX_A(4, "MSA2A_old", false, true, MSA2A_old)
        MCX_A(4, "MaskedHeap_v0", false, true, MaskedHeap_v0)
        MCX_A(4, "MaskedHeap_v1", false, true, MaskedHeap_v1)
        MCX_A(4, "MaskedHeap_v2", false, true, MaskedHeap_v2)
    }
#endif
#if MCX_GROUPS & 16
    if (groups & 16) {
        v.push_back({"MaskedInner 1p", 5, false, 1, true, true, nullptr, &MaskedSpGEMM1p<MaskedInner, false, IT, NT, Mul<NT>, Add<NT>>});
        v.push_back({"MaskedInner 2p", 5, false, 2, true, true, nullptr, &MaskedSpGEMM2p<MaskedInner, false, IT, NT, Mul<NT>, Add<NT>>});
        v.push_back({"InnerProduct 1p", 5, false, 1, true, true, nullptr, &MaskedSpGEMM1pInnerProduct<IT, NT, Mul<NT>, Add<NT>>});
        v.push_back({"InnerProduct 2p", 5, false, 2, true, true, nullptr, &MaskedSpGEMM2pInnerProduct<IT, NT, Mul<NT>, Add<NT>>});
    }
#endif
#undef MCX_A
    return v;
}
} // namespace mcx

/* Exposes to the simulator what a library target defines only as macros or types: object sizes and alignments, and the
   state-layer entry points that a target may implement as macros.  Everything else is looked up by name. */
#include <stddef.h>
#include <stdint.h>
#include "config.h"
#include "align.h"
#define TYPE(name, type) const unsigned long sim_sz_##name[2] = { sizeof(type), _Alignof(type) };

#if PART == 1
#include "KeccakSponge.h"
#include "KeccakHash.h"
#include "SimpleFIPS202.h"
#include "SP800-185.h"
#include "TurboSHAKE.h"
#include "KangarooTwelve.h"
#include "KeccakDuplex.h"
#include "KeccakPRG.h"
TYPE(sponge, KeccakWidth1600_SpongeInstance)
TYPE(hash, Keccak_HashInstance)
TYPE(turbo, TurboSHAKE_Instance)
TYPE(cshake, cSHAKE_Instance)
TYPE(kmac, KMAC_Instance)
TYPE(phash, ParallelHash_Instance)
TYPE(thash, TupleHash_Instance)
TYPE(tuple, TupleElement)
TYPE(kt, KangarooTwelve_Instance)
TYPE(duplex, KeccakWidth1600_DuplexInstance)
TYPE(prg, KeccakWidth1600_SpongePRG_Instance)

#elif PART == 2
#include "Kravatte.h"
#include "KravatteModes.h"
TYPE(kravatte, Kravatte_Instance)
TYPE(ksane, Kravatte_SANE_Instance)
TYPE(ksanse, Kravatte_SANSE_Instance)

#elif PART == 3
#include "Xoofff.h"
#include "XoofffModes.h"
#include "Xoodyak.h"
TYPE(xoofff, Xoofff_Instance)
TYPE(xsane, XoofffSANE_Instance)
TYPE(xsanse, XoofffSANSE_Instance)
TYPE(xoodyak, Xoodyak_Instance)

#elif PART == 4
#include "KeccakP-1600-SnP.h"
TYPE(K1600, KeccakP1600_state)
void shim_K1600_StaticInitialize(void) { KeccakP1600_StaticInitialize(); }
void shim_K1600_AddByte(KeccakP1600_state *s, unsigned char b, unsigned int o) { KeccakP1600_AddByte(s, b, o); }
#define PL(P, N)                                                                                                      \
    TYPE(N, P##_states)                                                                                               \
    void shim_##N##_StaticInitialize(void) { P##_StaticInitialize(); }                                                \
    void shim_##N##_AddByte(P##_states *s, unsigned int i, unsigned char b, unsigned int o) { P##_AddByte(s, i, b, o); }
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
PL(KeccakP1600times2, K1600x2)
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
PL(KeccakP1600times4, K1600x4)
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
PL(KeccakP1600times8, K1600x8)
#endif

/* optional functions count only where the target's headers offer them */
#ifdef KeccakF1600_FastLoop_supported
const char sim_has_KeccakF1600_FastLoop = 1;
#endif
#ifdef KeccakP1600_12rounds_FastLoop_supported
const char sim_has_KeccakP1600_12rounds_FastLoop = 1;
#endif
#ifdef KeccakF1600times2_FastLoop_supported
const char sim_has_KeccakF1600times2_FastLoop = 1;
#endif
#ifdef KeccakP1600times2_12rounds_FastLoop_supported
const char sim_has_KeccakP1600times2_12rounds_FastLoop = 1;
#endif
#ifdef KeccakP1600times2_KT128ProcessLeaves_supported
const char sim_has_KeccakP1600times2_KT128ProcessLeaves = 1;
#endif
#ifdef KeccakP1600times2_KT256ProcessLeaves_supported
const char sim_has_KeccakP1600times2_KT256ProcessLeaves = 1;
#endif
#ifdef KeccakF1600times4_FastLoop_supported
const char sim_has_KeccakF1600times4_FastLoop = 1;
#endif
#ifdef KeccakP1600times4_12rounds_FastLoop_supported
const char sim_has_KeccakP1600times4_12rounds_FastLoop = 1;
#endif
#ifdef KeccakP1600times4_KT128ProcessLeaves_supported
const char sim_has_KeccakP1600times4_KT128ProcessLeaves = 1;
#endif
#ifdef KeccakP1600times4_KT256ProcessLeaves_supported
const char sim_has_KeccakP1600times4_KT256ProcessLeaves = 1;
#endif
#ifdef KeccakF1600times8_FastLoop_supported
const char sim_has_KeccakF1600times8_FastLoop = 1;
#endif
#ifdef KeccakP1600times8_12rounds_FastLoop_supported
const char sim_has_KeccakP1600times8_12rounds_FastLoop = 1;
#endif
#ifdef KeccakP1600times8_KT128ProcessLeaves_supported
const char sim_has_KeccakP1600times8_KT128ProcessLeaves = 1;
#endif
#ifdef KeccakP1600times8_KT256ProcessLeaves_supported
const char sim_has_KeccakP1600times8_KT256ProcessLeaves = 1;
#endif

#elif PART == 5
#include "Xoodoo-SnP.h"
TYPE(Xoodoo, Xoodoo_state)
void shim_Xoodoo_StaticInitialize(void) { Xoodoo_StaticInitialize(); }
void shim_Xoodoo_AddByte(Xoodoo_state *s, unsigned char b, unsigned int o) { Xoodoo_AddByte(s, b, o); }
#define PL(P, N)                                                                                                      \
    TYPE(N, P##_states)                                                                                               \
    void shim_##N##_StaticInitialize(void) { P##_StaticInitialize(); }                                                \
    void shim_##N##_AddByte(P##_states *s, unsigned int i, unsigned char b, unsigned int o) { P##_AddByte(s, i, b, o); }
#ifdef XKCP_has_Xoodootimes4
#include "Xoodoo-times4-SnP.h"
PL(Xoodootimes4, Xoodoox4)
#endif
#ifdef XKCP_has_Xoodootimes8
#include "Xoodoo-times8-SnP.h"
PL(Xoodootimes8, Xoodoox8)
#endif
#ifdef XKCP_has_Xoodootimes16
#include "Xoodoo-times16-SnP.h"
PL(Xoodootimes16, Xoodoox16)
#endif
#endif

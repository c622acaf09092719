// The public and state-layer functions of one library target, looked up in its shared object.
#pragma once
#include "ref.hpp"

#define API_HIGH(F) \
 F(int, KeccakWidth1600_Sponge, (unsigned, unsigned, const u8 *, size_t, u8, u8 *, size_t)) \
 F(int, KeccakWidth1600_SpongeInitialize, (void *, unsigned, unsigned)) \
 F(int, KeccakWidth1600_SpongeAbsorb, (void *, const u8 *, size_t)) \
 F(int, KeccakWidth1600_SpongeAbsorbLastFewBits, (void *, u8)) \
 F(int, KeccakWidth1600_SpongeSqueeze, (void *, u8 *, size_t)) \
 F(int, Keccak_HashInitialize, (void *, unsigned, unsigned, unsigned, u8)) \
 F(int, Keccak_HashUpdate, (void *, const u8 *, size_t)) \
 F(int, Keccak_HashFinal, (void *, u8 *)) \
 F(int, Keccak_HashSqueeze, (void *, u8 *, size_t)) \
 F(int, SHAKE128, (u8 *, size_t, const u8 *, size_t)) \
 F(int, SHAKE256, (u8 *, size_t, const u8 *, size_t)) \
 F(int, SHA3_224, (u8 *, const u8 *, size_t)) \
 F(int, SHA3_256, (u8 *, const u8 *, size_t)) \
 F(int, SHA3_384, (u8 *, const u8 *, size_t)) \
 F(int, SHA3_512, (u8 *, const u8 *, size_t)) \
 F(int, TurboSHAKE, (unsigned, const u8 *, size_t, u8, u8 *, size_t)) \
 F(int, TurboSHAKE_Initialize, (void *, unsigned)) \
 F(int, TurboSHAKE_Absorb, (void *, const u8 *, size_t)) \
 F(int, TurboSHAKE_AbsorbDomainSeparationByte, (void *, u8)) \
 F(int, TurboSHAKE_Squeeze, (void *, u8 *, size_t)) \
 F(int, cSHAKE128, (const u8 *, size_t, u8 *, size_t, const u8 *, size_t, const u8 *, size_t)) \
 F(int, cSHAKE256, (const u8 *, size_t, u8 *, size_t, const u8 *, size_t, const u8 *, size_t)) \
 F(int, cSHAKE128_Initialize, (void *, size_t, const u8 *, size_t, const u8 *, size_t)) \
 F(int, cSHAKE256_Initialize, (void *, size_t, const u8 *, size_t, const u8 *, size_t)) \
 F(int, cSHAKE128_Update, (void *, const u8 *, size_t)) F(int, cSHAKE256_Update, (void *, const u8 *, size_t)) \
 F(int, cSHAKE128_Final, (void *, u8 *)) F(int, cSHAKE256_Final, (void *, u8 *)) \
 F(int, cSHAKE128_Squeeze, (void *, u8 *, size_t)) F(int, cSHAKE256_Squeeze, (void *, u8 *, size_t)) \
 F(int, KMAC128, (const u8 *, size_t, const u8 *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, KMAC256, (const u8 *, size_t, const u8 *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, KMAC128_Initialize, (void *, const u8 *, size_t, size_t, const u8 *, size_t)) \
 F(int, KMAC256_Initialize, (void *, const u8 *, size_t, size_t, const u8 *, size_t)) \
 F(int, KMAC128_Update, (void *, const u8 *, size_t)) F(int, KMAC256_Update, (void *, const u8 *, size_t)) \
 F(int, KMAC128_Final, (void *, u8 *)) F(int, KMAC256_Final, (void *, u8 *)) \
 F(int, KMAC128_Squeeze, (void *, u8 *, size_t)) F(int, KMAC256_Squeeze, (void *, u8 *, size_t)) \
 F(int, ParallelHash128, (const u8 *, size_t, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, ParallelHash256, (const u8 *, size_t, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, ParallelHash128_Initialize, (void *, size_t, size_t, const u8 *, size_t)) \
 F(int, ParallelHash256_Initialize, (void *, size_t, size_t, const u8 *, size_t)) \
 F(int, ParallelHash128_Update, (void *, const u8 *, size_t)) F(int, ParallelHash256_Update, (void *, const u8 *, size_t)) \
 F(int, ParallelHash128_Final, (void *, u8 *)) F(int, ParallelHash256_Final, (void *, u8 *)) \
 F(int, ParallelHash128_Squeeze, (void *, u8 *, size_t)) F(int, ParallelHash256_Squeeze, (void *, u8 *, size_t)) \
 F(int, TupleHash128, (const void *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, TupleHash256, (const void *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, TupleHash128_Initialize, (void *, size_t, const u8 *, size_t)) \
 F(int, TupleHash256_Initialize, (void *, size_t, const u8 *, size_t)) \
 F(int, TupleHash128_Update, (void *, const void *, size_t)) F(int, TupleHash256_Update, (void *, const void *, size_t)) \
 F(int, TupleHash128_Final, (void *, u8 *)) F(int, TupleHash256_Final, (void *, u8 *)) \
 F(int, TupleHash128_Squeeze, (void *, u8 *, size_t)) F(int, TupleHash256_Squeeze, (void *, u8 *, size_t)) \
 F(int, KangarooTwelve, (int, const u8 *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, KT128, (const u8 *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, KT256, (const u8 *, size_t, u8 *, size_t, const u8 *, size_t)) \
 F(int, KangarooTwelve_Initialize, (void *, int, size_t)) \
 F(int, KangarooTwelve_Update, (void *, const u8 *, size_t)) \
 F(int, KangarooTwelve_Final, (void *, u8 *, const u8 *, size_t)) \
 F(int, KangarooTwelve_Squeeze, (void *, u8 *, size_t)) \
 F(int, KeccakWidth1600_DuplexInitialize, (void *, unsigned, unsigned)) \
 F(int, KeccakWidth1600_Duplexing, (void *, const u8 *, unsigned, u8 *, unsigned, u8)) \
 F(int, KeccakWidth1600_DuplexingFeedPartialInput, (void *, const u8 *, unsigned)) \
 F(int, KeccakWidth1600_DuplexingFeedZeroes, (void *, unsigned)) \
 F(int, KeccakWidth1600_DuplexingOverwritePartialInput, (void *, const u8 *, unsigned)) \
 F(int, KeccakWidth1600_DuplexingOverwriteWithZeroes, (void *, unsigned)) \
 F(int, KeccakWidth1600_DuplexingGetFurtherOutput, (void *, u8 *, unsigned)) \
 F(int, KeccakWidth1600_DuplexingGetFurtherOutputAndAdd, (void *, const u8 *, u8 *, unsigned)) \
 F(int, KeccakWidth1600_SpongePRG_Initialize, (void *, unsigned)) \
 F(int, KeccakWidth1600_SpongePRG_Feed, (void *, const u8 *, unsigned)) \
 F(int, KeccakWidth1600_SpongePRG_Fetch, (void *, u8 *, unsigned)) \
 F(int, KeccakWidth1600_SpongePRG_Forget, (void *)) \
 F(int, Kravatte_MaskDerivation, (void *, const u8 *, size_t)) \
 F(int, Kra, (void *, const u8 *, size_t, int)) \
 F(int, Vatte, (void *, u8 *, size_t, int)) \
 F(int, Kravatte, (void *, const u8 *, size_t, u8 *, size_t, int)) \
 F(int, Kravatte_SANE_Initialize, (void *, const u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, Kravatte_SANE_Wrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, Kravatte_SANE_Unwrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, const u8 *)) \
 F(int, Kravatte_SANSE_Initialize, (void *, const u8 *, size_t)) \
 F(int, Kravatte_SANSE_Wrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, Kravatte_SANSE_Unwrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, const u8 *)) \
 F(int, Kravatte_WBC_Encipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, Kravatte_WBC_Decipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, Kravatte_WBCAE_Encipher, (void *, u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, Kravatte_WBCAE_Decipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, Xoofff_MaskDerivation, (void *, const u8 *, size_t)) \
 F(int, Xoofff_Compress, (void *, const u8 *, size_t, int)) \
 F(int, Xoofff_Expand, (void *, u8 *, size_t, int)) \
 F(int, Xoofff, (void *, const u8 *, size_t, u8 *, size_t, int)) \
 F(int, XoofffSANE_Initialize, (void *, const u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, XoofffSANE_Wrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, XoofffSANE_Unwrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, const u8 *)) \
 F(int, XoofffSANSE_Initialize, (void *, const u8 *, size_t)) \
 F(int, XoofffSANSE_Wrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, u8 *)) \
 F(int, XoofffSANSE_Unwrap, (void *, const u8 *, u8 *, size_t, const u8 *, size_t, const u8 *)) \
 F(int, XoofffWBC_Encipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, XoofffWBC_Decipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, XoofffWBCAE_Encipher, (void *, u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(int, XoofffWBCAE_Decipher, (void *, const u8 *, u8 *, size_t, const u8 *, size_t)) \
 F(void, Xoodyak_Initialize, (void *, const u8 *, size_t, const u8 *, size_t, const u8 *, size_t)) \
 F(void, Xoodyak_Absorb, (void *, const u8 *, size_t)) \
 F(void, Xoodyak_Encrypt, (void *, const u8 *, u8 *, size_t)) \
 F(void, Xoodyak_Decrypt, (void *, const u8 *, u8 *, size_t)) \
 F(void, Xoodyak_Squeeze, (void *, u8 *, size_t)) \
 F(void, Xoodyak_SqueezeKey, (void *, u8 *, size_t)) \
 F(void, Xoodyak_Ratchet, (void *))

#define API_SIZES(F) F(sponge) F(hash) F(turbo) F(cshake) F(kmac) F(phash) F(thash) F(tuple) F(kt) F(duplex) F(prg) \
 F(kravatte) F(ksane) F(ksanse) F(xoofff) F(xsane) F(xsanse) F(xoodyak)

struct Size { size_t size = 0, align = 1; };

// one state layer: Keccak-p[1600] or Xoodoo, 1 or N states at a time; absent functions are null
struct Snp {
    bool present = false;
    unsigned width = 200, lane = 8, par = 1;
    Size sz;
    void (*StaticInitialize)() = nullptr;
    void (*Initialize)(void *) = nullptr;
    // one state
    void (*AddByte1)(void *, u8, unsigned) = nullptr;
    void (*AddBytes1)(void *, const u8 *, unsigned, unsigned) = nullptr;
    void (*OverwriteBytes1)(void *, const u8 *, unsigned, unsigned) = nullptr;
    void (*OverwriteWithZeroes1)(void *, unsigned) = nullptr;
    void (*ExtractBytes1)(const void *, u8 *, unsigned, unsigned) = nullptr;
    void (*ExtractAndAddBytes1)(const void *, const u8 *, u8 *, unsigned, unsigned) = nullptr;
    void (*Permute_Nrounds)(void *, unsigned) = nullptr;
    size_t (*FastLoop1[2])(void *, unsigned, const u8 *, size_t) = {nullptr, nullptr};        // 24, 12 rounds
    // several states
    void (*AddByte)(void *, unsigned, u8, unsigned) = nullptr;
    void (*AddBytes)(void *, unsigned, const u8 *, unsigned, unsigned) = nullptr;
    void (*OverwriteBytes)(void *, unsigned, const u8 *, unsigned, unsigned) = nullptr;
    void (*OverwriteWithZeroes)(void *, unsigned, unsigned) = nullptr;
    void (*ExtractBytes)(const void *, unsigned, u8 *, unsigned, unsigned) = nullptr;
    void (*ExtractAndAddBytes)(const void *, unsigned, const u8 *, u8 *, unsigned, unsigned) = nullptr;
    void (*AddLanesAll)(void *, const u8 *, unsigned, unsigned) = nullptr;
    void (*OverwriteLanesAll)(void *, const u8 *, unsigned, unsigned) = nullptr;
    void (*ExtractLanesAll)(const void *, u8 *, unsigned, unsigned) = nullptr;
    void (*ExtractAndAddLanesAll)(const void *, const u8 *, u8 *, unsigned, unsigned) = nullptr;
    size_t (*FastLoop[2])(void *, unsigned, unsigned, unsigned, const u8 *, size_t) = {nullptr, nullptr};
    void (*ProcessLeaves[2])(const u8 *, u8 *) = {nullptr, nullptr};
    // permutations by number of rounds
    struct Perm { unsigned rounds; void (*f)(void *); };
    std::vector<Perm> perms;
};

struct Segment { u8 *p; size_t n; Bytes pristine; };

struct Api {
    std::string name;
    void *handle = nullptr;
#define F(r, n, a) r (*n) a = nullptr;
    API_HIGH(F)
#undef F
#define F(n) Size sz_##n;
    API_SIZES(F)
#undef F
    Snp snp[4];              // Keccak-p[1600]: 1, 2, 4, 8 states
    Snp xoo[4];              // Xoodoo: 1, 4, 8, 16 states
    int (*KeccakSum_main)(int, char **) = nullptr;
    std::vector<Segment> data;    // writable memory of the shared object, as it was right after loading
    u64 lo = 0, hi = 0;           // the image of the shared object
    void restorePristine() const;
};

bool loadApis(const std::string &dir, std::string &error);
const std::vector<Api *> &apis();
const Api *apiByName(const std::string &n);
bool inBackend(const void *p);  // an address in the image of one of them

// Streams of more than 4 GiB: the same stream given (or taken) in one call and in ordinary pieces must be the same.
// The data repeats with a period, so that 4 GiB of addresses need only one period of memory, and so that the tree hashes can be
// compared with their models, which remember the chaining value of a leaf they have seen.
#include "core.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
using ref::Bits;

namespace {
const size_t PERIOD = 4096 * 257;

// addresses of which many share the same memory
struct Window {
    u8 *base;
    size_t n = 0;
    int fd = -1;
    Window(u64 at, size_t bytes, bool writable) : base(reinterpret_cast<u8 *>(at)), n((bytes + PERIOD - 1) / PERIOD * PERIOD)
    {
        fd = memfd_create("window", 0);
        if (fd < 0 || ftruncate(fd, PERIOD)) { perror("window"); _exit(2); }
        for (size_t o = 0; o < n; o += PERIOD)
            if (mmap(base + o, PERIOD, writable ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0) != base + o) { perror("window"); _exit(2); }
    }
    void fill(const Bytes &b) { if (pwrite(fd, b.data(), PERIOD, 0) != ssize_t(PERIOD)) { perror("window"); _exit(2); } }
    Bytes content() const { Bytes b(PERIOD); if (pread(fd, b.data(), PERIOD, 0) != ssize_t(PERIOD)) { perror("window"); _exit(2); } return b; }
    ~Window() { munmap(base, n); close(fd); }
};
const u64 IN_AT = 0x300000000000ull, OUT_AT = 0x310000000000ull;

enum { SPONGE, HASH, TURBO, CSHAKE, KMAC, TUPLE, PHASH, KT, KRAVATTE, XOOFFF, ALGS };
enum { ABSORB, SQUEEZE, ONE_IN, ONE_OUT, CUSTOM };
const char *const algNames[ALGS] = {"sponge", "hash", "TurboSHAKE", "cSHAKE", "KMAC", "TupleHash", "ParallelHash", "KangarooTwelve", "Kravatte", "Xoofff"};

struct Stream {
    const Api *A;
    int alg, lv;
    size_t B;
    Inst i;
    static Size size(const Api *A, int alg)
    {
        switch (alg) {
            case SPONGE: return A->sz_sponge; case HASH: return A->sz_hash; case TURBO: return A->sz_turbo; case CSHAKE: return A->sz_cshake; case KMAC: return A->sz_kmac;
            case TUPLE: return A->sz_thash; case PHASH: return A->sz_phash; case KT: return A->sz_kt; case KRAVATTE: return A->sz_kravatte; default: return A->sz_xoofff;
        }
    }
    Task *t;
    Stream(Task *t_, const Api *a, int alg_, int lv_, size_t B_) : A(a), alg(alg_), lv(lv_), B(B_), i(t_, size(a, alg_)), t(t_) {}
#define LV(f) (lv ? A->f##256 : A->f##128)
#define LF(f, g) (lv ? A->f##256_##g : A->f##128_##g)
    u8 key[32] = {1, 2, 3, 4, 5};
    void init()
    {
        t->ok("init", [&] {
            switch (alg) {
                case SPONGE: return A->KeccakWidth1600_SpongeInitialize(i.p(), lv ? 1088 : 1344, lv ? 512 : 256);
                case HASH: return A->Keccak_HashInitialize(i.p(), lv ? 1088 : 1344, lv ? 512 : 256, 0, 0x1F);
                case TURBO: return A->TurboSHAKE_Initialize(i.p(), lv ? 512 : 256);
                case CSHAKE: return LF(cSHAKE, Initialize)(i.p(), 0, key, 24, key, 40);
                case KMAC: return LF(KMAC, Initialize)(i.p(), key, 256, 0, key, 40);
                case TUPLE: return LF(TupleHash, Initialize)(i.p(), 0, key, 40);
                case PHASH: return LF(ParallelHash, Initialize)(i.p(), B, 0, key, 40);
                case KT: return A->KangarooTwelve_Initialize(i.p(), lv ? 256 : 128, 0);
                case KRAVATTE: return A->Kravatte_MaskDerivation(i.p(), key, 256);
                default: return A->Xoofff_MaskDerivation(i.p(), key, 256);
            }
        });
    }
    bool fresh = true;
    void absorb(const u8 *p, size_t n)
    {
        t->ok("absorb", [&] {
            switch (alg) {
                case SPONGE: return A->KeccakWidth1600_SpongeAbsorb(i.p(), p, n);
                case HASH: return A->Keccak_HashUpdate(i.p(), p, n * 8);
                case TURBO: return A->TurboSHAKE_Absorb(i.p(), p, n);
                case CSHAKE: return LF(cSHAKE, Update)(i.p(), p, n * 8);
                case KMAC: return LF(KMAC, Update)(i.p(), p, n * 8);
                case TUPLE: { struct { const u8 *p; size_t n; } e{p, n * 8}; return LF(TupleHash, Update)(i.p(), &e, 1); }
                case PHASH: return LF(ParallelHash, Update)(i.p(), p, n * 8);
                case KT: return A->KangarooTwelve_Update(i.p(), p, n);
                case KRAVATTE: return A->Kra(i.p(), p, n * 8, fresh ? 1 : 0);
                default: return A->Xoofff_Compress(i.p(), p, n * 8, fresh ? 1 : 0);
            }
        });
        fresh = false;
    }
    void finish(const u8 *c = nullptr, size_t cn = 0)
    {
        t->ok("finish", [&] {
            switch (alg) {
                case SPONGE: return A->KeccakWidth1600_SpongeAbsorbLastFewBits(i.p(), 0x1F);
                case HASH: return A->Keccak_HashFinal(i.p(), nullptr);
                case TURBO: return A->TurboSHAKE_AbsorbDomainSeparationByte(i.p(), 0x1F);
                case CSHAKE: return LF(cSHAKE, Final)(i.p(), nullptr);
                case KMAC: return LF(KMAC, Final)(i.p(), nullptr);
                case TUPLE: return LF(TupleHash, Final)(i.p(), nullptr);
                case PHASH: return LF(ParallelHash, Final)(i.p(), nullptr);
                case KT: return A->KangarooTwelve_Final(i.p(), nullptr, c, cn);
                case KRAVATTE: return A->Kra(i.p(), key, 0, fresh ? 3 : 2);
                default: return A->Xoofff_Compress(i.p(), key, 0, fresh ? 3 : 2);
            }
        });
    }
    void squeeze(u8 *p, size_t n)
    {
        t->ok("squeeze", [&] {
            switch (alg) {
                case SPONGE: return A->KeccakWidth1600_SpongeSqueeze(i.p(), p, n);
                case HASH: return A->Keccak_HashSqueeze(i.p(), p, n * 8);
                case TURBO: return A->TurboSHAKE_Squeeze(i.p(), p, n);
                case CSHAKE: return LF(cSHAKE, Squeeze)(i.p(), p, n * 8);
                case KMAC: return LF(KMAC, Squeeze)(i.p(), p, n * 8);
                case TUPLE: return LF(TupleHash, Squeeze)(i.p(), p, n * 8);
                case PHASH: return LF(ParallelHash, Squeeze)(i.p(), p, n * 8);
                case KT: return A->KangarooTwelve_Squeeze(i.p(), p, n);
                case KRAVATTE: return A->Vatte(i.p(), p, n * 8, 0);
                default: return A->Xoofff_Expand(i.p(), p, n * 8, 0);
            }
        });
    }
    // the one-shot function; false if this algorithm has none with the parameters used here
    bool one(const u8 *p, size_t n, u8 *q, size_t m)
    {
        if (alg == TUPLE || alg == KRAVATTE || alg == XOOFFF) return false;
        t->ok("one-shot", [&] {
            switch (alg) {
                case SPONGE: return A->KeccakWidth1600_Sponge(lv ? 1088 : 1344, lv ? 512 : 256, p, n, 0x1F, q, m);
                case HASH: return lv ? A->SHAKE256(q, m, p, n) : A->SHAKE128(q, m, p, n);
                case TURBO: return A->TurboSHAKE(lv ? 512 : 256, p, n, 0x1F, q, m);
                case CSHAKE: return LV(cSHAKE)(p, n * 8, q, m * 8, key, 24, key, 40);
                case KMAC: return LV(KMAC)(key, 256, p, n * 8, q, m * 8, key, 40);
                case PHASH: return LV(ParallelHash)(p, n * 8, B, q, m * 8, key, 40);
                default: return A->KangarooTwelve(lv ? 256 : 128, p, n, q, m, nullptr, 0);
            }
        });
        return true;
    }
};

struct GiantS : SessionOf<GiantS> {
    using SessionOf::SessionOf;
    Bytes period;
    const u8 *at(u64 o) const { return &period[o % PERIOD]; }
    Bytes piece(u64 o, size_t n) const { Bytes b; while (n) { size_t k = std::min<size_t>(n, PERIOD - o % PERIOD); b.insert(b.end(), at(o), at(o) + k); o += k; n -= k; } return b; }

    // the tree hashes: leaves at the same place of the period have the same chaining value
    Bytes leaf(std::map<u64, Bytes> &memo, u64 o, size_t n, unsigned rate, unsigned nr, u8 d, size_t cv) const
    {
        bool whole = true;
        auto m = memo.find(o % PERIOD * 2 + whole);
        if (m != memo.end() && memoLen == n) return m->second;
        ref::Sponge l;
        l.init(rate, nr);
        l.absorb(piece(o, n));
        l.finish(d);
        Bytes c = l.squeeze(cv);
        if (memoLen == n) memo[o % PERIOD * 2 + whole] = c;
        return c;
    }
    mutable size_t memoLen = 0;
    Bytes treeModel(int alg, int lv, size_t B, u64 n, size_t custom, u64 outBits, size_t take) const
    {
        std::map<u64, Bytes> memo;
        Bytes key = {1, 2, 3, 4, 5};
        int level = lv ? 256 : 128;
        unsigned rate = 1600 - 2 * unsigned(level);
        auto be = [](u64 v) { Bytes b; for (; v; v >>= 8) b.insert(b.begin(), u8(v)); return b; };
        ref::Sponge f;
        if (alg == PHASH) {
            memoLen = B;
            auto enc = [&](u64 v) { Bytes b = be(v); if (b.empty()) b.push_back(0); return b; };
            // the prefix: what cSHAKE absorbs before its input
            auto left = [&](u64 v) { Bytes b = enc(v); b.insert(b.begin(), u8(b.size())); return b; };
            auto right = [&](u64 v) { Bytes b = enc(v); b.push_back(u8(b.size())); return b; };
            f.init(rate, 24);
            Bytes pre = left(rate / 8) + left(96) + bytesOf("ParallelHash") + left(40) + key;
            while (pre.size() % (rate / 8)) pre.push_back(0);
            f.absorb(pre);
            f.absorb(left(B));
            u64 k = 0;
            for (u64 o = 0; o < n; o += B, k++) f.absorb(leaf(memo, o, size_t(std::min<u64>(B, n - o)), rate, 24, 0x1F, size_t(level / 4)));
            f.absorb(right(k));
            f.absorb(right(outBits));
            f.finish(0x04);
            return f.squeeze(take);
        }
        // KangarooTwelve: message and customization are one stream; the length of the customization follows
        Bytes tail = be(custom);
        tail.push_back(u8(tail.size()));
        u64 total = n + custom + tail.size();
        auto get = [&](u64 o, size_t k) { Bytes b = piece(o, size_t(std::min<u64>(k, o < n + custom ? n + custom - o : 0))); while (b.size() < k) { b.push_back(tail[o + b.size() - n - custom]); } return b; };
        f.init(rate, 12);
        memoLen = 8192;
        f.absorb(get(0, 8192));
        f.absorb(Bytes{3, 0, 0, 0, 0, 0, 0, 0});
        u64 k = 0;
        for (u64 o = 8192; o < total; o += 8192, k++) {
            if (o + 8192 <= n + custom) { f.absorb(leaf(memo, o, 8192, rate, 12, 0x0B, size_t(level / 4))); continue; }
            ref::Sponge l;
            l.init(rate, 12);
            l.absorb(get(o, size_t(std::min<u64>(8192, total - o))));
            l.finish(0x0B);
            f.absorb(l.squeeze(size_t(level / 4)));
        }
        Bytes kk = be(k);
        kk.push_back(u8(kk.size()));
        f.absorb(kk);
        f.absorb(Bytes{0xFF, 0xFF});
        f.finish(0x06);
        return f.squeeze(take);
    }

    // authenticated sessions and stored data of more than 2^32 bits: round trip, and what is changed or cut by 2^32 bits is noticed
    void sealed(const Op &o)                 // which: SANE, SANSE, WBC, WBC-AE of Kravatte, then of Xoofff; bytes; seed; metadata is the long part
    {
        int which = int(o[0]) % 8, mode = which % 4, xo = which / 4;
        size_t n = size_t(std::max<i64>(o[1], 20000)), adn = 40;
        n = std::min<size_t>(n, size_t(1) << 30);
        bool longAd = mode < 2 && (o[3] & 1);
        Rng r(mix(u64(o[2])));
        period = dataOf(2 + u64(o[2]), PERIOD);
        t->callBudget = INT64_MAX / 4;
        Window in(IN_AT, n + 8192, false);
        in.fill(period);
        if (longAd) { adn = n; n = 1000 + size_t(r.range(0, 100)); }
        const u8 *P = in.base, *AD = in.base;
        const u64 cut = u64(1) << 29;
        struct Mem {
            u8 *p; size_t n;
            explicit Mem(size_t k) : n(k + 16) { p = static_cast<u8 *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (p == MAP_FAILED) { perror("memory"); _exit(2); } }
            ~Mem() { munmap(p, n); }
        };
        Mem C(n), Q(n);
        Bytes K = dataOf(77, 16), N = dataOf(78, 16);
        Buf k = t->in(K), nn = t->in(N), tag = t->out(32), tag2 = t->out(32);
        auto size = [&](const Api *A) { return mode == 0 ? (xo ? A->sz_xsane : A->sz_ksane) : mode == 1 ? (xo ? A->sz_xsanse : A->sz_ksanse) : xo ? A->sz_xoofff : A->sz_kravatte; };
        Inst w(t, size(t->A)), u(t, size(t->B));
        auto init = [&](const Api *A, void *x, Buf &tg) {
            t->ok("init", [&] {
                if (mode == 0) return (xo ? A->XoofffSANE_Initialize : A->Kravatte_SANE_Initialize)(x, k.p(), 128, nn.p(), 128, tg.p());
                if (mode == 1) return (xo ? A->XoofffSANSE_Initialize : A->Kravatte_SANSE_Initialize)(x, k.p(), 128);
                return (xo ? A->Xoofff_MaskDerivation : A->Kravatte_MaskDerivation)(x, k.p(), 128);
            });
        };
        init(t->A, w.p(), tag);
        init(t->B, u.p(), tag2);
        static const char *const names[] = {"SANE", "SANSE", "WBC", "WBC-AE"};
        std::string what = std::string(xo ? "Xoofff-" : "Kravatte-") + names[mode] + (longAd ? " with metadata of " : " over ") + std::to_string(longAd ? adn : n) + " bytes";
        t->state(u64(which), longAd);
        t->fault(F_GIANT);
        auto flip = [&](u64 bit) { C.p[bit / 8] ^= u8(1u << (bit & 7)); };
        u64 bit = r.chance(1, 2) ? u64(n) * 8 - 1 - r.below(64) : r.below(u64(n) * 8);
        auto same = [&] {
            for (size_t i = 0; i < n; i += PERIOD) if (memcmp(Q.p + i, period.data(), std::min(PERIOD, n - i))) t->fail("model-mismatch", what + ": the data read back differs from byte " + std::to_string(i) + " on");
        };
        if (mode < 2) {
            auto A = t->A, B = t->B;
            t->ok("wrap", [&] { return mode == 0 ? (xo ? A->XoofffSANE_Wrap : A->Kravatte_SANE_Wrap)(w.p(), P, C.p, n * 8, AD, adn * 8, tag.p()) : (xo ? A->XoofffSANSE_Wrap : A->Kravatte_SANSE_Wrap)(w.p(), P, C.p, n * 8, AD, adn * 8, tag.p()); });
            auto unwrap = [&](size_t len, size_t al) {
                Inst x(u);        // what is refused must not reach the session
                return t->rcall("unwrap", [&] { return mode == 0 ? (xo ? B->XoofffSANE_Unwrap : B->Kravatte_SANE_Unwrap)(x.p(), C.p, Q.p, len * 8, AD, al * 8, tag.p()) : (xo ? B->XoofffSANSE_Unwrap : B->Kravatte_SANSE_Unwrap)(x.p(), C.p, Q.p, len * 8, AD, al * 8, tag.p()); });
            };
            flip(bit);
            t->fault(F_NET_BITFLIP);
            if (!unwrap(n, adn)) t->fail("forgery-accepted", what + ": accepted with ciphertext bit " + std::to_string(bit) + " changed");
            for (size_t i = 0; i < n; i++) if (Q.p[i]) t->fail("plaintext-released", what + ": refused, but byte " + std::to_string(i) + " of the plaintext buffer is not erased");
            flip(bit);
            if ((longAd ? adn : n) > cut) {
                t->fault(longAd ? F_NET_AD : F_NET_TRUNCATE);
                if (!(longAd ? unwrap(n, adn - cut) : unwrap(n - cut, adn))) t->fail("forgery-accepted", what + ": accepted when cut by 2^32 bits");
            }
            if (unwrap(n, adn)) t->fail("refused", what + ": the authentic message was refused");
            same();
            size_t tail = std::min<size_t>(n, 4096);
            if (!memcmp(C.p + n - tail, P + n - tail, tail)) t->fail("model-mismatch", what + ": the end was not encrypted");
            t->record("sealed", tag.get());
            t->record("end", Bytes(C.p + n - tail, C.p + n));
            return;
        }
        bool ae = mode == 3;
        u64 bits = u64(n) * 8 - (ae ? 128 : 0);
        auto A = t->A, B = t->B;
        if (ae) {
            for (size_t i = 0; i < n - 16; i += PERIOD) memcpy(Q.p + i, period.data(), std::min(PERIOD, n - 16 - i));
            t->ok("encipher", [&] { return (xo ? A->XoofffWBCAE_Encipher : A->Kravatte_WBCAE_Encipher)(w.p(), Q.p, C.p, bits, AD, adn * 8); });
            n -= 16;
            same();
            n += 16;
        }
        else t->ok("encipher", [&] { return (xo ? A->XoofffWBC_Encipher : A->Kravatte_WBC_Encipher)(w.p(), P, C.p, bits, AD, adn * 8); });
        size_t at[3] = {0, size_t(r.below(n - 4096)), n - 4096 - 16};
        for (size_t a : at) {
            Bytes c(C.p + a, C.p + a + 4096), p = piece(a, 4096);
            if (c == p) t->fail("model-mismatch", what + ": bytes from " + std::to_string(a) + " on were not enciphered");
            t->record("ciphertext", c);
        }
        if (ae) {
            flip(bit);
            t->fault(F_DISK_ROT);
            int rc = t->rcall("decipher", [&] { return (xo ? B->XoofffWBCAE_Decipher : B->Kravatte_WBCAE_Decipher)(u.p(), C.p, Q.p, bits, AD, adn * 8); });
            if (!rc) t->fail("tampering-accepted", what + ": accepted with bit " + std::to_string(bit) + " changed");
            flip(bit);
        }
        t->ok("decipher", [&] { return (xo ? (ae ? B->XoofffWBCAE_Decipher : B->XoofffWBC_Decipher) : ae ? B->Kravatte_WBCAE_Decipher : B->Kravatte_WBC_Decipher)(u.p(), C.p, Q.p, bits, AD, adn * 8); });
        if (ae) n -= 16;
        same();
    }

    void op(const Op &o) override            // algorithm, way, bytes, seed, level, log2 of the block
    {
        if (o.c == "sealed") return sealed(o);
        if (o.c != "giant") return;
        int alg = int(o[0]) % ALGS, way = int(o[1]), lv = int(o[4] & 1);
        size_t n = size_t(std::max<i64>(o[2], 20000)), B = size_t(1) << std::min<i64>(std::max<i64>(o[5], 3), 20);
        n = std::min<size_t>(n, size_t(6) << 30);
        Rng r(mix(u64(o[3])));
        period = dataOf(2 + u64(o[3]), PERIOD);
        t->callBudget = INT64_MAX / 4;
        std::string what = std::string(algNames[alg]) + " over " + std::to_string(n) + " bytes";
        const size_t m = 64;
        bool out = way == SQUEEZE || way == ONE_OUT;
        bool onlyOne = way == ONE_OUT && alg != TUPLE && alg != KRAVATTE && alg != XOOFFF && alg != KMAC && alg != PHASH;
        // the size given is that of the giant call; little ones come before and after it
        size_t a = size_t(r.range(0, 300)), z = size_t(r.range(0, 300));
        if (out) { if (onlyOne) a = 0; n += a; }
        else if (way == CUSTOM && alg == KT) n += a;
        else if (way != ONE_IN && alg != TUPLE) n += a + z;
        Window in(IN_AT, out ? PERIOD : n + 8192, false);
        in.fill(period);
        t->state(u64(alg), u64(way), u64(lv));
        if (!out) {
            Bytes got, want;
            {                                   // at once
                Stream s(t, t->A, alg, lv, B);
                Buf q = t->out(m);
                if (way == ONE_IN && s.one(in.base, n, q.p(), m)) ;
                else if (way == CUSTOM && alg == KT) { s.init(); s.absorb(in.base, a); s.finish(in.base + a, n - a); s.squeeze(q.p(), m); }
                else if (alg == TUPLE) { s.init(); s.absorb(in.base, n); s.finish(); s.squeeze(q.p(), m); }
                else {
                    s.init();
                    s.absorb(in.base, a);
                    s.absorb(in.base + a, n - a - z);
                    s.absorb(in.base + n - z, z);
                    s.finish();
                    s.squeeze(q.p(), m);
                }
                got = q.get();
            }
            t->fault(F_GIANT);
            t->record("giant input", got);
            if (alg == PHASH || alg == KT) want = treeModel(alg, lv, B, way == CUSTOM && alg == KT ? a : n, way == CUSTOM && alg == KT ? n - a : 0, way == ONE_IN ? m * 8 : 0, m);
            else {                              // in pieces
                int alg2 = alg;
                Stream s(t, t->B, alg2 == TUPLE ? CSHAKE : alg2, lv, B);
                Buf q = t->out(m);
                if (way == ONE_IN && alg == KMAC) {         // the output length is part of the input
                    t->ok("KMAC_Initialize", [&] { return lv ? t->B->KMAC256_Initialize(s.i.p(), s.key, 256, m * 8, s.key, 40) : t->B->KMAC128_Initialize(s.i.p(), s.key, 256, m * 8, s.key, 40); });
                }
                else if (alg == TUPLE) {
                    static const u8 name[] = "TupleHash";
                    t->ok("cSHAKE_Initialize", [&] { return lv ? t->B->cSHAKE256_Initialize(s.i.p(), 0, name, 72, s.key, 40) : t->B->cSHAKE128_Initialize(s.i.p(), 0, name, 72, s.key, 40); });
                    Bytes l = ref::leftEncode(u64(n) * 8).b;
                    Buf lb = t->in(l);
                    s.absorb(lb.p(), l.size());
                }
                else s.init();
                for (size_t p = 0; p < n;) {
                    size_t k = std::min<size_t>(n - p, size_t(r.chance(1, 50) ? r.range(1, 9000) : r.range(1 << 19, 1 << 22)));
                    s.absorb(in.base + p, k);
                    p += k;
                }
                if (alg == TUPLE) { Bytes e = ref::rightEncode(0).b; Buf eb = t->in(e); s.absorb(eb.p(), e.size()); }
                if (way == ONE_IN && alg == KMAC) {
                    Buf f = t->out(m);
                    t->ok("KMAC_Final", [&] { return lv ? t->B->KMAC256_Final(s.i.p(), f.p()) : t->B->KMAC128_Final(s.i.p(), f.p()); });
                    want = f.get();
                }
                else { s.finish(); s.squeeze(q.p(), m); want = q.get(); }
                t->fault(F_FRAGMENT, n >> 21);
            }
            t->expect((what + (way == ONE_IN ? " with the one-shot function" : way == CUSTOM ? " of customization" : " in one call")).c_str(), got, want);
            return;
        }
        // output
        Window ow(OUT_AT, n + 8192, true);
        Bytes blank = dataOf(9, PERIOD), got, want, got2, want2;
        {
            Stream s(t, t->A, alg, lv, B);
            ow.fill(blank);
            Buf q = t->out(m);
            if (onlyOne) s.one(in.base, 200, ow.base, n);
            else { s.init(); s.absorb(in.base, 200); s.finish(); s.squeeze(ow.base, a); s.squeeze(ow.base + a, n - a); s.squeeze(q.p(), m); got2 = q.get(); }
            got = ow.content();
        }
        t->fault(F_GIANT);
        t->record("giant output", got);
        t->record("output after a giant output", got2);
        {
            Stream s(t, t->B, alg, lv, B);
            ow.fill(blank);
            Buf q = t->out(m);
            s.init(); s.absorb(in.base, 200); s.finish();
            s.squeeze(ow.base, a);
            for (size_t p = a; p < n;) {
                size_t k = std::min<size_t>(n - p, size_t(r.chance(1, 50) ? r.range(1, 9000) : r.range(1 << 19, 1 << 22)));
                s.squeeze(ow.base + p, k);
                p += k;
            }
            if (!onlyOne) { s.squeeze(q.p(), m); want2 = q.get(); }
            want = ow.content();
            t->fault(F_FRAGMENT, n >> 21);
        }
        t->expect((what + " of output").c_str(), got, want);
        t->expect((what + " of output, what follows").c_str(), got2, want2);
    }
};
void genGiant(GenCtx &, TaskPlan &) {}
KIND("giant", GiantS, genGiant)
}

// Sessions of the sponge-based hash functions: sponge, FIPS 202, TurboSHAKE, SP 800-185, KangarooTwelve.
#include "core.hpp"
using ref::Bits;
#include <algorithm>

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
const std::vector<i64> stdRates = {576, 832, 1024, 1072, 1088, 1152, 1152, 1344};
i64 pickRate(Rng &r) { return r.chance(6, 10) ? r.pick(stdRates) : r.chance(1, 2) ? 64 * r.range(1, 25) : 8 * r.range(1, 200); }

Bytes clean(Bytes b, u64 bits) { if (bits & 7) b.back() &= (1u << (bits & 7)) - 1; return b; }

// what all these objects have in common: absorb, finish, squeeze
struct Xof {
    enum Phase { NONE, ABS, SQZ, DONE } ph = NONE;
    Bits msg;
    ref::Sponge sp;
    u64 inN = 0, outN = 0;
};

// ---------------------------------------------------------------- KeccakWidth1600_Sponge

struct SpongeS : SessionOf<SpongeS>, Xof {
    Inst i;
    unsigned rate = 0;
    explicit SpongeS(Task *t) : SessionOf(t), i(t, t->A->sz_sponge) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {
            rate = unsigned(clampI(o[0] / 8 * 8, 8, 1600));
            if (ph != NONE) t->fault(F_REINIT);
            t->ok("SpongeInitialize", [&] { return A->KeccakWidth1600_SpongeInitialize(i.p(), rate, 1600 - rate); });
            ph = ABS;
            inN = outN = 0;
            if (t->model()) sp.init(rate, 24);
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Bytes d = dataOf(o[1], n);
            Buf b = t->in(d);
            t->ok("SpongeAbsorb", [&] { return A->KeccakWidth1600_SpongeAbsorb(i.p(), b.p(), n); });
            if (t->model()) sp.absorb(d);
            t->state(1, inN % (rate / 8), lenClass(n, rate / 8), rate);
            inN += n;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            u8 s = u8(o[0]);
            if (!s) s = 1;
            t->ok("SpongeAbsorbLastFewBits", [&] { return A->KeccakWidth1600_SpongeAbsorbLastFewBits(i.p(), s); });
            if (t->model()) sp.finish(s);
            t->state(2, inN % (rate / 8), s >= 0x80, rate);
            ph = SQZ;
        }
        else if (o.c == "sqz") {
            if (ph == NONE) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Buf b = t->out(n);
            t->ok("SpongeSqueeze", [&] { return A->KeccakWidth1600_SpongeSqueeze(i.p(), b.p(), n); });
            if (ph == ABS) { if (t->model()) sp.finish(1); ph = SQZ; }
            t->state(3, outN % (rate / 8), lenClass(n, rate / 8), rate);
            outN += n;
            t->fault(F_FRAGMENT);
            t->output("sponge output", b, [&] { return sp.squeeze(n); });
        }
        else if (o.c == "one") {
            unsigned r = unsigned(clampI(o[0] / 8 * 8, 8, 1600));
            u8 s = u8(o[1]) ? u8(o[1]) : 1;
            size_t n = size_t(std::max<i64>(0, o[2])), m = size_t(std::max<i64>(0, o[4]));
            Bytes d = dataOf(o[3], n);
            Buf b = t->in(d), q = t->out(m);
            t->ok("Sponge", [&] { return A->KeccakWidth1600_Sponge(r, 1600 - r, b.p(), n, s, q.p(), m); });
            t->state(4, lenClass(n, r / 8), lenClass(m, r / 8), r);
            t->output("one-shot sponge output", q, [&] { return ref::sponge(r, 24, d, s, m); });
        }
        else if (o.c == "!absorb") {
            if (ph != SQZ) return;
            Buf b = t->in(o[1], size_t(std::max<i64>(1, o[0])));
            t->refused("SpongeAbsorb after squeezing", t->rcall("SpongeAbsorb", [&] { return A->KeccakWidth1600_SpongeAbsorb(i.p(), b.p(), b.size()); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && !(ph == ABS && o[0] == 0)) return;
            u8 s = ph == ABS ? 0 : u8(o[0]);
            t->refused("SpongeAbsorbLastFewBits", t->rcall("SpongeAbsorbLastFewBits", [&] { return A->KeccakWidth1600_SpongeAbsorbLastFewBits(i.p(), s); }), {});
        }
        else if (o.c == "!init") {          // refused parameters must leave a session in progress alone
            if (ph == NONE) return;
            unsigned r, k;
            switch (o[0] & 3) { case 0: r = 0; k = 1600; break; case 1: r = 1088; k = 256; break; case 2: r = 1087; k = 513; break; default: r = 1608; k = unsigned(-8); }
            t->refused("SpongeInitialize", t->rcall("SpongeInitialize", [&] { return A->KeccakWidth1600_SpongeInitialize(i.p(), r, k); }), {});
        }
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 20), q = t->out(32);
            unsigned r = 1088, k = 512;
            u8 s = 6;
            switch (o[0] & 3) { case 0: r = 0; k = 1600; break; case 1: k = 256; break; case 2: r = 1087; k = 513; break; default: s = 0; }
            t->refused("Sponge", t->rcall("Sponge", [&] { return A->KeccakWidth1600_Sponge(r, k, b.p(), 20, s, q.p(), 32); }), {&q});
        }
    }
};
void genStream(GenCtx &g, TaskPlan &p, i64 block, i64 blocks, std::initializer_list<const char *> bad)
{
    Rng &r = g.r;
    std::vector<const char *> b(bad);
    auto misuse = [&] { if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(b), {r.range(0, 7), i64(r.dseed())})); };
    for (int k = int(r.range(0, g.ops)); k > 0; k--) { misuse(); p.ops.push_back(mk("upd", {r.len(block, blocks), i64(r.dseed())})); }
}
void genSponge(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    auto bad = {"!absorb", "!fin", "!init", "!one"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 rate = pickRate(r), rb = rate / 8, blocks = rate < 64 ? 8 : r.range(1, g.big ? 20 : 4);
        p.ops.push_back(mk("init", {rate}));
        genStream(g, p, rb, blocks, bad);
        if (!r.chance(1, 8)) p.ops.push_back(mk("fin", {r.chance(1, 2) ? r.pick({1, 6, 0x1F, 4, 0x80, 0xFF}) : r.range(1, 255)}));
        for (int k = int(r.range(1, 6)); k > 0; k--) {
            p.ops.push_back(mk("sqz", {r.len(rb, blocks)}));
            if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(std::vector<const char *>(bad)), {r.range(0, 7), i64(r.dseed())}));
        }
        if (r.chance(1, 2)) p.ops.push_back(mk("one", {pickRate(r), r.range(1, 255), r.len(rb, blocks), i64(r.dseed()), r.len(rb, blocks)}));
    }
}

// ---------------------------------------------------------------- Keccak_Hash and the one-shot FIPS 202 functions

struct HashS : SessionOf<HashS>, Xof {
    Inst i;
    unsigned rate = 0, fixedBits = 0;
    u8 suffix = 0;
    bool partial = false;
    explicit HashS(Task *t) : SessionOf(t), i(t, t->A->sz_hash) {}
    void finish()
    {
        // message bits, then the bits of the delimited suffix
        Bits m = msg;
        unsigned top = 7;
        while (!(suffix >> top & 1)) top--;
        for (unsigned k = 0; k <= top; k++) m.push(suffix >> k & 1);
        // the last pushed bit is the first bit of padding
        u8 last = m.b.back();
        m.b.pop_back();
        sp.init(rate, 24);
        sp.absorb(m.b);
        sp.finish(last);
    }
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {
            static const unsigned tab[6][4] = {{1344, 0, 0x1F, 0}, {1088, 0, 0x1F, 0}, {1152, 224, 6, 0}, {1088, 256, 6, 0}, {832, 384, 6, 0}, {576, 512, 6, 0}};
            if (o[0] < 6) { auto &x = tab[clampI(o[0], 0, 5)]; rate = x[0]; fixedBits = x[1]; suffix = u8(x[2]); }
            else { rate = unsigned(clampI(o[1] / 8 * 8, 8, 1600)); fixedBits = unsigned(clampI(o[2] / 8 * 8, 0, 4096)); suffix = u8(o[3]) ? u8(o[3]) : 1; }
            if (ph != NONE) t->fault(F_REINIT);
            t->ok("Keccak_HashInitialize", [&] { return A->Keccak_HashInitialize(i.p(), rate, 1600 - rate, fixedBits, suffix); });
            ph = ABS;
            partial = false;
            inN = outN = 0;
            msg = Bits();
        }
        else if (o.c == "upd") {                  // length in bits
            if (ph != ABS || partial) return;
            u64 n = u64(std::max<i64>(0, o[0]));
            Bytes d = dataOf(o[1], (n + 7) / 8);  // bits beyond the length are deliberately left dirty
            Buf b = t->in(d);
            t->ok("Keccak_HashUpdate", [&] { return A->Keccak_HashUpdate(i.p(), b.p(), n); });
            if (n & 7) partial = true;
            if (t->model()) msg.append(Bits(d, n));
            t->state(1, inN % (rate / 8), lenClass(n / 8, rate / 8) * 8 + (n & 7), rate);
            inN += n / 8;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            Buf b = t->out(fixedBits / 8);
            t->ok("Keccak_HashFinal", [&] { return A->Keccak_HashFinal(i.p(), b.p()); });
            if (t->model()) finish();
            ph = SQZ;
            outN = fixedBits / 8;
            t->state(2, inN % (rate / 8), partial, rate + suffix * 2000);
            t->output("Keccak_HashFinal output", b, [&] { return sp.squeeze(fixedBits / 8); });
        }
        else if (o.c == "sqz") {
            if (ph != SQZ) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Buf b = t->out(n);
            t->ok("Keccak_HashSqueeze", [&] { return A->Keccak_HashSqueeze(i.p(), b.p(), n * 8); });
            t->state(3, outN % (rate / 8), lenClass(n, rate / 8), rate);
            outN += n;
            t->fault(F_FRAGMENT);
            t->output("Keccak_HashSqueeze output", b, [&] { return sp.squeeze(n); });
        }
        else if (o.c == "one") {
            size_t n = size_t(std::max<i64>(0, o[1])), m = size_t(std::max<i64>(0, o[3]));
            static const unsigned tab[6][3] = {{1344, 0x1F, 0}, {1088, 0x1F, 0}, {1152, 6, 28}, {1088, 6, 32}, {832, 6, 48}, {576, 6, 64}};
            auto &x = tab[clampI(o[0], 0, 5)];
            if (x[2]) m = x[2];
            Bytes d = dataOf(o[2], n);
            Buf b = t->in(d), q = t->out(m);
            t->ok("FIPS 202 one-shot", [&] {
                switch (clampI(o[0], 0, 5)) {
                    case 0: return A->SHAKE128(q.p(), m, b.p(), n);
                    case 1: return A->SHAKE256(q.p(), m, b.p(), n);
                    case 2: return A->SHA3_224(q.p(), b.p(), n);
                    case 3: return A->SHA3_256(q.p(), b.p(), n);
                    case 4: return A->SHA3_384(q.p(), b.p(), n);
                    default: return A->SHA3_512(q.p(), b.p(), n);
                }
            });
            t->state(4, lenClass(n, x[0] / 8), lenClass(m, x[0] / 8), u64(o[0]));
            t->output("FIPS 202 one-shot output", q, [&] { return ref::sponge(x[0], 24, d, u8(x[1]), m); });
        }
        else if (o.c == "!upd") {
            if (ph != SQZ) return;
            Buf b = t->in(o[1], 8);
            u64 n = u64(o[0] % 2 ? 64 : 8 + o[0] % 8);
            t->refused("Keccak_HashUpdate after Keccak_HashFinal", t->rcall("Keccak_HashUpdate", [&] { return A->Keccak_HashUpdate(i.p(), b.p(), n); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ) return;
            Buf b = t->out(fixedBits / 8);
            t->refused("Keccak_HashFinal twice", t->rcall("Keccak_HashFinal", [&] { return A->Keccak_HashFinal(i.p(), b.p()); }), {&b});
        }
        else if (o.c == "!sqz") {
            if (ph != SQZ) return;
            Buf b = t->out(16);
            u64 n = u64(clampI(o[0], 1, 7) + 8 * (o[1] & 7));
            t->refused("Keccak_HashSqueeze of a non-byte length", t->rcall("Keccak_HashSqueeze", [&] { return A->Keccak_HashSqueeze(i.p(), b.p(), n); }), {&b});
        }
        else if (o.c == "!init") {
            if (ph == NONE) return;
            unsigned r = 1088, c = 512;
            u8 s = 6;
            switch (o[0] & 3) { case 0: s = 0; break; case 1: c = 256; break; case 2: r = 0; c = 1600; break; default: r = 1087; c = 513; }
            t->refused("Keccak_HashInitialize", t->rcall("Keccak_HashInitialize", [&] { return A->Keccak_HashInitialize(i.p(), r, c, 256, s); }), {});
        }
    }
};
void genHash(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    auto bad = {"!upd", "!fin", "!sqz", "!init"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 alg = r.range(0, 8), rate = alg < 6 ? std::vector<i64>{1344, 1088, 1152, 1088, 832, 576}[alg] : pickRate(r);
        i64 rb = rate / 8, blocks = rate < 64 ? 8 : r.range(1, g.big ? 20 : 4);
        p.ops.push_back(mk("init", {alg, rate, 8 * r.pick({0, 0, 28, 32, 64, rb, rb + 1, 2 * rb}), r.chance(1, 2) ? r.pick({1, 6, 0x1F, 0x80}) : r.range(1, 255)}));
        auto misuse = [&] { if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(std::vector<const char *>(bad)), {r.range(0, 7), i64(r.dseed())})); };
        for (int k = int(r.range(0, g.ops)); k > 0; k--) { misuse(); p.ops.push_back(mk("upd", {8 * r.len(rb, blocks), i64(r.dseed())})); }
        if (r.chance(1, 3)) p.ops.push_back(mk("upd", {8 * r.len(rb, 2) + r.range(1, 7), i64(r.dseed())}));
        misuse();
        p.ops.push_back(mk("fin", {}));
        for (int k = int(r.range(0, 6)); k > 0; k--) { misuse(); p.ops.push_back(mk("sqz", {r.len(rb, blocks)})); }
        misuse();
        if (r.chance(1, 2)) p.ops.push_back(mk("one", {r.range(0, 5), r.len(rb, blocks), i64(r.dseed()), r.len(rb, blocks)}));
    }
}

// ---------------------------------------------------------------- TurboSHAKE

struct TurboS : SessionOf<TurboS>, Xof {
    Inst i;
    unsigned rate = 0;
    explicit TurboS(Task *t) : SessionOf(t), i(t, t->A->sz_turbo) {}
    static unsigned cap(i64 c) { return unsigned(clampI(c / 8 * 8, 0, 512)); }
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {
            unsigned c = cap(o[0]);
            rate = 1600 - c;
            if (ph != NONE) t->fault(F_REINIT);
            t->ok("TurboSHAKE_Initialize", [&] { return A->TurboSHAKE_Initialize(i.p(), c); });
            ph = ABS;
            inN = outN = 0;
            if (t->model()) sp.init(rate, 12);
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Bytes d = dataOf(o[1], n);
            Buf b = t->in(d);
            t->ok("TurboSHAKE_Absorb", [&] { return A->TurboSHAKE_Absorb(i.p(), b.p(), n); });
            if (t->model()) sp.absorb(d);
            t->state(1, inN % (rate / 8), lenClass(n, rate / 8), rate);
            inN += n;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            u8 s = u8(o[0]) ? u8(o[0]) : 1;
            t->ok("TurboSHAKE_AbsorbDomainSeparationByte", [&] { return A->TurboSHAKE_AbsorbDomainSeparationByte(i.p(), s); });
            if (t->model()) sp.finish(s);
            t->state(2, inN % (rate / 8), s >= 0x80, rate);
            ph = SQZ;
        }
        else if (o.c == "sqz") {
            if (ph == NONE) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Buf b = t->out(n);
            t->ok("TurboSHAKE_Squeeze", [&] { return A->TurboSHAKE_Squeeze(i.p(), b.p(), n); });
            if (ph == ABS) { if (t->model()) sp.finish(1); ph = SQZ; }
            t->state(3, outN % (rate / 8), lenClass(n, rate / 8), rate);
            outN += n;
            t->fault(F_FRAGMENT);
            t->output("TurboSHAKE output", b, [&] { return sp.squeeze(n); });
        }
        else if (o.c == "one") {
            unsigned c = cap(o[0]);
            u8 s = u8(o[1]) ? u8(o[1]) : 1;
            size_t n = size_t(std::max<i64>(0, o[2])), m = size_t(std::max<i64>(0, o[4]));
            Bytes d = dataOf(o[3], n);
            Buf b = t->in(d), q = t->out(m);
            t->ok("TurboSHAKE", [&] { return A->TurboSHAKE(c, b.p(), n, s, q.p(), m); });
            t->state(4, lenClass(n, 200 - c / 8), lenClass(m, 200 - c / 8), c);
            t->output("one-shot TurboSHAKE output", q, [&] { return ref::sponge(1600 - c, 12, d, s, m); });
        }
        else if (o.c == "!absorb") {
            if (ph != SQZ) return;
            Buf b = t->in(o[1], size_t(std::max<i64>(1, o[0])));
            t->refused("TurboSHAKE_Absorb after squeezing", t->rcall("TurboSHAKE_Absorb", [&] { return A->TurboSHAKE_Absorb(i.p(), b.p(), b.size()); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && !(ph == ABS && o[0] == 0)) return;
            u8 s = ph == ABS ? 0 : u8(o[0]);
            t->refused("TurboSHAKE_AbsorbDomainSeparationByte", t->rcall("TurboSHAKE_AbsorbDomainSeparationByte", [&] { return A->TurboSHAKE_AbsorbDomainSeparationByte(i.p(), s); }), {});
        }
        else if (o.c == "!init") {
            if (ph == NONE) return;
            unsigned c = (o[0] & 1) ? 520 : 255;
            t->refused("TurboSHAKE_Initialize", t->rcall("TurboSHAKE_Initialize", [&] { return A->TurboSHAKE_Initialize(i.p(), c); }), {});
        }
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 20), q = t->out(32);
            unsigned c = (o[0] & 1) ? 256 : 576;
            u8 s = (o[0] & 1) ? 0 : 6;
            t->refused("TurboSHAKE", t->rcall("TurboSHAKE", [&] { return A->TurboSHAKE(c, b.p(), 20, s, q.p(), 32); }), {&q});
        }
    }
};
void genTurbo(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!absorb", "!fin", "!init", "!one"};
    auto capacity = [&] { return r.chance(6, 10) ? r.pick({256, 512}) : r.chance(1, 2) ? 64 * r.range(0, 8) : 8 * r.range(0, 64); };
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 c = capacity(), rb = (1600 - c) / 8, blocks = r.range(1, g.big ? 30 : 4);
        p.ops.push_back(mk("init", {c}));
        genStream(g, p, rb, blocks, {"!absorb", "!fin", "!init", "!one"});
        if (!r.chance(1, 8)) p.ops.push_back(mk("fin", {r.chance(1, 2) ? r.pick({1, 6, 7, 0x0B, 0x1F, 0x80, 0x7F}) : r.range(1, 255)}));
        for (int k = int(r.range(1, 6)); k > 0; k--) {
            p.ops.push_back(mk("sqz", {r.len(rb, blocks)}));
            if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())}));
        }
        if (r.chance(1, 2)) p.ops.push_back(mk("one", {capacity(), r.range(1, 255), r.len(rb, blocks), i64(r.dseed()), r.len(rb, blocks)}));
    }
}

// ---------------------------------------------------------------- cSHAKE, KMAC, TupleHash, ParallelHash

#define L(f) (lv ? A->f##256 : A->f##128)
#define LF(f, g) (lv ? A->f##256_##g : A->f##128_##g)

struct Level { int &v, old; Level(int &x, int n) : v(x), old(x) { x = n; } ~Level() { v = old; } };
struct Sp185 : Xof {
    int lv = 0;
    u64 outBits = 0;
    Bits S;
    unsigned rb() const { return lv ? 136 : 168; }
};
// output of n bits from the model sponge; the last byte of the library's buffer has its unused bits cleared
Bytes modelBits(ref::Sponge &s, u64 bits) { return clean(s.squeeze((bits + 7) / 8), bits); }

template <class D> struct Sp185S : SessionOf<D>, Sp185 {
    Inst i;
    Sp185S(Task *t, const Size &z) : SessionOf<D>(t), i(t, z) {}
    Task *T() { return Session::t; }
    Session *self() { return this; }
    using Session::t;
    void afterInit() { ph = ABS; inN = outN = 0; msg = Bits(); }
    void finDone(Buf &b, const char *what)
    {
        ph = outBits ? DONE : SQZ;
        t->state(2, inN % rb(), u64(lv), outBits & 7);
        t->output(what, b, [&] { return modelBits(sp, outBits); });
    }
    // the squeeze of an XOF, common to all four; n bits
    template <class F> void squeeze(u64 n, const char *name, F f)
    {
        if (ph != SQZ) return;
        Buf b = t->out((n + 7) / 8);
        t->ok(name, [&] { return f(b.p(), n); });
        if (n & 7) ph = DONE;
        t->state(3, outN % rb(), lenClass((n + 7) / 8, rb()), n & 7);
        outN += (n + 7) / 8;
        t->fault(F_FRAGMENT);
        t->output(name, b, [&] { return modelBits(sp, n); });
    }
    template <class F> void badSqueeze(const char *name, F f)
    {
        if (ph != ABS && ph != DONE) return;
        Buf b = t->out(9);
        t->refused(name, t->rcall(name, [&] { return f(b.p(), u64(72)); }), {&b});
    }
};

struct CshakeS : Sp185S<CshakeS> {
    Bits N;
    bool partial = false;
    explicit CshakeS(Task *t) : Sp185S(t, t->A->sz_cshake) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {                      // level, output bits, name bytes, seed, customization bits, seed
            if (ph != NONE) t->fault(F_REINIT);
            lv = o[0] & 1;
            outBits = u64(std::max<i64>(0, o[1]));
            u64 nn = u64(std::max<i64>(0, o[2])), sn = u64(std::max<i64>(0, o[4]));
            Bytes nd = dataOf(o[3], nn), sd = clean(dataOf(o[5], (sn + 7) / 8), sn);
            Buf nb = t->in(nd), sb = t->in(sd);
            t->ok("cSHAKE_Initialize", [&] { return LF(cSHAKE, Initialize)(i.p(), outBits, nb.p(), nn * 8, sb.p(), sn); });
            N = Bits(nd);
            S = Bits(sd, sn);
            partial = false;
            afterInit();
            t->state(0, lenClass(nn, rb()), lenClass(sn / 8, rb()), sn & 7);
        }
        else if (o.c == "upd") {                  // bits
            if (ph != ABS || partial) return;
            u64 n = u64(std::max<i64>(0, o[0]));
            Bytes d = dataOf(o[1], (n + 7) / 8);
            Buf b = t->in(d);
            t->ok("cSHAKE_Update", [&] { return LF(cSHAKE, Update)(i.p(), b.p(), n); });
            if (n & 7) partial = true;
            if (t->model()) msg.append(Bits(d, n));
            t->state(1, inN % rb(), lenClass(n / 8, rb()), n & 7);
            inN += n / 8;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            Buf b = t->out((outBits + 7) / 8);
            t->ok("cSHAKE_Final", [&] { return LF(cSHAKE, Final)(i.p(), b.p()); });
            if (t->model()) sp = ref::cshake(lv ? 256 : 128, msg, N, S);
            finDone(b, "cSHAKE_Final output");
        }
        else if (o.c == "sqz") squeeze(u64(std::max<i64>(0, o[0])), "cSHAKE_Squeeze", [&](u8 *p, u64 n) { return LF(cSHAKE, Squeeze)(i.p(), p, n); });
        else if (o.c == "one") {                  // level, out bits, name bytes, seed, cust bits, seed, input bits, seed
            Level keepLevel(lv, o[0] & 1);
            u64 m = u64(std::max<i64>(1, o[1])), nn = u64(std::max<i64>(0, o[2])), sn = u64(std::max<i64>(0, o[4])), n = u64(std::max<i64>(0, o[6]));
            Bytes nd = dataOf(o[3], nn), sd = clean(dataOf(o[5], (sn + 7) / 8), sn), d = dataOf(o[7], (n + 7) / 8);
            Buf nb = t->in(nd), sb = t->in(sd), b = t->in(d), q = t->out((m + 7) / 8);
            t->ok("cSHAKE", [&] { return L(cSHAKE)(b.p(), n, q.p(), m, nb.p(), nn * 8, sb.p(), sn); });
            t->output("one-shot cSHAKE output", q, [&] { auto s = ref::cshake(lv ? 256 : 128, Bits(d, n), Bits(nd), Bits(sd, sn)); return modelBits(s, m); });
        }
        else if (o.c == "!upd") {
            if (!(ph == SQZ || ph == DONE || (ph == ABS && partial))) return;
            Buf b = t->in(o[1], 9);
            t->refused("cSHAKE_Update", t->rcall("cSHAKE_Update", [&] { return LF(cSHAKE, Update)(i.p(), b.p(), 8 * u64(1 + (o[0] & 7))); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->out((outBits + 7) / 8);
            t->refused("cSHAKE_Final", t->rcall("cSHAKE_Final", [&] { return LF(cSHAKE, Final)(i.p(), b.p()); }), {&b});
        }
        else if (o.c == "!sqz") badSqueeze("cSHAKE_Squeeze", [&](u8 *p, u64 n) { return LF(cSHAKE, Squeeze)(i.p(), p, n); });
        else if (o.c == "!init") {
            if (ph == NONE) return;
            Buf b = t->in(o[1], 5);
            t->refused("cSHAKE_Initialize with a partial-byte name", t->rcall("cSHAKE_Initialize", [&] { return LF(cSHAKE, Initialize)(i.p(), 256, b.p(), u64(clampI(o[0], 1, 7)) + 16, b.p(), 8); }), {});
        }
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 5), q = t->out(8);
            bool zero = o[0] & 1;
            t->refused("cSHAKE", t->rcall("cSHAKE", [&] { return L(cSHAKE)(b.p(), 16, q.p(), zero ? 0 : 64, b.p(), zero ? 8 : 13, b.p(), 8); }), {&q});
        }
    }
};

struct KmacS : Sp185S<KmacS> {
    Bits K;
    explicit KmacS(Task *t) : Sp185S(t, t->A->sz_kmac) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {                      // level, output bits, key bits, seed, customization bits, seed
            if (ph != NONE) t->fault(F_REINIT);
            lv = o[0] & 1;
            outBits = u64(std::max<i64>(0, o[1]));
            u64 kn = u64(std::max<i64>(0, o[2])), sn = u64(std::max<i64>(0, o[4]));
            Bytes kd = clean(dataOf(o[3], (kn + 7) / 8), kn), sd = clean(dataOf(o[5], (sn + 7) / 8), sn);
            Buf kb = t->in(kd), sb = t->in(sd);
            t->ok("KMAC_Initialize", [&] { return LF(KMAC, Initialize)(i.p(), kb.p(), kn, outBits, sb.p(), sn); });
            K = Bits(kd, kn);
            S = Bits(sd, sn);
            afterInit();
            t->state(0, lenClass(kn / 8, rb()), lenClass(sn / 8, rb()), (sn & 7) * 8 + (kn & 7));
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            size_t n = size_t(std::max<i64>(0, o[0]) / 8);
            Bytes d = dataOf(o[1], n);
            Buf b = t->in(d);
            t->ok("KMAC_Update", [&] { return LF(KMAC, Update)(i.p(), b.p(), n * 8); });
            if (t->model()) msg.append(Bits(d));
            t->state(1, inN % rb(), lenClass(n, rb()), u64(lv));
            inN += n;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            Buf b = t->out((outBits + 7) / 8);
            t->ok("KMAC_Final", [&] { return LF(KMAC, Final)(i.p(), b.p()); });
            if (t->model()) sp = ref::kmac(lv ? 256 : 128, K, msg, outBits, S);
            finDone(b, "KMAC_Final output");
        }
        else if (o.c == "sqz") squeeze(u64(std::max<i64>(0, o[0])), "KMAC_Squeeze", [&](u8 *p, u64 n) { return LF(KMAC, Squeeze)(i.p(), p, n); });
        else if (o.c == "one") {
            Level keepLevel(lv, o[0] & 1);
            u64 m = u64(std::max<i64>(1, o[1])), kn = u64(std::max<i64>(0, o[2])), sn = u64(std::max<i64>(0, o[4])), n = u64(std::max<i64>(0, o[6]) / 8);
            Bytes kd = clean(dataOf(o[3], (kn + 7) / 8), kn), sd = clean(dataOf(o[5], (sn + 7) / 8), sn), d = dataOf(o[7], n);
            Buf kb = t->in(kd), sb = t->in(sd), b = t->in(d), q = t->out((m + 7) / 8);
            t->ok("KMAC", [&] { return L(KMAC)(kb.p(), kn, b.p(), n * 8, q.p(), m, sb.p(), sn); });
            t->output("one-shot KMAC output", q, [&] { auto s = ref::kmac(lv ? 256 : 128, Bits(kd, kn), Bits(d), m, Bits(sd, sn)); return modelBits(s, m); });
        }
        else if (o.c == "!upd") {
            if (ph == NONE) return;
            Buf b = t->in(o[1], 9);
            u64 n = ph == ABS || (o[0] & 1) ? 8 + u64(clampI(o[0], 1, 7)) : 64;
            t->refused("KMAC_Update", t->rcall("KMAC_Update", [&] { return LF(KMAC, Update)(i.p(), b.p(), n); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->out((outBits + 7) / 8);
            t->refused("KMAC_Final", t->rcall("KMAC_Final", [&] { return LF(KMAC, Final)(i.p(), b.p()); }), {&b});
        }
        else if (o.c == "!sqz") badSqueeze("KMAC_Squeeze", [&](u8 *p, u64 n) { return LF(KMAC, Squeeze)(i.p(), p, n); });
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 5), q = t->out(8);
            bool zero = o[0] & 1;
            t->refused("KMAC", t->rcall("KMAC", [&] { return L(KMAC)(b.p(), 16, b.p(), zero ? 16 : 13, q.p(), zero ? 0 : 64, b.p(), 8); }), {&q});
        }
    }
};

struct TupleS : Sp185S<TupleS> {
    std::vector<Bytes> X;
    struct El { const u8 *p; u64 bits; };
    explicit TupleS(Task *t) : Sp185S(t, t->A->sz_thash) {}
    // elements of the lengths given by the operation's arguments from `from` on
    struct Elems { std::vector<Bytes> d; std::vector<Buf> bufs; Buf table; };
    void elems(const Op &o, size_t from, Elems &e, bool lastPartial = false)
    {
        std::vector<El> v;
        size_t n = (o.a.size() > from ? (o.a.size() - from) / 2 : 0);
        e.bufs.reserve(n);
        for (size_t k = 0; k < n; k++) {
            e.d.push_back(dataOf(o[from + 2 * k + 1], size_t(std::max<i64>(0, o[from + 2 * k]))));
            e.bufs.push_back(t->in(e.d.back()));
            v.push_back({e.bufs.back().p(), e.d.back().size() * 8});
        }
        if (lastPartial && n) v.back().bits += 3;
        Bytes tb(n * sizeof(El));
        if (n) memcpy(tb.data(), v.data(), tb.size());
        // the table holds pointers and must be aligned: put it in an object
        e.table = t->in(Bytes());
        tab = std::make_unique<Inst>(t, Size{std::max<size_t>(tb.size(), 8), 8});
        if (n) memcpy(tab->p(), tb.data(), tb.size());
    }
    std::unique_ptr<Inst> tab;
    TupleS(const TupleS &o) : Sp185S(o), X(o.X) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (t->A->sz_tuple.size != sizeof(El)) t->fail("harness", "unexpected layout of TupleElement");
        opInner(o, A);
        tab.reset();
    }
    void opInner(const Op &o, const Api *A)
    {
        if (o.c == "init") {                      // level, output bits, customization bits, seed
            if (ph != NONE) t->fault(F_REINIT);
            lv = o[0] & 1;
            outBits = u64(std::max<i64>(0, o[1]));
            u64 sn = u64(std::max<i64>(0, o[2]));
            Bytes sd = clean(dataOf(o[3], (sn + 7) / 8), sn);
            Buf sb = t->in(sd);
            t->ok("TupleHash_Initialize", [&] { return LF(TupleHash, Initialize)(i.p(), outBits, sb.p(), sn); });
            S = Bits(sd, sn);
            X.clear();
            afterInit();
            t->state(0, u64(lv), lenClass(sn / 8, rb()), sn & 7);
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            Elems e;
            elems(o, 0, e);
            t->ok("TupleHash_Update", [&] { return LF(TupleHash, Update)(i.p(), tab->p(), e.d.size()); });
            if (t->model()) for (auto &d : e.d) X.push_back(d);
            t->state(1, inN % rb(), e.d.size(), u64(lv));
            for (auto &d : e.d) inN += d.size();
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            Buf b = t->out((outBits + 7) / 8);
            t->ok("TupleHash_Final", [&] { return LF(TupleHash, Final)(i.p(), b.p()); });
            if (t->model()) sp = ref::tuplehash(lv ? 256 : 128, X, outBits, S);
            finDone(b, "TupleHash_Final output");
        }
        else if (o.c == "sqz") squeeze(u64(std::max<i64>(0, o[0])), "TupleHash_Squeeze", [&](u8 *p, u64 n) { return LF(TupleHash, Squeeze)(i.p(), p, n); });
        else if (o.c == "one") {                  // level, output bits, customization bits, seed, elements
            Level keepLevel(lv, o[0] & 1);
            u64 m = u64(std::max<i64>(1, o[1])), sn = u64(std::max<i64>(0, o[2]));
            Bytes sd = clean(dataOf(o[3], (sn + 7) / 8), sn);
            Buf sb = t->in(sd), q = t->out((m + 7) / 8);
            Elems e;
            elems(o, 4, e);
            t->ok("TupleHash", [&] { return L(TupleHash)(tab->p(), e.d.size(), q.p(), m, sb.p(), sn); });
            t->output("one-shot TupleHash output", q, [&] { auto s = ref::tuplehash(lv ? 256 : 128, e.d, m, Bits(sd, sn)); return modelBits(s, m); });
        }
        else if (o.c == "!upd") {
            if (ph == NONE) return;
            Op o2 = mk("", {9, o[1], o[0] & 3, o[1], 9, o[1]});
            Elems e;
            elems(o2, 0, e, ph == ABS || (o[0] & 1));
            t->refused("TupleHash_Update", t->rcall("TupleHash_Update", [&] { return LF(TupleHash, Update)(i.p(), tab->p(), 3); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->out((outBits + 7) / 8);
            t->refused("TupleHash_Final", t->rcall("TupleHash_Final", [&] { return LF(TupleHash, Final)(i.p(), b.p()); }), {&b});
        }
        else if (o.c == "!sqz") badSqueeze("TupleHash_Squeeze", [&](u8 *p, u64 n) { return LF(TupleHash, Squeeze)(i.p(), p, n); });
        else if (o.c == "!one") {
            Buf q = t->out(8);
            Op o2 = mk("", {9, o[1], 4, o[1]});
            Elems e;
            bool zero = o[0] & 1;
            elems(o2, 0, e, !zero);
            t->refused("TupleHash", t->rcall("TupleHash", [&] { return L(TupleHash)(tab->p(), 2, q.p(), zero ? 0 : 64, nullptr, 0); }), {&q});
        }
    }
};

struct PhashS : Sp185S<PhashS> {
    size_t B = 8;
    explicit PhashS(Task *t) : Sp185S(t, t->A->sz_phash) {}
    static size_t block(i64 v) { return size_t(1) << clampI(v, 3, 63); }
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {                      // level, output bits, log2 block, customization bits, seed
            if (ph != NONE) t->fault(F_REINIT);
            lv = o[0] & 1;
            outBits = u64(std::max<i64>(0, o[1]));
            B = block(o[2]);
            u64 sn = u64(std::max<i64>(0, o[3]));
            Bytes sd = clean(dataOf(o[4], (sn + 7) / 8), sn);
            Buf sb = t->in(sd);
            t->ok("ParallelHash_Initialize", [&] { return LF(ParallelHash, Initialize)(i.p(), B, outBits, sb.p(), sn); });
            S = Bits(sd, sn);
            afterInit();
            t->state(0, u64(o[2]), lenClass(sn / 8, rb()), sn & 7);
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            size_t n = size_t(std::max<i64>(0, o[0]));
            Bytes d = dataOf(o[1], n);
            Buf b = t->in(d);
            t->ok("ParallelHash_Update", [&] { return LF(ParallelHash, Update)(i.p(), b.p(), n * 8); });
            if (t->model()) msg.append(Bits(d));
            t->state(1, inN % B, lenClass(n, B), B);
            inN += n;
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {
            if (ph != ABS) return;
            Buf b = t->out((outBits + 7) / 8);
            t->ok("ParallelHash_Final", [&] { return LF(ParallelHash, Final)(i.p(), b.p()); });
            if (t->model()) sp = ref::parallelhash(lv ? 256 : 128, msg.b, B, outBits, S);
            finDone(b, "ParallelHash_Final output");
        }
        else if (o.c == "sqz") squeeze(u64(std::max<i64>(0, o[0])), "ParallelHash_Squeeze", [&](u8 *p, u64 n) { return LF(ParallelHash, Squeeze)(i.p(), p, n); });
        else if (o.c == "one") {                  // level, out bits, log2 block, cust bits, seed, bytes, seed
            Level keepLevel(lv, o[0] & 1);
            u64 m = u64(std::max<i64>(1, o[1])), sn = u64(std::max<i64>(0, o[3])), n = u64(std::max<i64>(0, o[5]));
            size_t B1 = block(o[2]);
            Bytes sd = clean(dataOf(o[4], (sn + 7) / 8), sn), d = dataOf(o[6], n);
            Buf sb = t->in(sd), b = t->in(d), q = t->out((m + 7) / 8);
            t->ok("ParallelHash", [&] { return L(ParallelHash)(b.p(), n * 8, B1, q.p(), m, sb.p(), sn); });
            t->output("one-shot ParallelHash output", q, [&] { auto s = ref::parallelhash(lv ? 256 : 128, d, B1, m, Bits(sd, sn)); return modelBits(s, m); });
        }
        else if (o.c == "!upd") {
            if (ph == NONE) return;
            Buf b = t->in(o[1], 9);
            u64 n = ph == ABS || (o[0] & 1) ? 8 + u64(clampI(o[0], 1, 7)) : 64;
            t->refused("ParallelHash_Update", t->rcall("ParallelHash_Update", [&] { return LF(ParallelHash, Update)(i.p(), b.p(), n); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->out((outBits + 7) / 8);
            t->refused("ParallelHash_Final", t->rcall("ParallelHash_Final", [&] { return LF(ParallelHash, Final)(i.p(), b.p()); }), {&b});
        }
        else if (o.c == "!sqz") badSqueeze("ParallelHash_Squeeze", [&](u8 *p, u64 n) { return LF(ParallelHash, Squeeze)(i.p(), p, n); });
        else if (o.c == "!init") {
            if (ph == NONE) return;
            size_t b = std::vector<size_t>{0, 4, 7, 12, 24, 1000, 8191, 8193}[o[0] & 7];
            t->refused("ParallelHash_Initialize", t->rcall("ParallelHash_Initialize", [&] { return LF(ParallelHash, Initialize)(i.p(), b, 256, nullptr, 0); }), {});
        }
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 5), q = t->out(8);
            bool zero = o[0] & 1;
            t->refused("ParallelHash", t->rcall("ParallelHash", [&] { return L(ParallelHash)(b.p(), 16, zero ? 8 : 12, q.p(), zero ? 0 : 64, b.p(), 8); }), {&q});
        }
    }
};

i64 genOut(Rng &r, i64 rb) { return r.chance(1, 2) ? 0 : r.chance(1, 3) ? 8 * r.len(rb, 2) + r.range(0, 7) : r.pick({256, 512, 8 * rb, 8 * rb + 8, 1, 7, 9, 8 * 2 * rb, 65536 - 8}); }
i64 genCust(Rng &r, i64 rb) { return r.chance(1, 3) ? 0 : r.chance(1, 3) ? 8 * r.range(0, 40) : 8 * r.len(rb, 2) + (r.chance(1, 3) ? r.range(1, 7) : 0); }
void squeezes(GenCtx &g, TaskPlan &p, i64 rb, const std::vector<const char *> &bad)
{
    Rng &r = g.r;
    auto misuse = [&] { if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())})); };
    misuse();
    p.ops.push_back(mk("fin", {}));
    for (int k = int(r.range(0, 5)); k > 0; k--) { misuse(); p.ops.push_back(mk("sqz", {8 * r.len(rb, 3)})); }
    if (r.chance(1, 3)) p.ops.push_back(mk("sqz", {8 * r.len(rb, 2) + r.range(1, 7)}));
    misuse();
}
void genCshake(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!upd", "!fin", "!sqz", "!init", "!one"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 lv = r.range(0, 1), rb = lv ? 136 : 168;
        i64 name = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 12) : r.len(rb, 2);
        p.ops.push_back(mk("init", {lv, genOut(r, rb), name, i64(r.dseed()), genCust(r, rb), i64(r.dseed())}));
        for (int k = int(r.range(0, g.ops)); k > 0; k--) {
            if (g.misuse && r.chance(1, 3)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())}));
            p.ops.push_back(mk("upd", {8 * r.len(rb, 4), i64(r.dseed())}));
        }
        if (r.chance(1, 3)) p.ops.push_back(mk("upd", {8 * r.len(rb, 2) + r.range(1, 7), i64(r.dseed())}));
        squeezes(g, p, rb, bad);
        if (r.chance(1, 3)) p.ops.push_back(mk("one", {r.range(0, 1), 1 + genOut(r, rb), r.chance(1, 2) ? 0 : r.len(rb, 2), i64(r.dseed()), genCust(r, rb), i64(r.dseed()), 8 * r.len(rb, 3) + r.range(0, 7), i64(r.dseed())}));
    }
}
void genKmac(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!upd", "!fin", "!sqz", "!one"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 lv = r.range(0, 1), rb = lv ? 136 : 168;
        auto key = [&] { return r.chance(1, 2) ? r.pick({128, 256, 512}) : 8 * r.len(rb, 2) + (r.chance(1, 3) ? r.range(1, 7) : 0); };
        p.ops.push_back(mk("init", {lv, genOut(r, rb), key(), i64(r.dseed()), genCust(r, rb), i64(r.dseed())}));
        for (int k = int(r.range(0, g.ops)); k > 0; k--) {
            if (g.misuse && r.chance(1, 3)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())}));
            p.ops.push_back(mk("upd", {8 * r.len(rb, 4), i64(r.dseed())}));
        }
        squeezes(g, p, rb, bad);
        if (r.chance(1, 3)) p.ops.push_back(mk("one", {r.range(0, 1), 1 + genOut(r, rb), key(), i64(r.dseed()), genCust(r, rb), i64(r.dseed()), 8 * r.len(rb, 3), i64(r.dseed())}));
    }
}
void genTuple(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!upd", "!fin", "!sqz", "!one"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 lv = r.range(0, 1), rb = lv ? 136 : 168;
        p.ops.push_back(mk("init", {lv, genOut(r, rb), genCust(r, rb), i64(r.dseed())}));
        auto elems = [&](Op &o) { for (int k = int(r.range(0, 4)); k > 0; k--) { o.a.push_back(r.chance(1, 10) ? r.range(8190, 8200) : r.len(rb, 2)); o.a.push_back(i64(r.dseed())); } };
        for (int k = int(r.range(0, g.ops / 2)); k > 0; k--) {
            if (g.misuse && r.chance(1, 3)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())}));
            Op o = mk("upd", {});
            elems(o);
            p.ops.push_back(o);
        }
        squeezes(g, p, rb, bad);
        if (r.chance(1, 3)) { Op o = mk("one", {r.range(0, 1), 1 + genOut(r, rb), genCust(r, rb), i64(r.dseed())}); elems(o); p.ops.push_back(o); }
    }
}
void genPhash(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!upd", "!fin", "!sqz", "!init", "!one"};
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 lv = r.range(0, 1), rb = lv ? 136 : 168, lg = r.chance(1, 15) ? r.range(20, 63) : r.range(3, g.big ? 14 : 10), B = i64(1) << std::min<i64>(lg, 14);
        p.ops.push_back(mk("init", {lv, genOut(r, rb), lg, genCust(r, rb), i64(r.dseed())}));
        auto len = [&]() -> i64 {                 // around blocks and batches of 2, 4, 8 blocks
            if (r.chance(1, 3)) return r.len(B, 3);
            return std::max<i64>(0, std::min<i64>(B * r.pick({1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17}) + r.range(-1, 1) * r.range(0, B), 1 << 17));
        };
        for (int k = int(r.range(0, std::min(g.ops, 8))); k > 0; k--) {
            if (g.misuse && r.chance(1, 3)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())}));
            p.ops.push_back(mk("upd", {len(), i64(r.dseed())}));
        }
        squeezes(g, p, rb, bad);
        if (r.chance(1, 3)) p.ops.push_back(mk("one", {r.range(0, 1), 1 + genOut(r, rb), lg, genCust(r, rb), i64(r.dseed()), len(), i64(r.dseed())}));
    }
}

// ---------------------------------------------------------------- KangarooTwelve

struct KtS : SessionOf<KtS>, Xof {
    Inst i;
    int level = 128;
    size_t fixed = 0;
    explicit KtS(Task *t) : SessionOf(t), i(t, t->A->sz_kt) {}
    unsigned rb() const { return level == 128 ? 168 : 136; }
    void op(const Op &o) override
    {
        auto A = t->A;
        auto pos = [&](i64 v) { return size_t(std::max<i64>(0, v)); };
        if (o.c == "init") {
            if (ph != NONE) t->fault(F_REINIT);
            level = o[0] & 1 ? 256 : 128;
            fixed = pos(o[1]);
            t->ok("KangarooTwelve_Initialize", [&] { return A->KangarooTwelve_Initialize(i.p(), level, fixed); });
            ph = ABS;
            inN = outN = 0;
            msg = Bits();
        }
        else if (o.c == "upd") {
            if (ph != ABS) return;
            Bytes d = dataOf(o[1], pos(o[0]));
            Buf b = t->in(d);
            t->ok("KangarooTwelve_Update", [&] { return A->KangarooTwelve_Update(i.p(), b.p(), d.size()); });
            if (t->model()) msg.append(Bits(d));
            t->state(1, inN < 8192 ? inN : 8192 + inN % 8192, lenClass(d.size(), 8192), u64(level));
            inN += d.size();
            t->fault(F_FRAGMENT);
        }
        else if (o.c == "fin") {                  // customization bytes, seed
            if (ph != ABS) return;
            Bytes c = dataOf(o[1], pos(o[0]));
            Buf cb = t->in(c), b = t->out(fixed);
            t->ok("KangarooTwelve_Final", [&] { return A->KangarooTwelve_Final(i.p(), b.p(), cb.p(), c.size()); });
            if (t->model()) sp = ref::kangarootwelve(level, msg.b, c);
            t->state(2, inN % 8192, lenClass(c.size(), 8192), u64(level));
            ph = fixed ? DONE : SQZ;
            t->output("KangarooTwelve_Final output", b, [&] { return sp.squeeze(fixed); });
        }
        else if (o.c == "sqz") {
            if (ph != SQZ) return;
            Buf b = t->out(pos(o[0]));
            t->ok("KangarooTwelve_Squeeze", [&] { return A->KangarooTwelve_Squeeze(i.p(), b.p(), b.size()); });
            t->state(3, outN % rb(), lenClass(b.size(), rb()), u64(level));
            outN += b.size();
            t->fault(F_FRAGMENT);
            t->output("KangarooTwelve_Squeeze output", b, [&] { return sp.squeeze(b.size()); });
        }
        else if (o.c == "one") {                  // level, bytes, seed, out, custom bytes, seed, form
            int lv = o[0] & 1 ? 256 : 128;
            Bytes d = dataOf(o[2], pos(o[1])), c = dataOf(o[5], pos(o[4]));
            size_t m = std::max<size_t>(1, pos(o[3]));
            Buf b = t->in(d), cb = t->in(c), q = t->out(m);
            t->ok("KangarooTwelve", [&] {
                if (o[6] & 1) return lv == 128 ? A->KT128(b.p(), d.size(), q.p(), m, cb.p(), c.size()) : A->KT256(b.p(), d.size(), q.p(), m, cb.p(), c.size());
                return A->KangarooTwelve(lv, b.p(), d.size(), q.p(), m, cb.p(), c.size());
            });
            t->state(4, lenClass(d.size(), 8192), lenClass(c.size(), 8192), u64(lv));
            t->output("one-shot KangarooTwelve output", q, [&] { return ref::kangarootwelve(lv, d, c).squeeze(m); });
        }
        else if (o.c == "!upd") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->in(o[1], size_t(1 + (o[0] & 7)));
            t->refused("KangarooTwelve_Update", t->rcall("KangarooTwelve_Update", [&] { return A->KangarooTwelve_Update(i.p(), b.p(), b.size()); }), {});
        }
        else if (o.c == "!fin") {
            if (ph != SQZ && ph != DONE) return;
            Buf b = t->out(fixed), c = t->in(o[1], size_t(o[0] & 7));
            t->refused("KangarooTwelve_Final", t->rcall("KangarooTwelve_Final", [&] { return A->KangarooTwelve_Final(i.p(), b.p(), c.p(), c.size()); }), {&b});
        }
        else if (o.c == "!sqz") {
            if (ph != ABS && ph != DONE) return;
            Buf b = t->out(10);
            t->refused("KangarooTwelve_Squeeze", t->rcall("KangarooTwelve_Squeeze", [&] { return A->KangarooTwelve_Squeeze(i.p(), b.p(), 10); }), {&b});
        }
        else if (o.c == "!init") {
            if (ph == NONE) return;
            int lv = int(std::vector<i64>{0, 1, 127, 129, 192, 224, 512, -128}[o[0] & 7]);
            t->refused("KangarooTwelve_Initialize", t->rcall("KangarooTwelve_Initialize", [&] { return A->KangarooTwelve_Initialize(i.p(), lv, 32); }), {});
        }
        else if (o.c == "!one") {
            Buf b = t->in(o[1], 5), q = t->out(8);
            bool zero = o[0] & 1;
            t->refused("KangarooTwelve", t->rcall("KangarooTwelve", [&] { return A->KangarooTwelve(zero ? 128 : 160, b.p(), 5, q.p(), zero ? 0 : 8, b.p(), 2); }), {&q});
        }
    }
};
void genKt(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    std::vector<const char *> bad = {"!upd", "!fin", "!sqz", "!init", "!one"};
    auto misuse = [&] { if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk(r.pick(bad), {r.range(0, 7), i64(r.dseed())})); };
    for (int rounds = int(r.range(1, 2)); rounds > 0; rounds--) {
        i64 lv = r.range(0, 1), rb = lv ? 136 : 168;
        int style = int(r.range(0, 3));
        i64 budget = g.big ? 400000 : 140000;
        auto len = [&]() -> i64 {
            i64 n;
            switch (style) {
                case 0: n = r.len(rb, 4); break;
                case 1: n = r.chance(1, 3) ? r.range(0, 300) : 8192 * r.range(0, 2) + r.range(-2, 2); break;
                case 2: n = 8192 * r.pick({1, 2, 3, 4, 5, 8, 9, 11}) + r.pick({0, 0, 0, 1, -1, 8, -8, 4096}); break;
                default: n = r.range(0, 20000);
            }
            n = std::max<i64>(0, std::min(n, budget));
            budget -= n;
            return n;
        };
        auto cust = [&]() -> i64 { return r.chance(1, 2) ? 0 : r.chance(1, 16) ? r.range(65530, 66000) : r.chance(1, 2) ? r.range(1, 300) : r.chance(1, 2) ? 8192 * r.range(1, 3) + r.range(-3, 3) : r.range(0, 20000); };
        p.ops.push_back(mk("init", {lv, r.chance(1, 2) ? 0 : r.pick({1, 32, 64, rb, rb + 1, 1000}), 0}));
        if (r.chance(1, 3)) p.ops.push_back(mk("upd", {8192 + r.range(-2, 2), i64(r.dseed())}));
        for (int k = int(r.range(0, g.ops)); k > 0; k--) { misuse(); p.ops.push_back(mk("upd", {len(), i64(r.dseed())})); }
        misuse();
        p.ops.push_back(mk("fin", {cust(), i64(r.dseed())}));
        for (int k = int(r.range(0, 4)); k > 0; k--) { misuse(); p.ops.push_back(mk("sqz", {r.len(rb, 3)})); }
        misuse();
        budget = 70000;
        if (r.chance(1, 3)) p.ops.push_back(mk("one", {r.range(0, 1), len(), i64(r.dseed()), r.len(rb, 2), cust(), i64(r.dseed()), r.range(0, 1)}));
    }
}

KIND("sponge", SpongeS, genSponge)
KIND("hash", HashS, genHash)
KIND("turbo", TurboS, genTurbo)
KIND("cshake", CshakeS, genCshake)
KIND("kmac", KmacS, genKmac)
KIND("tuple", TupleS, genTuple)
KIND("phash", PhashS, genPhash)
KIND("kt", KtS, genKt)
}

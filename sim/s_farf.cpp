// Sessions of the deck functions Kravatte and Xoofff, and storage protected by their wide block ciphers.
#include "core.hpp"
#include <algorithm>
using ref::Bits;

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
const i64 MAXBITS = 1 << 23;
Bits bitsOf(i64 seed, u64 n) { return Bits(dataOf(u64(seed), (n + 7) / 8), n); }     // no dirty bits after the last one

enum { INIT = 1, LAST = 2, SHORT = 4 };

template <int W> struct DeckS : SessionOf<DeckS<W>> {
    using SessionOf<DeckS<W>>::t;
    Inst i;
    ref::Farfalle f{W};
    enum { NONE, COMP, EXP, EXPD } ph = NONE;
    bool complete = false;        // the last string given is complete
    u64 pending = 0;              // bits of the string being given
    u64 outPos = 0;
    int outShort = 0;
    static constexpr u64 width = W ? 384 : 1600;
    explicit DeckS(Task *t_) : SessionOf<DeckS<W>>(t_), i(t_, W ? t_->A->sz_xoofff : t_->A->sz_kravatte) {}
    int cKey(const u8 *k, size_t n) { return W ? t->A->Xoofff_MaskDerivation(i.p(), k, n) : t->A->Kravatte_MaskDerivation(i.p(), k, n); }
    int cIn(const u8 *p, size_t n, int fl) { return W ? t->A->Xoofff_Compress(i.p(), p, n, fl) : t->A->Kra(i.p(), p, n, fl); }
    int cOut(u8 *p, size_t n, int fl) { return W ? t->A->Xoofff_Expand(i.p(), p, n, fl) : t->A->Vatte(i.p(), p, n, fl); }
    int cOne(const u8 *p, size_t n, u8 *q, size_t m, int fl) { return W ? t->A->Xoofff(i.p(), p, n, q, m, fl) : t->A->Kravatte(i.p(), p, n, q, m, fl); }
    void op(const Op &o) override
    {
        if (o.c == "key") {
            u64 n = u64(clampI(o[0], 0, i64(width) - 1));
            Bits K = bitsOf(o[1], n);
            Buf b = t->in(K.b);
            if (ph != NONE) t->fault(F_REINIT);
            t->ok("mask derivation", [&] { return cKey(b.p(), n); });
            t->state(1, n);
            ph = COMP;
            complete = false;
            pending = 0;
            if (t->model()) f.key(K);
            return;
        }
        if (ph == NONE) return;
        if (o.c == "in") {
            int fl = int(o[2]) & (INIT | LAST);
            u64 n = u64(clampI(o[0], 0, MAXBITS));
            if (!(fl & LAST)) n &= ~7ull;
            Bits m = bitsOf(o[1], n);
            Buf b = t->in(m.b);
            if (ph != COMP || (fl & INIT)) pending = 0;
            t->state(2, pending % width, lenClass(n, width), u64(fl) * 4 + u64(ph));
            t->ok("compression", [&] { return cIn(b.p(), n, fl); });
            t->fault(F_FRAGMENT);
            ph = COMP;
            pending += n;
            complete = fl & LAST;
            if (complete) pending = 0;
            if (t->model()) f.compress(m, fl & INIT, complete);
        }
        else if (o.c == "out") {
            if (!(ph == EXP || (ph == COMP && complete))) return;
            int fl = int(o[1]) & (LAST | SHORT);
            if (ph == EXP) fl = (fl & LAST) | outShort; else { outShort = fl & SHORT; outPos = 0; }
            u64 n = u64(clampI(o[0], 0, MAXBITS));
            if (!(fl & LAST)) n &= ~7ull;
            Buf q = t->out((n + 7) / 8);
            t->state(3, outPos % width, lenClass(n, width), u64(fl) * 4 + u64(ph));
            t->ok("expansion", [&] { return cOut(q.p(), n, fl); });
            t->fault(F_FRAGMENT);
            ph = fl & LAST ? EXPD : EXP;
            outPos += n;
            t->output("expansion output", q, [&] { return f.expand(n, fl & SHORT, fl & LAST).b; });
        }
        else if (o.c == "one") {
            int fl = int(o[3]) & (INIT | SHORT);
            u64 n = u64(clampI(o[0], 0, MAXBITS)), m = u64(clampI(o[2], 0, MAXBITS));
            Bits s = bitsOf(o[1], n);
            Buf b = t->in(s.b), q = t->out((m + 7) / 8);
            if (ph != COMP || (fl & INIT)) pending = 0;
            t->state(4, pending % width, lenClass(n, width) * 64 + lenClass(m, width), u64(fl) * 4 + u64(ph));
            t->ok("compression and expansion", [&] { return cOne(b.p(), n, q.p(), m, fl); });
            ph = EXPD;
            pending = 0;
            t->output("output", q, [&] { return f.one(s, fl & INIT, m, fl & SHORT).b; });
        }
        else if (o.c == "!key") {
            Buf b = t->in(u64(o[1]), (width + 7) / 8 + 8);
            u64 n = width + u64(clampI(o[0], 0, 60));
            t->refused("mask derivation with a key that is too long", t->rcall("mask derivation", [&] { return cKey(b.p(), n); }), {});
        }
        else if (o.c == "!in") {                  // a partial byte is only allowed at the end of a string
            u64 n = u64(clampI(o[0], 0, MAXBITS)) | 1;
            Buf b = t->in(u64(o[1]), (n + 7) / 8);
            t->refused("compression of a partial byte", t->rcall("compression", [&] { return cIn(b.p(), n, int(o[2]) & INIT); }), {});
        }
        else if (o.c == "!out") {
            u64 n = u64(clampI(o[0], 1, 8 * width));
            int fl = int(o[1]) & (LAST | SHORT);
            bool odd = false;
            if (ph == EXP || (ph == COMP && complete)) { n |= 1; fl &= ~LAST; odd = true; }
            else if (ph == COMP && pending % width == 0) return;      // not defined by the interface
            if (!odd && !(fl & LAST)) n = (n + 7) & ~7ull;
            Buf q = t->out((n + 7) / 8);
            t->refused("expansion", t->rcall("expansion", [&] { return cOut(q.p(), n, fl); }), {&q});
        }
    }
};
template <int W> void genDeck(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    const i64 width = W ? 384 : 1600, par = W ? 16 : 8;
    auto len = [&](bool big) {
        i64 n = big ? r.len(width / 8 * r.pick({1, 1, 2, 4, par}), g.big ? 6 : 3) : r.len(width / 8, 2);
        return 8 * std::min<i64>(n, 70000);
    };
    for (int rounds = int(r.range(1, 2)); rounds > 0; rounds--) {
        p.ops.push_back(mk("key", {r.chance(1, 3) ? r.pick({0, 1, 7, 8, 128, 256, width - 1, width - 2, width - 7, width - 8, width - 9}) : r.chance(1, 2) ? 8 * r.range(0, width / 8 - 1) : r.range(0, width - 1), i64(r.dseed())}));
        bool first = true;
        for (int k = int(r.range(1, std::max(1, g.ops / 2))); k > 0; k--) {
            auto misuse = [&] {
                if (!g.misuse || !r.chance(1, 2)) return;
                static const std::vector<const char *> bad = {"!key", "!in", "!out", "!out"};
                const char *b = r.pick(bad);
                p.ops.push_back(mk(b, {r.range(0, 3000), b[1] == 'o' ? r.range(0, 7) : i64(r.dseed()), r.range(0, 1)}));
            };
            i64 init = first || r.chance(1, 3) ? INIT : 0;
            first = false;
            if (r.chance(1, 4)) {
                misuse();
                p.ops.push_back(mk("one", {len(true) + (r.chance(1, 3) ? r.range(1, 7) : 0), i64(r.dseed()), len(true) + (r.chance(1, 3) ? r.range(1, 7) : 0), init + (r.chance(1, 4) ? SHORT : 0)}));
                misuse();
                continue;
            }
            int parts = int(r.range(1, 5));
            for (int q = 1; q <= parts; q++) {
                bool last = q == parts;
                misuse();
                p.ops.push_back(mk("in", {len(r.chance(1, 2)) + (last && r.chance(1, 3) ? r.range(1, 7) : 0), i64(r.dseed()), init + (last ? LAST : 0)}));
                init = 0;
                if (!last && r.chance(1, 20)) break;      // leave a string incomplete
            }
            int outs = int(r.range(0, 4));
            i64 sh = r.chance(1, 4) ? SHORT : 0;
            for (int q = 1; q <= outs; q++) {
                bool last = q == outs && r.chance(2, 3);
                misuse();
                p.ops.push_back(mk("out", {len(r.chance(1, 2)) + (last && r.chance(1, 2) ? r.range(1, 7) : 0), sh + (last ? LAST : 0)}));
            }
            misuse();
        }
        p.ops.push_back(mk("one", {8, 5, 256, 0}));
    }
}

// ---------------------------------------------------------------- storage under a wide block cipher

// an object that copies like a value
struct Obj {
    std::unique_ptr<Inst> i;
    Obj() {}
    Obj(Task *t, const Size &s) : i(std::make_unique<Inst>(t, s)) {}
    Obj(const Obj &o) : i(o.i ? std::make_unique<Inst>(*o.i) : nullptr) {}
    Obj &operator=(const Obj &o) { i = o.i ? std::make_unique<Inst>(*o.i) : nullptr; return *this; }
    void *p() const { return i->p(); }
};

struct WbcS : SessionOf<WbcS> {
    struct Sector { bool used = false, ae = false; Bits P, C, W; };
    static const int N = 4;
    int which = 0;
    bool ready = false;
    Obj w, r;                     // the party that writes and the one that reads
    Bits K;
    Sector now[N], old[N];        // what each sector holds, and what it held before the last write
    i64 version = 0;
    explicit WbcS(Task *t_) : SessionOf(t_) {}
    static Bits tweak(i64 sector, i64 version, i64 bits)
    {
        Bytes b = dataOf(u64(1000 + version * 64 + sector), size_t(clampI(bits, 0, 4000) + 7) / 8);
        return Bits(b, u64(clampI(bits, 0, 4000)));
    }
    int key(const Api *A, void *o, const u8 *k, size_t n) { return which ? A->Xoofff_MaskDerivation(o, k, n) : A->Kravatte_MaskDerivation(o, k, n); }
    void op(const Op &o) override
    {
        if (o.c == "init") {
            which = int(o[0] & 1);
            u64 n = u64(clampI(o[1], 0, which ? 383 : 1599));
            K = bitsOf(o[2], n);
            if (ready) t->fault(F_REINIT);
            w = Obj(t, which ? t->A->sz_xoofff : t->A->sz_kravatte);
            r = Obj(t, which ? t->B->sz_xoofff : t->B->sz_kravatte);
            Buf b = t->in(K.b);
            t->ok("mask derivation", [&] { return key(t->A, w.p(), b.p(), n); });
            t->ok("mask derivation", [&] { return key(t->B, r.p(), b.p(), n); });
            for (int s = 0; s < N; s++) now[s] = old[s] = Sector();
            ready = true;
            return;
        }
        if (!ready) return;
        int s = int(o[0] & (N - 1));
        if (o.c == "write") {     // sector, bits, data, tweak bits, authenticated
            u64 n = u64(clampI(o[1], 0, 1 << 20));
            bool ae = o[4] & 1;
            Bits P = bitsOf(o[2], n), W = tweak(s, ++version, o[3]);
            size_t len = (n + 7) / 8 + (ae ? 16 : 0);
            Bits X = P;
            if (ae) { X.b.resize(len); X.n += 128; }
            Buf q = t->out(len), tw = t->in(W.b);
            t->state(1, u64(which * 2 + ae), lenClass(X.n / 8, which ? 48 : 200) * 8 + (X.n & 7), W.n & 7);
            if (ae) {
                Bytes pre = P.b;
                pre.resize(len, 0xEE);
                Buf b = t->inout(pre);
                t->ok("WBC-AE encipher", [&] { return (which ? t->A->XoofffWBCAE_Encipher : t->A->Kravatte_WBCAE_Encipher)(w.p(), b.p(), q.p(), n, tw.p(), W.n); });
                t->record("plaintext buffer", b.get());
                Bytes head = b.get();
                head.resize(P.b.size());
                if (head != P.b) t->fail("input-modified", "WBC-AE encipher modified the plaintext");
            }
            else {
                Buf b = t->in(P.b);
                t->ok("WBC encipher", [&] { return (which ? t->A->XoofffWBC_Encipher : t->A->Kravatte_WBC_Encipher)(w.p(), b.p(), q.p(), n, tw.p(), W.n); });
            }
            t->output("ciphertext", q, [&] { return ref::wbcEncipher(which, K, X, W).b; });
            old[s] = now[s];
            Sector &e = now[s];
            e.used = true;
            e.ae = ae;
            e.P = P;
            e.C = Bits(q.get(), X.n);
            e.W = W;
        }
        else if (o.c == "read") { // sector, fault, argument
            Sector &e = now[s];
            if (!e.used) return;
            Bits C = e.C, W = e.W;
            Fault kind = F_COUNT;
            u64 x = u64(o[2]);
            switch (o[1]) {
                case 1: if (C.n) { u64 k = t->vary(x) % C.n; C.b[k / 8] ^= u8(1u << (k & 7)); kind = F_DISK_ROT; } break;
                case 2:           // only the first bytes of the last write reached the disk
                    if (old[s].used) {
                        size_t k = C.b.size() ? x % C.b.size() : 0;
                        for (size_t j = k; j < C.b.size(); j++) C.b[j] = j < old[s].C.b.size() ? old[s].C.b[j] : 0;
                        C = Bits(C.b, C.n);
                        kind = F_DISK_TORN;
                    }
                    break;
                case 3: if (old[s].used && old[s].C.n == C.n) { C = old[s].C; kind = F_DISK_LOST; } break;
                case 4: { Sector &other = now[x & (N - 1)]; if (other.used && other.C.n == C.n) { C = other.C; kind = F_DISK_MISDIRECTED; } break; }
                case 5: if (W.n) { u64 k = t->vary(x) % W.n; W.b[k / 8] ^= u8(1u << (k & 7)); kind = F_DISK_TWEAK; } break;
                case 6: W = Bits(W.b + Bytes{0}, W.n + 1 + x % 8); kind = F_DISK_TWEAK; break;
                case 7: if (W.n) { W = W.sub(0, x % W.n); kind = F_DISK_TWEAK; } break;
                case 8: for (auto &v : C.b) v = u8(~v); C = Bits(C.b, C.n); kind = F_DISK_ROT; break;
                case 9: {         // a few bytes in a row
                    size_t len = C.b.size(), from = len ? t->vary(x) % len : 0;
                    for (size_t j = from; j < std::min(len, from + 1 + (x >> 20) % 16); j++) C.b[j] ^= u8(1 + (x >> 8) % 255);
                    C = Bits(C.b, C.n);
                    kind = F_DISK_ROT;
                    break;
                }
            }
            bool same = C.b == e.C.b && W.b == e.W.b && W.n == e.W.n;
            t->publish(same);
            if (!same) t->fault(kind);
            // a block cipher without redundancy cannot refuse, and a few bits may decipher to themselves
            u64 n = e.P.n;
            Buf b = t->in(C.b), tw = t->in(W.b), q = t->out(C.b.size());
            t->state(2, u64(which * 2 + e.ae), lenClass(C.n / 8, which ? 48 : 200) * 16 + u64(o[1]), same);
            int rc = e.ae ? t->rcall("WBC-AE decipher", [&] { return (which ? t->B->XoofffWBCAE_Decipher : t->B->Kravatte_WBCAE_Decipher)(r.p(), b.p(), q.p(), n, tw.p(), W.n); })
                          : t->rcall("WBC decipher", [&] { return (which ? t->B->XoofffWBC_Decipher : t->B->Kravatte_WBC_Decipher)(r.p(), b.p(), q.p(), n, tw.p(), W.n); });
            t->recordRc("decipher.rc", rc);
            if (same || !e.ae) {
                if (rc) t->fail("refused", "data read back unaltered was refused");
                Bytes got = q.get();
                Bytes data(got.begin(), got.begin() + i64(e.P.b.size()));
                if (same) {
                    t->record("data read", data);
                    t->expect("data read back", data, e.P.b);
                }
                else {
                    t->record("deciphered", got);
                    if (n >= 96 && data == e.P.b) t->fail("tampering-ignored", "altered data or tweak deciphers to the same data");
                    if (t->model()) t->expect("deciphered altered data", got, ref::wbcDecipher(which, K, C, W).b);
                }
            }
            else {
                if (!rc) t->fail("tampering-accepted", "altered authenticated data was accepted");
                for (size_t k = 0; k < q.size(); k++)
                    if (q.p()[k] != 0 && q.p()[k] != q.keep[k]) t->fail("plaintext-released", "refused data left a byte of something else than zero in the plaintext buffer");
            }
        }
        else if (o.c == "!key") {
            Buf b = t->in(u64(o[1]), 256);
            u64 n = (which ? 384u : 1600u) + u64(clampI(o[0], 0, 60));
            t->refused("mask derivation with a key that is too long", t->rcall("mask derivation", [&] { return key(t->A, w.p(), b.p(), n); }), {});
        }
    }
};
void genWbc(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int rounds = int(r.range(1, 2)); rounds > 0; rounds--) {
        i64 which = r.range(0, 1), width = which ? 384 : 1600;
        p.ops.push_back(mk("init", {which, r.chance(1, 2) ? r.pick({0, 128, 256, width - 1}) : r.range(0, width - 1), i64(r.dseed())}));
        i64 common = 8 * r.len(width / 8, g.big ? 40 : 6);
        auto bits = [&] {
            if (r.chance(1, 2)) return common;
            i64 n = r.chance(1, 4) ? r.range(0, 40) : r.chance(1, 3) ? std::max<i64>(0, width * r.pick({1, 2, 3, 4, 8}) + r.range(-20, 20)) : 8 * r.len(width / 8, 8);
            return n + (r.chance(1, 3) ? r.range(1, 7) : 0);
        };
        for (int k = int(r.range(2, 2 * g.ops)); k > 0; k--) {
            if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk("!key", {r.range(0, 60), i64(r.dseed())}));
            if (r.chance(2, 5)) p.ops.push_back(mk("write", {r.range(0, 3), bits(), i64(r.dseed()), r.chance(1, 2) ? 64 : r.range(0, 900), r.chance(2, 3)}));
            else p.ops.push_back(mk("read", {r.range(0, 3), r.chance(1, 3) ? 0 : r.range(1, 9), i64(r.below(1ull << 40))}));
        }
    }
}
using KravatteS = DeckS<0>;
using XoofffS = DeckS<1>;
KIND("kravatte", KravatteS, genDeck<0>)
KIND("xoofff", XoofffS, genDeck<1>)
KIND("wbc", WbcS, genWbc)
}

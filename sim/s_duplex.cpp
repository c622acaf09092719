// Sessions of the duplex object and of the sponge-based pseudo-random generator.
#include "core.hpp"
#include <algorithm>
using ref::Bits;

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }

struct DuplexS : SessionOf<DuplexS> {
    Inst i;
    ref::Duplex m;                // its counters are always kept; its state only when the model is in use
    bool ready = false;
    explicit DuplexS(Task *t) : SessionOf(t), i(t, t->A->sz_duplex) {}
    unsigned full() const { return (m.rate + 7) / 8; }
    void op(const Op &o) override
    {
        auto A = t->A;
        bool bang = o.c[0] == '!';
        std::string c = bang ? o.c.substr(1) : o.c;
        if (c == "init") {
            if (bang) {           // refused parameters leave the object alone
                if (!ready) return;
                unsigned r, k;
                switch (o[0] & 3) { case 0: r = 2; k = 1598; break; case 1: r = 1088; k = 256; break; case 2: r = 0; k = 1600; break; default: r = 1608; k = unsigned(-8); }
                t->refused("DuplexInitialize", t->rcall("DuplexInitialize", [&] { return A->KeccakWidth1600_DuplexInitialize(i.p(), r, k); }), {});
                return;
            }
            unsigned r = unsigned(clampI(o[0], 3, 1600));
            if (ready) t->fault(F_REINIT);
            t->ok("DuplexInitialize", [&] { return A->KeccakWidth1600_DuplexInitialize(i.p(), r, 1600 - r); });
            m.init(r);
            ready = true;
            return;
        }
        if (!ready) return;
        if (c == "dup") {
            size_t n = size_t(clampI(o[0], 0, 220));
            unsigned z = unsigned(clampI(o[2], 0, 220));
            u8 d = u8(o[3]);
            bool legal = m.canDuplex(n, z, d);
            if (bang && legal) return;
            Bytes s = dataOf(o[1], n);
            Buf b = t->in(s), q = t->out(z);
            int rc = t->rcall("Duplexing", [&] { return A->KeccakWidth1600_Duplexing(i.p(), b.p(), unsigned(n), q.p(), z, d); });
            t->state(1, m.in * 2 + legal, m.rate, n * 65536 + z * 256 + d);
            if (!legal) { t->refused("Duplexing", rc, {&q}); return; }
            if (rc) t->fail("refused", "Duplexing refused an input that fits: " + std::to_string(m.in) + " bytes queued, " + std::to_string(n) + " more, rate " + std::to_string(m.rate));
            if (t->model()) { Bytes w = m.duplexing(s, z, d); t->output("Duplexing output", q, [&] { return w; }); }
            else { m.in = 0; m.out = z; t->output("Duplexing output", q, [] { return Bytes(); }); }
        }
        else if (c == "feed" || c == "zero" || c == "ow" || c == "owz") {
            size_t n = size_t(clampI(o[0], 0, 220));
            bool legal = m.canFeed(n) && (c != "owz" || m.in == 0);
            if (bang && legal) return;
            Bytes s = c == "feed" || c == "ow" ? dataOf(o[1], n) : Bytes(n);
            int rc;
            t->state(2, m.in * 2 + legal, m.rate, n + hashStr(c));
            const char *name = c == "feed" ? "DuplexingFeedPartialInput" : c == "zero" ? "DuplexingFeedZeroes" : c == "ow" ? "DuplexingOverwritePartialInput" : "DuplexingOverwriteWithZeroes";
            if (c == "feed") { Buf b = t->in(s); rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingFeedPartialInput(i.p(), b.p(), unsigned(n)); }); }
            else if (c == "zero") rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingFeedZeroes(i.p(), unsigned(n)); });
            else if (c == "ow") { Buf b = t->in(s); rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingOverwritePartialInput(i.p(), b.p(), unsigned(n)); }); }
            else rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingOverwriteWithZeroes(i.p(), unsigned(n)); });
            t->recordRc(name, rc);
            if (!legal) { t->refused(name, rc, {}); return; }
            if (rc) t->fail("refused", std::string(name) + " refused an input that fits: " + std::to_string(m.in) + " bytes queued, " + std::to_string(n) + " more, rate " + std::to_string(m.rate));
            t->fault(F_FRAGMENT);
            if (!t->model()) m.in += unsigned(n);
            else if (c == "feed" || c == "zero") m.feed(s);
            else m.overwrite(s);
        }
        else if (c == "get" || c == "gadd") {
            size_t n = size_t(clampI(o[0], 0, 220));
            bool legal = m.canOutput(n);
            if (bang && legal) return;
            // what further output means at positions already given new input is not specified
            if (m.in > m.out && n > 0 && legal) return;
            const char *name = c == "get" ? "DuplexingGetFurtherOutput" : "DuplexingGetFurtherOutputAndAdd";
            Bytes s = dataOf(o[1], n);
            bool inPlace = c == "gadd" && (o[2] & 1);
            Buf b, q;
            if (inPlace) { q = t->inout(s); q.keep = s; }
            else { q = t->out(n); if (c == "gadd") b = t->in(s); }
            int rc;
            t->state(3, m.out * 2 + legal, m.rate, n + hashStr(c));
            if (c == "get") rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingGetFurtherOutput(i.p(), q.p(), unsigned(n)); });
            else rc = t->rcall(name, [&] { return A->KeccakWidth1600_DuplexingGetFurtherOutputAndAdd(i.p(), inPlace ? q.p() : b.p(), q.p(), unsigned(n)); });
            if (!legal) { t->refused(name, rc, {&q}); return; }
            if (rc) t->fail("refused", std::string(name) + " refused to give output that is available");
            Bytes w;
            if (t->model()) {
                w = m.output(n);
                if (c == "gadd") {
                    for (size_t k = 0; k < n; k++) w[k] ^= s[k];
                    if (n && m.out * 8 > m.rate) w[n - 1] &= u8((1u << (m.rate % 8)) - 1);
                }
            }
            else m.out += unsigned(n);
            t->output(name, q, [&] { return w; });
        }
    }
};
i64 delim(Rng &r) { return r.chance(1, 3) ? 1 : r.chance(1, 3) ? r.range(1, 15) : r.range(1, 255); }
void genDuplex(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 rate = r.chance(1, 3) ? r.range(3, 1600) : r.chance(1, 3) ? r.range(3, 40) : r.chance(1, 2) ? r.range(1020, 1160) : r.pick({1344, 1088, 1600, 1599, 1598, 1591, 1590, 576, 1026, 1027, 1028, 65, 64, 63, 10, 9, 8, 3, 4});
        i64 room = (rate - 2) / 8, full = (rate + 7) / 8;
        p.ops.push_back(mk("init", {rate}));
        i64 queued = 0;           // only a guess: the session knows better
        auto some = [&](i64 left) { return r.chance(1, 3) ? r.range(0, std::max<i64>(0, left)) : r.chance(1, 3) ? left : r.chance(1, 4) ? left + 1 : r.range(0, std::max<i64>(0, std::min<i64>(left, 9))); };
        for (int k = int(r.range(1, 2 * g.ops)); k > 0; k--) {
            std::string bang = "";
            i64 left = room - queued;
            if (g.misuse && r.chance(1, 3)) {
                static const std::vector<const char *> bad = {"!dup", "!feed", "!zero", "!ow", "!owz", "!get", "!gadd", "!init"};
                const char *b = r.pick(bad);
                i64 n = std::string(b) == "!owz" ? r.range(0, room) : r.range(std::max<i64>(0, left), std::max<i64>(left, 0) + 4);
                if (b[1] == 'g') n = r.range(0, full + 1);
                if (b[1] == 'i') n = r.range(0, 3);
                p.ops.push_back(mk(b, {n, i64(r.dseed()), r.chance(1, 3) ? full + 1 : r.range(0, full), r.chance(1, 4) ? 0 : r.range(0, 255)}));
            }
            switch (r.below(10)) {
                case 0: case 1: case 2: { i64 n = some(left); p.ops.push_back(mk(r.pick(std::vector<const char *>{"feed", "feed", "zero", "ow"}), {n, i64(r.dseed())})); if (n <= left) queued += n; break; }
                case 3: p.ops.push_back(mk("owz", {r.chance(1, 2) ? room : r.range(0, room)})); if (!queued) queued = p.ops.back()[0]; break;
                case 4: case 5: p.ops.push_back(mk("get", {r.chance(1, 3) ? full : r.range(0, std::min<i64>(full, 20))})); break;
                case 6: p.ops.push_back(mk("gadd", {r.range(0, std::min<i64>(full, 40)), i64(r.dseed()), r.range(0, 1)})); break;
                default: {
                    i64 n = some(left);
                    // close to the limit the suffix must be short
                    p.ops.push_back(mk("dup", {n, i64(r.dseed()), r.chance(1, 3) ? full : r.range(0, full), delim(r)}));
                    queued = 0;
                }
            }
        }
        p.ops.push_back(mk("dup", {0, 0, full, 1}));
    }
}

// ---------------------------------------------------------------- SpongePRG

struct PrgS : SessionOf<PrgS> {
    Inst i;
    ref::Prg m;
    bool ready = false, mid = false;      // mid: a fetch has taken part of a block
    explicit PrgS(Task *t) : SessionOf(t), i(t, t->A->sz_prg) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {
            unsigned c = unsigned(clampI(o[0], 0, 1590));
            if (ready) t->fault(F_REINIT);
            t->ok("SpongePRG_Initialize", [&] { return A->KeccakWidth1600_SpongePRG_Initialize(i.p(), c); });
            m.init(c);
            ready = true;
            mid = false;
            return;
        }
        if (!ready) return;
        if (o.c == "feed") {
            size_t n = size_t(clampI(o[0], 0, 1 << 20));
            if (n == 0 && mid) return;                    // whether an empty feed discards output is not specified
            Bytes d = dataOf(o[1], n);
            Buf b = t->in(d);
            t->state(1, m.d.in, lenClass(n, m.rho), m.rho);
            t->ok("SpongePRG_Feed", [&] { return A->KeccakWidth1600_SpongePRG_Feed(i.p(), b.p(), unsigned(n)); });
            t->fault(F_FRAGMENT);
            mid = false;
            if (t->model()) m.feed(d);
        }
        else if (o.c == "fetch") {
            size_t n = size_t(clampI(o[0], 0, 1 << 20));
            Buf q = t->out(n);
            t->state(2, m.d.out, lenClass(n, m.rho), m.rho);
            t->ok("SpongePRG_Fetch", [&] { return A->KeccakWidth1600_SpongePRG_Fetch(i.p(), q.p(), unsigned(n)); });
            t->fault(F_FRAGMENT);
            if (n) mid = true;
            t->output("SpongePRG_Fetch output", q, [&] { return m.fetch(n); });
        }
        else if (o.c == "forget" || o.c == "!forget") {
            bool legal = m.rho * 8 >= 1600 - m.d.rate;
            if (o.c[0] == '!' && legal) return;
            int rc = t->rcall("SpongePRG_Forget", [&] { return A->KeccakWidth1600_SpongePRG_Forget(i.p()); });
            t->state(3, m.rho, legal, m.d.in);
            t->recordRc("forget", rc);
            if (!legal) { t->refused("SpongePRG_Forget", rc, {}); return; }
            if (rc) t->fail("refused", "SpongePRG_Forget refused although the rate covers the capacity");
            mid = false;
            if (t->model()) m.forget();
        }
        else if (o.c == "!init") {
            unsigned c = unsigned(clampI(1591 + o[0], 1591, 4000));
            t->refused("SpongePRG_Initialize", t->rcall("SpongePRG_Initialize", [&] { return A->KeccakWidth1600_SpongePRG_Initialize(i.p(), c); }), {});
        }
    }
};
void genPrg(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        i64 cap = r.chance(1, 3) ? r.range(0, 1590) : r.chance(1, 3) ? r.range(780, 815) : r.pick({0, 1, 2, 254, 256, 510, 512, 576, 1590, 1589, 1582, 798, 799, 800, 797, 796});
        i64 rho = (1600 - cap - 2) / 8;
        p.ops.push_back(mk("init", {cap}));
        for (int k = int(r.range(1, 2 * g.ops)); k > 0; k--) {
            if (g.misuse && r.chance(1, 3)) p.ops.push_back(mk(r.chance(2, 3) ? "!forget" : "!init", {r.range(0, 9)}));
            switch (r.below(7)) {
                case 0: case 1: case 2: p.ops.push_back(mk("feed", {r.len(rho, 4), i64(r.dseed())})); break;
                case 3: p.ops.push_back(mk("forget", {})); break;
                default: p.ops.push_back(mk("fetch", {r.len(rho, 4)}));
            }
        }
        p.ops.push_back(mk("fetch", {rho + 1}));
    }
}
KIND("duplex", DuplexS, genDuplex)
KIND("prg", PrgS, genPrg)
}

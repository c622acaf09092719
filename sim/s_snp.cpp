// The state layers: Keccak-p[1600] and Xoodoo states, one or several in parallel, against a byte-string model.
// A layer that a target does not provide is replaced by serial states, so that the transcript is the same on every target.
#include "core.hpp"
#include <algorithm>

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }

struct SnpS : SessionOf<SnpS> {
    int xoo = 0, level = 0;
    unsigned N = 1;               // states
    const Snp *one = nullptr;     // the serial layer
    const Snp *par = nullptr;     // the parallel layer, null if the target has none
    std::vector<std::unique_ptr<Inst>> st;
    std::vector<Bytes> m;
    unsigned W = 200, L = 8;
    bool started = false;

    explicit SnpS(Task *t) : SessionOf(t) { setUp(t->p.at(0), t->p.at(1)); }
    SnpS(const SnpS &o) : SessionOf(o), xoo(o.xoo), level(o.level), N(o.N), one(o.one), par(o.par), m(o.m), W(o.W), L(o.L), started(o.started)
    {
        for (auto &q : o.st) st.push_back(std::make_unique<Inst>(*q));
    }
    void setUp(i64 x, i64 lv)
    {
        xoo = int(x & 1);
        level = int(clampI(lv, 0, 3));
        static const unsigned pk[] = {1, 2, 4, 8}, px[] = {1, 4, 8, 16};
        N = xoo ? px[level] : pk[level];
        one = xoo ? &t->A->xoo[0] : &t->A->snp[0];
        const Snp *q = level == 0 ? nullptr : xoo ? &t->A->xoo[level] : &t->A->snp[level];
        par = q && q->present ? q : nullptr;
        W = one->width;
        L = one->lane;
        m.assign(N, Bytes(W, 0));
        if (!one->present) return;
        if (par) st.push_back(std::make_unique<Inst>(t, par->sz));
        else for (unsigned k = 0; k < N; k++) st.push_back(std::make_unique<Inst>(t, one->sz));
    }
    void *s(unsigned k) const { return st[par ? 0 : k]->p(); }
    // primitives, on whatever the target provides
    void pInit()
    {
        if (par) { t->call("StaticInitialize", [&] { par->StaticInitialize(); }); t->call("InitializeAll", [&] { par->Initialize(s(0)); }); return; }
        t->call("StaticInitialize", [&] { one->StaticInitialize(); });
        for (unsigned k = 0; k < N; k++) t->call("Initialize", [&] { one->Initialize(s(k)); });
    }
    void pAdd(unsigned k, const u8 *p, unsigned off, unsigned n) { t->call("AddBytes", [&] { par ? par->AddBytes(s(k), k, p, off, n) : one->AddBytes1(s(k), p, off, n); }); }
    void pOver(unsigned k, const u8 *p, unsigned off, unsigned n) { t->call("OverwriteBytes", [&] { par ? par->OverwriteBytes(s(k), k, p, off, n) : one->OverwriteBytes1(s(k), p, off, n); }); }
    void pExtract(unsigned k, u8 *p, unsigned off, unsigned n) { t->call("ExtractBytes", [&] { par ? par->ExtractBytes(s(k), k, p, off, n) : one->ExtractBytes1(s(k), p, off, n); }); }
    void pExtractAdd(unsigned k, const u8 *p, u8 *q, unsigned off, unsigned n) { t->call("ExtractAndAddBytes", [&] { par ? par->ExtractAndAddBytes(s(k), k, p, q, off, n) : one->ExtractAndAddBytes1(s(k), p, q, off, n); }); }
    void pPerm(unsigned r)
    {
        if (par) {
            for (auto &f : par->perms) if (f.rounds == r) { t->call("PermuteAll", [&] { f.f(s(0)); }); return; }
            // no such number of rounds in parallel: one state at a time through the serial layer
            for (unsigned k = 0; k < N; k++) {
                Inst tmp(t, one->sz);
                Buf b = t->inout(Bytes(W, 0));
                pExtract(k, b.p(), 0, W);
                t->call("Initialize", [&] { one->Initialize(tmp.p()); one->AddBytes1(tmp.p(), b.p(), 0, W); });
                perm1(tmp.p(), r);
                t->call("ExtractBytes", [&] { one->ExtractBytes1(tmp.p(), b.p(), 0, W); });
                pOver(k, b.p(), 0, W);
            }
            return;
        }
        for (unsigned k = 0; k < N; k++) perm1(s(k), r);
    }
    void perm1(void *p, unsigned r)
    {
        if (r & 0x100) {           // through the function with a fixed number of rounds, where there is one
            r &= 0xff;
            for (auto &f : one->perms) if (f.rounds == r) { t->call("Permute", [&] { f.f(p); }); return; }
        }
        t->call("Permute_Nrounds", [&] { one->Permute_Nrounds(p, r); });
    }
    void mPerm(unsigned r) { if (t->model()) for (auto &b : m) xoo ? ref::xoodoo(b.data(), r) : ref::keccakP(b.data(), r); }
    // the lanes of all states, block by block
    void blocks(const Bytes &d, unsigned lc, unsigned lo, const std::function<void(Bytes &, const u8 *, unsigned)> &f)
    {
        if (t->model()) for (unsigned k = 0; k < N; k++) f(m[k], d.data() + size_t(k) * lo * L, lc * L);
    }
    void op(const Op &o) override
    {
        if (!one->present) return;
        if (o.c == "init" || !started) {
            if (started) t->fault(F_REINIT);
            pInit();
            for (auto &b : m) b.assign(W, 0);
            started = true;
            if (o.c == "init") return;
        }
        unsigned lanes = W / L;
        auto spanOf = [&](unsigned lc, unsigned lo) { return (size_t(N - 1) * lo + lc) * L; };
        if (o.c == "add" || o.c == "over") {            // instance, offset, length, data
            unsigned k = unsigned(clampI(o[0], 0, N - 1)), off = unsigned(clampI(o[1], 0, W - 1)), n = unsigned(clampI(o[2], 0, i64(W - off)));
            Bytes d = dataOf(u64(o[3]), n);
            Buf b = t->in(d);
            t->state(1 + (o.c == "over"), off * 256 + n, k * 16 + N, u64(xoo));
            if (o.c == "add") { pAdd(k, b.p(), off, n); for (unsigned j = 0; j < n; j++) m[k][off + j] ^= d[j]; }
            else { pOver(k, b.p(), off, n); for (unsigned j = 0; j < n; j++) m[k][off + j] = d[j]; }
        }
        else if (o.c == "byte") {                       // instance, offset, value
            unsigned k = unsigned(clampI(o[0], 0, N - 1)), off = unsigned(clampI(o[1], 0, W - 1));
            u8 v = u8(o[2]);
            t->state(3, off, k * 16 + N, u64(xoo));
            t->call("AddByte", [&] { par ? par->AddByte(s(k), k, v, off) : one->AddByte1(s(k), v, off); });
            m[k][off] ^= v;
        }
        else if (o.c == "zero") {                       // instance, length
            unsigned k = unsigned(clampI(o[0], 0, N - 1)), n = unsigned(clampI(o[1], 0, W));
            t->state(4, n, k * 16 + N, u64(xoo));
            t->call("OverwriteWithZeroes", [&] { par ? par->OverwriteWithZeroes(s(k), k, n) : one->OverwriteWithZeroes1(s(k), n); });
            std::fill_n(m[k].begin(), n, u8(0));
        }
        else if (o.c == "get") {                        // instance, offset, length
            unsigned k = unsigned(clampI(o[0], 0, N - 1)), off = unsigned(clampI(o[1], 0, W - 1)), n = unsigned(clampI(o[2], 0, i64(W - off)));
            Buf q = t->out(n);
            t->state(5, off * 256 + n, k * 16 + N, u64(xoo));
            pExtract(k, q.p(), off, n);
            t->output("extracted bytes", q, [&] { return Bytes(m[k].begin() + off, m[k].begin() + off + n); });
        }
        else if (o.c == "getadd") {                     // instance, offset, length, data, in place?
            unsigned k = unsigned(clampI(o[0], 0, N - 1)), off = unsigned(clampI(o[1], 0, W - 1)), n = unsigned(clampI(o[2], 0, i64(W - off)));
            Bytes d = dataOf(u64(o[3]), n);
            bool inPlace = o[4] & 1;
            Buf b, q;
            if (inPlace) q = t->inout(d); else { b = t->in(d); q = t->out(n); }
            t->state(6 + inPlace, off * 256 + n, k * 16 + N, u64(xoo));
            pExtractAdd(k, inPlace ? q.p() : b.p(), q.p(), off, n);
            t->output("extracted and added bytes", q, [&] { Bytes w = d; for (unsigned j = 0; j < n; j++) w[j] ^= m[k][off + j]; return w; });
        }
        else if (o.c == "addall" || o.c == "overall") { // lanes, offset in lanes, data
            unsigned lc = unsigned(clampI(o[0], 0, lanes)), lo = unsigned(clampI(o[1], 0, 64));
            Bytes d = dataOf(u64(o[2]), spanOf(lc, lo));
            Buf b = t->in(d);
            bool add = o.c == "addall";
            t->state(8 + add, lc * 64 + lo, N, u64(xoo));
            if (par) t->call(add ? "AddLanesAll" : "OverwriteLanesAll", [&] { (add ? par->AddLanesAll : par->OverwriteLanesAll)(s(0), b.p(), lc, lo); });
            else for (unsigned k = 0; k < N; k++) add ? pAdd(k, b.p() + size_t(k) * lo * L, 0, lc * L) : pOver(k, b.p() + size_t(k) * lo * L, 0, lc * L);
            blocks(d, lc, lo, [&](Bytes &x, const u8 *p, unsigned n) { for (unsigned j = 0; j < n; j++) x[j] = add ? x[j] ^ p[j] : p[j]; });
        }
        else if (o.c == "getall" || o.c == "getaddall") {   // lanes, offset in lanes, data
            unsigned lc = unsigned(clampI(o[0], 0, lanes)), lo = unsigned(clampI(o[1], lc, 64));
            size_t n = spanOf(lc, lo);
            bool add = o.c == "getaddall";
            Bytes d = dataOf(u64(o[2]), n), before = dataOf(99, n);
            Buf b, q = t->inout(before);                // what lies between the blocks is not written
            if (add) b = t->in(d);
            t->state(10 + add, lc * 64 + lo, N, u64(xoo));
            if (par) t->call(add ? "ExtractAndAddLanesAll" : "ExtractLanesAll", [&] {
                if (add) par->ExtractAndAddLanesAll(s(0), b.p(), q.p(), lc, lo); else par->ExtractLanesAll(s(0), q.p(), lc, lo);
            });
            else for (unsigned k = 0; k < N; k++) {
                size_t at = size_t(k) * lo * L;
                add ? pExtractAdd(k, b.p() + at, q.p() + at, 0, lc * L) : pExtract(k, q.p() + at, 0, lc * L);
            }
            t->output(add ? "extracted and added lanes" : "extracted lanes", q, [&] {
                Bytes w = before;
                for (unsigned k = 0; k < N; k++) for (unsigned j = 0; j < lc * L; j++) { size_t at = size_t(k) * lo * L + j; w[at] = add ? d[at] ^ m[k][j] : m[k][j]; }
                return w;
            });
        }
        else if (o.c == "perm") {                       // rounds, through which function
            unsigned r = unsigned(clampI(o[0], 1, xoo ? 12 : 24));
            t->state(12, r, N, u64(xoo));
            pPerm(par ? r : r | (o[1] & 1 ? 0x100 : 0));
            mPerm(r);
        }
        else if (o.c == "fast") {                       // lanes, parallel offset, serial offset, iterations, bytes more, 12 rounds?, data
            if (xoo) return;
            unsigned lc = unsigned(clampI(o[0], 1, lanes - 1)), lop = N == 1 ? 0 : unsigned(clampI(o[1], 0, 200));
            unsigned los = N == 1 ? lc : unsigned(clampI(o[2], 1, i64(N - 1) * lop + lc));
            int which = int(o[5] & 1);
            unsigned rounds = which ? 12 : 24;
            i64 iterations = clampI(o[3], 0, N == 1 && los * L <= 1000 ? 66000 : 400);      // whatever the backend
            size_t least = spanOf(lc, lop);
            size_t n = iterations == 0 ? size_t(clampI(o[4], 0, i64(least) - 1)) : least + size_t(iterations - 1) * los * L + size_t(clampI(o[4], 0, i64(los * L) - 1));
            size_t want = size_t(iterations) * los * L;
            Bytes d = dataOf(u64(o[6]), n);
            Buf b = t->in(d);
            t->state(13 + u64(which), lc * 256 + lop, los, N);
            size_t got = want;
            if (par && par->FastLoop[which]) t->call("FastLoop_Absorb", [&] { got = par->FastLoop[which](s(0), lc, lop, los, b.p(), n); });
            else if (N == 1 && one->FastLoop1[which]) t->call("FastLoop_Absorb", [&] { got = one->FastLoop1[which](s(0), lc, b.p(), n); });
            else if (!par && N == 1) for (i64 from = 0; from < iterations; from += 256) t->call("Permute_Nrounds", [&] {
                for (i64 j = from; j < std::min(from + 256, iterations); j++) { one->AddBytes1(s(0), b.p() + size_t(j) * los * L, 0, lc * L); one->Permute_Nrounds(s(0), rounds); }
            });
            else for (i64 j = 0; j < iterations; j++) {
                for (unsigned k = 0; k < N; k++) pAdd(k, b.p() + (size_t(j) * los + size_t(k) * lop) * L, 0, lc * L);
                pPerm(rounds);
            }
            if (got != want) t->fail("model-mismatch", "FastLoop_Absorb returned " + std::to_string(got) + ", expected " + std::to_string(want));
            if (t->model()) for (i64 j = 0; j < iterations; j++) {
                for (unsigned k = 0; k < N; k++) for (unsigned q = 0; q < lc * L; q++) m[k][q] ^= d[(size_t(j) * los + size_t(k) * lop) * L + q];
                mPerm(rounds);
            }
        }
        else if (o.c == "leaves") {                     // 128 or 256, data
            if (xoo || N == 1) return;
            int which = int(o[0] & 1);
            size_t outLen = which ? 64 : 32;
            Bytes d = dataOf(u64(o[1]), size_t(N) * 8192);
            Buf b = t->in(d), q = t->out(N * outLen);
            t->state(15, u64(which), N);
            if (par && par->ProcessLeaves[which]) t->call("ProcessLeaves", [&] { par->ProcessLeaves[which](b.p(), q.p()); });
            else for (unsigned k = 0; k < N; k++)
                t->call("TurboSHAKE", [&] { t->A->TurboSHAKE(which ? 512 : 256, b.p() + size_t(k) * 8192, 8192, 0x0B, q.p() + k * outLen, outLen); });
            t->output("chaining values", q, [&] {
                Bytes w;
                for (unsigned k = 0; k < N; k++) w = w + ref::sponge(which ? 1088 : 1344, 12, Bytes(d.begin() + k * 8192, d.begin() + (k + 1) * 8192), 0x0B, outLen);
                return w;
            });
        }
        if (o.c == "dump" || t->p.at(2)) {              // everything
            for (unsigned k = 0; k < N; k++) {
                Buf q = t->out(W);
                pExtract(k, q.p(), 0, W);
                t->output("state", q, [&] { return m[k]; });
            }
        }
    }
};
void genSnp(GenCtx &g, TaskPlan &p, int level)
{
    Rng &r = g.r;
    int xoo = int(r.below(2));
    static const unsigned pk[] = {1, 2, 4, 8}, px[] = {1, 4, 8, 16};
    i64 N = xoo ? px[level] : pk[level], W = xoo ? 48 : 200, L = xoo ? 4 : 8, lanes = W / L;
    p.cfg = {xoo, level, r.chance(1, 4)};
    p.ops.push_back(mk("init", {}));
    auto lc = [&] { return r.chance(1, 4) ? lanes : r.chance(1, 4) ? r.pick({0, 1, lanes - 1, 17, 21, 16, 13, 9, 4, 8, 5}) : r.range(0, lanes); };
    auto pos = [&](i64 &off, i64 &n) {
        off = r.chance(1, 3) ? r.range(0, lanes - 1) * L : r.chance(1, 8) ? W - 1 : r.range(0, W - 1);
        n = r.chance(1, 5) ? W - off : r.chance(1, 4) ? r.range(0, std::min<i64>(W - off, 9)) : r.chance(1, 3) ? std::min<i64>(W - off, r.range(0, lanes) * L) : r.range(0, W - off);
    };
    for (int k = 2 * g.ops; k > 0; k--) {
        i64 i = r.range(0, N - 1), off, n;
        pos(off, n);
        switch (r.below(level ? 22 : 14)) {
            case 0: case 1: p.ops.push_back(mk("add", {i, off, n, i64(r.dseed())})); break;
            case 2: case 3: p.ops.push_back(mk("over", {i, off, n, i64(r.dseed())})); break;
            case 4: p.ops.push_back(mk("byte", {i, off, r.range(0, 255)})); break;
            case 5: p.ops.push_back(mk("zero", {i, r.chance(1, 2) ? n : r.range(0, lanes) * L})); break;
            case 6: p.ops.push_back(mk("get", {i, off, n})); break;
            case 7: case 8: p.ops.push_back(mk("getadd", {i, off, n, i64(r.dseed()), level == 0 ? r.range(0, 1) : 0})); break;
            case 9: case 10: p.ops.push_back(mk("perm", {r.chance(1, 2) ? r.pick({12, 24, 6, 4}) : r.range(1, 24), r.range(0, 1)})); break;
            case 11: case 12: {
                if (xoo) { p.ops.push_back(mk("perm", {12, 1})); break; }
                i64 l = std::max<i64>(1, lc()), lop, los;
                switch (r.below(4)) {
                    case 0: lop = l; los = N * l; break;                       // consecutive blocks
                    case 1: lop = l * r.range(1, 5) + r.range(0, 3); los = l; break;        // long stretches
                    case 2: lop = r.range(0, 40); los = r.range(1, (N - 1) * lop + l); break;
                    default: lop = r.range(l, 100); los = l; break;
                }
                p.ops.push_back(mk("fast", {l, lop, los, r.chance(1, 6) ? 0 : r.chance(1, 3000) ? r.range(65535, 65540) : r.wide && r.chance(1, 4) ? r.range(250, 300) : r.range(0, g.big ? 12 : 4), r.chance(1, 2) ? r.range(0, 7) : r.range(0, 1600), r.range(0, 1), i64(r.dseed())}));
                break;
            }
            case 13: p.ops.push_back(r.chance(1, 4) ? mk("init", {}) : mk("dump", {})); break;
            case 14: case 15: p.ops.push_back(mk("addall", {lc(), r.chance(1, 3) ? lanes : r.range(0, 40), i64(r.dseed())})); break;
            case 16: case 17: p.ops.push_back(mk("overall", {lc(), r.chance(1, 3) ? lanes : r.range(0, 40), i64(r.dseed())})); break;
            case 18: p.ops.push_back(mk("getall", {lc(), r.range(0, 40)})); break;
            case 19: p.ops.push_back(mk("getaddall", {lc(), r.range(0, 40), i64(r.dseed())})); break;
            case 20: p.ops.push_back(mk("perm", {r.pick({12, 24, 6}), 1})); break;
            case 21: if (r.chance(1, 3)) p.ops.push_back(mk("leaves", {r.range(0, 1), i64(r.dseed())})); break;
        }
    }
    p.ops.push_back(mk("dump", {}));
}
void genOne(GenCtx &g, TaskPlan &p) { genSnp(g, p, 0); }
void genPar(GenCtx &g, TaskPlan &p) { genSnp(g, p, int(g.r.range(1, 3))); }
KIND("snp", SnpS, genOne)
std::unique_ptr<Session> makePar(Task *t) { return makeSession<SnpS>(t); }
static const bool regPar = (addKind("plsnp", makePar, genPar), true);
}

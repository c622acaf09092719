// Two parties exchanging authenticated messages over a simulated network (SANE, SANSE, Xoodyak), and single Xoodyak sessions.
#include "core.hpp"
#include <algorithm>
#include <deque>
using ref::Bits;

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
Bits bitsOf(i64 seed, u64 n) { return Bits(dataOf(u64(seed), (n + 7) / 8), n); }
struct Obj {
    std::unique_ptr<Inst> i;
    Obj() {}
    Obj(Task *t, const Size &s) : i(std::make_unique<Inst>(t, s)) {}
    Obj(const Obj &o) : i(o.i ? std::make_unique<Inst>(*o.i) : nullptr) {}
    Obj &operator=(const Obj &o) { i = o.i ? std::make_unique<Inst>(*o.i) : nullptr; return *this; }
    void *p() const { return i->p(); }
};
struct Message { Bits P, C, A; Bytes tag; bool operator==(const Message &o) const { return C.n == o.C.n && C.b == o.C.b && A.n == o.A.n && A.b == o.A.b && tag == o.tag; } };

enum { SANE, SANSE, XOODYAK };
template <int MODE> struct LinkS : SessionOf<LinkS<MODE>> {
    using SessionOf<LinkS<MODE>>::t;
    int which = 0;                // Kravatte or Xoofff
    bool ready = false;
    Obj party[2];
    Obj alien[2];                 // sessions under another key, one on each party's machine
    Bits K, N;
    std::deque<Message> net;      // in flight
    std::vector<Message> past;    // delivered before
    int from = 0;                 // who sent what is in flight
    ref::Session model{0};
    ref::Xoodyak xmodel;
    u64 count = 0;
    explicit LinkS(Task *t_) : SessionOf<LinkS<MODE>>(t_) {}
    static constexpr size_t TAG = MODE == SANSE ? 32 : 16;
    const Api *api(int who) const { return who ? t->B : t->A; }
    const Size &size(int who) const
    {
        auto A = api(who);
        return MODE == XOODYAK ? A->sz_xoodyak : MODE == SANE ? (which ? A->sz_xsane : A->sz_ksane) : (which ? A->sz_xsanse : A->sz_ksanse);
    }
    int cInit(const Api *A, void *o, const Buf &k, u64 kn, const Buf &n, u64 nn, u8 *tag)
    {
        if (MODE == SANE) return (which ? A->XoofffSANE_Initialize : A->Kravatte_SANE_Initialize)(o, k.p(), kn, n.p(), nn, tag);
        if (MODE == SANSE) return (which ? A->XoofffSANSE_Initialize : A->Kravatte_SANSE_Initialize)(o, k.p(), kn);
        A->Xoodyak_Initialize(o, k.p(), kn / 8, nullptr, 0, nullptr, 0);
        A->Xoodyak_Absorb(o, n.p(), nn / 8);
        return 0;
    }
    int cWrap(const Api *A, void *o, const Buf &p, Buf &c, u64 n, const Buf &a, u64 an, u8 *tag)
    {
        if (MODE == SANE) return (which ? A->XoofffSANE_Wrap : A->Kravatte_SANE_Wrap)(o, p.p(), c.p(), n, a.p(), an, tag);
        if (MODE == SANSE) return (which ? A->XoofffSANSE_Wrap : A->Kravatte_SANSE_Wrap)(o, p.p(), c.p(), n, a.p(), an, tag);
        A->Xoodyak_Absorb(o, a.p(), an / 8);
        A->Xoodyak_Encrypt(o, p.p(), c.p(), n / 8);
        A->Xoodyak_Squeeze(o, tag, TAG);
        return 0;
    }
    int cUnwrap(const Api *A, void *o, const Buf &c, Buf &p, u64 n, const Buf &a, u64 an, u8 *tag)
    {
        if (MODE == SANE) return (which ? A->XoofffSANE_Unwrap : A->Kravatte_SANE_Unwrap)(o, c.p(), p.p(), n, a.p(), an, tag);
        if (MODE == SANSE) return (which ? A->XoofffSANSE_Unwrap : A->Kravatte_SANSE_Unwrap)(o, c.p(), p.p(), n, a.p(), an, tag);
        u8 mine[TAG];
        A->Xoodyak_Absorb(o, a.p(), an / 8);
        A->Xoodyak_Decrypt(o, c.p(), p.p(), n / 8);
        A->Xoodyak_Squeeze(o, mine, TAG);
        return memcmp(mine, tag, TAG) != 0;
    }
    Message wrap(Obj &o, const Api *A, const Bits &P, const Bits &AD)
    {
        Message m;
        m.P = P;
        m.A = AD;
        Buf p = t->in(P.b), a = t->in(AD.b), c = t->out(P.b.size()), tag = t->out(TAG);
        t->ok("wrap", [&] { return cWrap(A, o.p(), p, c, P.n, a, AD.n, tag.p()); });
        m.C = Bits(c.get(), P.n);
        m.tag = tag.get();
        if (c.get() != m.C.b) t->fail("model-mismatch", "bits after the end of the ciphertext are not zero");
        return m;
    }
    void start(Obj &o, int who, const Bits &k, const Bits &n, const char *what, bool useModel)
    {
        o = Obj(t, size(who));
        Buf kb = t->in(k.b), nb = t->in(n.b), tag = t->out(TAG);
        t->ok(what, [&] { return cInit(api(who), o.p(), kb, k.n, nb, n.n, tag.p()); });
        if (MODE == SANE) {
            t->record("start-up tag", tag.get());
            if (useModel && t->model()) {
                if (who == 0) startTag = model.saneInit(k, n);
                t->expect("start-up tag", tag.get(), startTag);
            }
        }
        else if (useModel && t->model() && who == 0) {
            if (MODE == SANSE) model.sanseInit(k);
            else { xmodel.init(k.b, {}, {}); xmodel.absorb(n.b); }
        }
    }
    Bytes startTag;
    void op(const Op &o) override
    {
        if (o.c == "init") {      // which, key bits, key, nonce bits, nonce
            which = int(o[0] & 1);
            u64 kn = u64(clampI(o[1], 0, MODE == XOODYAK ? 43 * 8 : which ? 383 : 1599)), nn = u64(clampI(o[3], 0, 8000));
            if (MODE == XOODYAK) { kn = std::max<u64>(8, kn & ~7ull); nn &= ~7ull; }
            if (ready) t->fault(F_REINIT);
            K = bitsOf(o[2], kn);
            N = bitsOf(o[4], nn);
            model = ref::Session(which);
            start(party[0], 0, K, N, "initialization of the first party", true);
            start(party[1], 1, K, N, "initialization of the second party", true);
            alien[0] = alien[1] = Obj();
            net.clear();
            past.clear();
            count = 0;
            ready = true;
            return;
        }
        if (!ready) return;
        if (o.c == "wrap") {      // sender, data bits, data, AD bits, AD
            int who = int(o[0] & 1);
            if (!net.empty() && who != from) return;       // only one side speaks at a time
            if (net.size() > 4) return;
            from = who;
            u64 n = u64(clampI(o[1], 0, 1 << 19)), an = u64(clampI(o[3], 0, 1 << 19));
            if (MODE == XOODYAK) { n &= ~7ull; an &= ~7ull; }
            Bits P = bitsOf(o[2], n), AD = bitsOf(o[4], an);
            t->state(1, lenClass(n / 8, which ? 48 : 200) * 8 + (n & 7), lenClass(an / 8, which ? 48 : 200) * 8 + (an & 7), u64(which));
            Message m = wrap(party[who], api(who), P, AD);
            t->record("ciphertext", m.C.b);
            t->record("tag", m.tag);
            if (t->model()) {
                Bytes tag;
                Bits C;
                if (MODE == SANE) C = model.saneWrap(P, AD, tag);
                else if (MODE == SANSE) C = model.sanseWrap(P, AD, tag);
                else { xmodel.absorb(AD.b); C = Bits(xmodel.crypt(P.b, false)); tag = xmodel.squeeze(TAG); }
                t->expect("ciphertext", m.C.b, C.b);
                t->expect("tag", m.tag, tag);
            }
            net.push_back(m);
            count++;
        }
        else if (o.c == "send") deliver(o);
        else if (o.c == "drain") { while (!net.empty()) deliver(mk("send", {0})); }
        else if (o.c == "!init") {        // a key that is too long is refused, whatever the state of the session
            if (MODE == XOODYAK) return;
            int who = int(o[0] & 1);
            u64 kn = (which ? 384u : 1600u) + u64(clampI(o[1], 0, 99));
            Buf kb = t->in(u64(o[2]), (kn + 7) / 8), nb = t->in(u64(o[2]), 16), tag = t->out(TAG);
            t->refused("initialization with a key that is too long", t->rcall("initialization", [&] { return cInit(api(who), party[who].p(), kb, kn, nb, 128, tag.p()); }), {&tag});
        }
    }
    void flip(Bits &b, u64 x) { if (b.n) { u64 k = x % b.n; b.b[k / 8] ^= u8(1u << (k & 7)); } }
    void deliver(const Op &o)     // fault, argument
    {
        if (net.empty()) return;
        int to = 1 - from;
        const Message head = net.front();
        Message m = head;
        u64 x = u64(o[1]);
        u64 unit = MODE == XOODYAK ? 8 : 1;
        Fault kind = F_NET_BITFLIP;
        switch (o[0]) {
            case 1: flip(m.C, t->vary(x)); break;
            case 2: if (m.C.n) { u64 k = 1 + x % std::min<u64>(m.C.n, 200); m.C = m.C.sub(0, m.C.n - std::min(m.C.n, (k + unit - 1) / unit * unit)); } kind = F_NET_TRUNCATE; break;
            case 3: { u64 k = (1 + x % 200 + unit - 1) / unit * unit; m.C.append(bitsOf(i64(x >> 8 & 3), k)); kind = F_NET_EXTEND; break; }
            case 4: if (!past.empty()) m = past[x % past.size()]; kind = F_NET_REPLAY; break;
            case 5: if (net.size() > 1) m = net[1 + x % (net.size() - 1)]; kind = F_NET_REORDER; break;
            case 6: {             // the same message under another key
                if (!alien[from].i) {
                    Bits k2 = K;
                    if (k2.n == 0) k2 = Bits(Bytes{1}, 8); else flip(k2, x);
                    start(alien[from], from, k2, N, "initialization of another session", false);
                }
                m = wrap(alien[from], api(from), head.P, head.A);
                kind = F_NET_SPLICE;
                break;
            }
            case 7: if (m.A.n) flip(m.A, t->vary(x)); else m.A = bitsOf(1, 8 * (1 + x % 40)); kind = F_NET_AD; break;
            case 8: { u64 k = t->vary(x) % (TAG * 8); m.tag[k / 8] ^= u8(1u << (k & 7)); kind = F_NET_TAG; break; }
            case 9: if (m.A.n) m.A = m.A.sub(0, (x % m.A.n) / unit * unit); kind = F_NET_AD; break;
            case 10: std::swap(m.A, m.C); kind = F_NET_AD; break;
            case 11: m.C = Bits(); kind = F_NET_TRUNCATE; break;
            case 12: { Bytes tg = m.tag; if (!past.empty()) tg = past[x % past.size()].tag; m.tag = tg; kind = F_NET_TAG; break; }
            case 13: for (size_t k = t->vary(x) % TAG; k < TAG; k++) m.tag[k] = 0; kind = F_NET_TAG; break;
            case 14: m.A.append(bitsOf(i64(x & 1), (1 + x % 64 + unit - 1) / unit * unit)); kind = F_NET_AD; break;
            case 15: {            // the boundary between metadata and data moves
                u64 k = m.C.n ? (x % (m.C.n + 1)) / 8 * 8 : 0;
                m.A.append(m.C.sub(0, k));
                m.C = m.C.sub(k, m.C.n - k);
                kind = F_NET_AD;
                break;
            }
            case 16: {            // a few bytes of the ciphertext
                size_t len = m.C.b.size(), at = len ? t->vary(x) % len : 0;
                for (size_t j = at; j < std::min(len, at + 1 + (x >> 20) % 40); j++) m.C.b[j] ^= u8(1 + (x >> 8) % 255);
                m.C = Bits(m.C.b, m.C.n);
                break;
            }
        }
        bool same = m == head;
        t->publish(same);
        if (!same) t->fault(kind);
        std::unique_ptr<Obj> before;
        if (!same) before = std::make_unique<Obj>(party[to]);
        {
            Buf c = t->in(m.C.b), a = t->in(m.A.b), p = t->out((m.C.n + 7) / 8), tag = t->in(m.tag);
            t->state(2, u64(o[0]) * 2 + same, lenClass(m.C.n / 8, which ? 48 : 200) * 8 + (m.C.n & 7), u64(which * 2 + to));
            int rc = t->rcall("unwrap", [&] { return cUnwrap(api(to), party[to].p(), c, p, m.C.n, a, m.A.n, tag.p()); });
            t->recordRc("unwrap.rc", rc);
            if (same) {
                if (rc) t->fail("refused", "an authentic message, delivered in order, was refused");
                t->record("plaintext", p.get());
                t->expect("plaintext", p.get(), head.P.b);
            }
            else {
                if (!rc) t->fail("tampering-accepted", "an altered message was accepted");
                if (MODE != XOODYAK)
                    for (size_t k = 0; k < p.size(); k++)
                        if (p.p()[k] != 0 && p.p()[k] != p.keep[k]) t->fail("plaintext-released", "a refused message left a byte of something else than zero in the plaintext buffer");
            }
        }
        if (same) {
            past.push_back(head);
            if (past.size() > 6) past.erase(past.begin());
            net.pop_front();
        }
        else { party[to] = *before; t->fault(F_CKPT_RESTORE); }
    }
};
template <int MODE> void genLink(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int rounds = int(r.range(1, 2)); rounds > 0; rounds--) {
        i64 which = r.range(0, 1), width = MODE == XOODYAK ? 24 * 8 : which ? 384 : 1600;
        p.ops.push_back(mk("init", {which, r.chance(1, 2) ? 128 : r.range(0, which ? 383 : 1599), i64(r.dseed()), r.chance(1, 2) ? 128 : r.range(0, 1000), i64(r.dseed())}));
        auto len = [&]() -> i64 {
            if (r.chance(1, 5)) return 0;
            i64 n = 8 * std::min<i64>(r.len(width / 8 * r.pick({1, 1, 1, 4}), g.big ? 20 : 3), r.wide ? 60000 : 6000);
            if (MODE == SANE && r.chance(1, 4)) n = std::max<i64>(0, width * r.range(1, 3) - 128 + 8 * r.range(-2, 2));      // output starts after the tag
            return n + (r.chance(1, 3) ? r.range(1, 7) : 0);
        };
        for (int k = int(r.range(2, 2 * g.ops)); k > 0; k--) {
            if (g.misuse && r.chance(1, 2)) p.ops.push_back(mk("!init", {r.range(0, 1), r.range(0, 99), i64(r.dseed())}));
            if (r.chance(2, 5)) p.ops.push_back(mk("wrap", {r.chance(1, 4), len(), i64(r.dseed()), len(), i64(r.dseed())}));
            else p.ops.push_back(mk("send", {r.chance(1, 3) ? 0 : r.range(1, 16), i64(r.below(1ull << 40))}));
        }
        p.ops.push_back(mk("drain", {}));
    }
}

// ---------------------------------------------------------------- Xoodyak

struct XoodyakS : SessionOf<XoodyakS> {
    Inst i;
    ref::Xoodyak m;
    bool ready = false, keyed = false;
    int last = 0;
    explicit XoodyakS(Task *t_) : SessionOf<XoodyakS>(t_), i(t_, t_->A->sz_xoodyak) {}
    void op(const Op &o) override
    {
        auto A = t->A;
        if (o.c == "init") {      // key, id and counter lengths, seed
            size_t kn = size_t(clampI(o[0], 0, 43)), idn = size_t(clampI(o[1], 0, 43 - i64(kn))), cn = size_t(clampI(o[2], 0, 300));
            if (!kn) idn = cn = 0;
            Bytes k = dataOf(u64(o[3]), kn), id = dataOf(u64(o[3]) + 1, idn), c = dataOf(u64(o[3]) + 2, cn);
            Buf kb = t->in(k), ib = t->in(id), cb = t->in(c);
            if (ready) t->fault(F_REINIT);
            t->call("Xoodyak_Initialize", [&] { A->Xoodyak_Initialize(i.p(), kb.p(), kn, ib.p(), idn, cb.p(), cn); });
            t->state(1, kn, idn, cn);
            ready = true;
            keyed = kn > 0;
            last = 0;
            if (t->model()) m.init(k, id, c);
            return;
        }
        if (!ready) return;
        size_t n = size_t(clampI(o[0], 0, 1 << 20));
        int kind = o.c == "absorb" ? 1 : o.c == "sqz" ? 2 : o.c == "enc" ? 3 : o.c == "dec" ? 4 : o.c == "skey" ? 5 : o.c == "ratchet" ? 6 : 0;
        if (!kind || (kind >= 3 && !keyed)) return;
        t->state(2, u64(last * 8 + kind), lenClass(n, kind == 1 ? (keyed ? 44 : 16) : keyed ? 24 : 16), keyed);
        last = kind;
        t->fault(F_FRAGMENT);
        if (kind == 1) {
            Bytes d = dataOf(u64(o[1]), n);
            Buf b = t->in(d);
            t->call("Xoodyak_Absorb", [&] { A->Xoodyak_Absorb(i.p(), b.p(), n); });
            if (t->model()) m.absorb(d);
        }
        else if (kind == 2) {
            Buf q = t->out(n);
            t->call("Xoodyak_Squeeze", [&] { A->Xoodyak_Squeeze(i.p(), q.p(), n); });
            Bytes w = t->model() ? m.squeeze(n) : Bytes();        // even an empty squeeze changes the state
            t->output("Xoodyak_Squeeze output", q, [&] { return w; });
        }
        else if (kind == 3 || kind == 4) {
            Bytes d = dataOf(u64(o[1]), n);
            bool inPlace = o[2] & 1;
            Buf b, q;
            if (inPlace) q = t->inout(d); else { b = t->in(d); q = t->out(n); }
            const u8 *from = inPlace ? q.p() : b.p();
            if (kind == 3) t->call("Xoodyak_Encrypt", [&] { A->Xoodyak_Encrypt(i.p(), from, q.p(), n); });
            else t->call("Xoodyak_Decrypt", [&] { A->Xoodyak_Decrypt(i.p(), from, q.p(), n); });
            Bytes w = t->model() ? m.crypt(d, kind == 4) : Bytes();
            t->output(kind == 3 ? "ciphertext" : "plaintext", q, [&] { return w; });
        }
        else if (kind == 5) {
            Buf q = t->out(n);
            t->call("Xoodyak_SqueezeKey", [&] { A->Xoodyak_SqueezeKey(i.p(), q.p(), n); });
            Bytes w = t->model() ? m.squeezeKey(n) : Bytes();
            t->output("Xoodyak_SqueezeKey output", q, [&] { return w; });
        }
        else {
            t->call("Xoodyak_Ratchet", [&] { A->Xoodyak_Ratchet(i.p()); });
            if (t->model()) m.ratchet();
        }
    }
};
void genXoodyak(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int rounds = int(r.range(1, 3)); rounds > 0; rounds--) {
        bool keyed = r.chance(3, 4);
        i64 k = keyed ? r.chance(1, 2) ? 16 : r.range(1, 43) : 0;
        p.ops.push_back(mk("init", {k, r.chance(1, 2) ? 0 : r.chance(1, 4) ? 43 - k : r.range(0, 43), r.chance(1, 2) ? 0 : r.range(0, r.chance(1, 8) ? 300 : 16), i64(r.dseed())}));
        i64 ra = keyed ? 44 : 16, rs = keyed ? 24 : 16;
        for (int n = int(r.range(1, 2 * g.ops)); n > 0; n--) {
            i64 blocks = r.chance(1, 8) ? 20 : 4;
            if (g.big && r.chance(1, 3)) blocks = 400;
            switch (r.below(keyed ? 9 : 4)) {
                case 0: case 1: p.ops.push_back(mk("absorb", {r.len(ra, blocks), i64(r.dseed())})); break;
                case 2: case 3: p.ops.push_back(mk("sqz", {r.len(rs, blocks)})); break;
                case 4: case 5: p.ops.push_back(mk("enc", {r.len(rs, blocks), i64(r.dseed()), r.chance(1, 4)})); break;
                case 6: p.ops.push_back(mk("dec", {r.len(rs, blocks), i64(r.dseed()), r.chance(1, 4)})); break;
                case 7: p.ops.push_back(mk("skey", {r.len(rs, 3)})); break;
                default: p.ops.push_back(mk("ratchet", {}));
            }
        }
        p.ops.push_back(mk("sqz", {16}));
    }
}
using SaneS = LinkS<SANE>;
using SanseS = LinkS<SANSE>;
using XlinkS = LinkS<XOODYAK>;
KIND("sane", SaneS, genLink<SANE>)
KIND("sanse", SanseS, genLink<SANSE>)
KIND("xlink", XlinkS, genLink<XOODYAK>)
KIND("xoodyak", XoodyakS, genXoodyak)
}

#include "ref.hpp"
namespace ref {

static inline u64 rol64(u64 v, unsigned n) { n &= 63; return n ? v << n | v >> (64 - n) : v; }
static inline u32 rol32(u32 v, unsigned n) { n &= 31; return n ? v << n | v >> (32 - n) : v; }

// round constants from the degree-8 LFSR, rotation offsets from the (x,y) walk, as in the Keccak reference
struct KeccakTables {
    u64 rc[24];
    unsigned rho[25];
    KeccakTables() {
        u8 lfsr = 1;
        for (int i = 0; i < 24; i++) {
            rc[i] = 0;
            for (int j = 0; j < 7; j++) {
                bool bit = lfsr & 1;
                lfsr = (lfsr & 0x80) ? u8((lfsr << 1) ^ 0x71) : u8(lfsr << 1);
                if (bit) rc[i] |= 1ull << ((1 << j) - 1);
            }
        }
        memset(rho, 0, sizeof rho);
        int x = 1, y = 0;
        for (int t = 0; t < 24; t++) {
            rho[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64;
            int ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
    }
};

void keccakP(u8 *p, unsigned rounds)
{
    static const KeccakTables T;
    static const u8 m5[10] = {0, 1, 2, 3, 4, 0, 1, 2, 3, 4};
    u64 a[25], b[25], c[5];
    memcpy(a, p, 200);
    for (unsigned r = 24 - rounds; r < 24; r++) {
        for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (int x = 0; x < 5; x++) {
            u64 d = c[m5[x + 4]] ^ rol64(c[m5[x + 1]], 1);
            for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
        }
        for (int y = 0; y < 5; y++)
            for (int x = 0; x < 5; x++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol64(a[x + 5 * y], T.rho[x + 5 * y]);
        for (int y = 0; y < 25; y += 5)
            for (int x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[m5[x + 1] + y] & b[m5[x + 2] + y]);
        a[0] ^= T.rc[r];
    }
    memcpy(p, a, 200);
}

void xoodoo(u8 *p, unsigned rounds)
{
    static const u32 RC[12] = {0x058, 0x038, 0x3C0, 0x0D0, 0x120, 0x014, 0x060, 0x02C, 0x380, 0x0F0, 0x1A0, 0x012};
    u32 a[3][4], b[3][4];
    memcpy(a, p, 48);
    for (unsigned r = 12 - rounds; r < 12; r++) {
        u32 P[4], E[4];
        for (int x = 0; x < 4; x++) P[x] = a[0][x] ^ a[1][x] ^ a[2][x];
        for (int x = 0; x < 4; x++) E[x] = rol32(P[(x + 3) & 3], 5) ^ rol32(P[(x + 3) & 3], 14);
        for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) a[y][x] ^= E[x];
        for (int x = 0; x < 4; x++) {
            b[0][x] = a[0][x];
            b[1][x] = a[1][(x + 3) & 3];
            b[2][x] = rol32(a[2][x], 11);
        }
        b[0][0] ^= RC[r];
        for (int y = 0; y < 3; y++)
            for (int x = 0; x < 4; x++) a[y][x] = b[y][x] ^ (~b[(y + 1) % 3][x] & b[(y + 2) % 3][x]);
        for (int x = 0; x < 4; x++) {
            b[0][x] = a[0][x];
            b[1][x] = rol32(a[1][x], 1);
            b[2][x] = rol32(a[2][(x + 2) & 3], 8);
        }
        memcpy(a, b, 48);
    }
    memcpy(p, a, 48);
}

void Bits::append(const Bits &o)
{
    if ((n & 7) == 0) {
        b.insert(b.end(), o.b.begin(), o.b.end());
        n += o.n;
    }
    else
        for (u64 i = 0; i < o.n; i++) push(o.get(i));
}
Bits Bits::sub(u64 from, u64 len) const
{
    if ((from & 7) == 0) return Bits(Bytes(b.begin() + from / 8, b.begin() + (from + len + 7) / 8), len);
    Bits r;
    for (u64 i = 0; i < len; i++) r.push(get(from + i));
    return r;
}
Bits xorBits(const Bits &a, const Bits &b)
{
    const Bits &s = a.n < b.n ? a : b;
    Bytes r(s.b.size());
    for (size_t i = 0; i < r.size(); i++) r[i] = a.b[i] ^ b.b[i];
    return Bits(r, s.n);
}

void Sponge::absorb(const u8 *p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        s[pos++] ^= p[i];
        if (pos == rate) { keccakP(s, rounds); pos = 0; }
    }
}
void Sponge::finish(u8 d)
{
    // pad10*1 after the (up to 7) bits in d; the delimiter is the first padding bit
    s[pos] ^= d;
    if (pos == rate - 1 && d >= 0x80) keccakP(s, rounds);
    s[rate - 1] ^= 0x80;
    keccakP(s, rounds);
    pos = 0;
    squeezing = true;
}
Bytes Sponge::squeeze(size_t n)
{
    Bytes r(n);
    for (size_t i = 0; i < n; i++) {
        if (pos == rate) { keccakP(s, rounds); pos = 0; }
        r[i] = s[pos++];
    }
    return r;
}
Bytes sponge(unsigned rateBits, unsigned nr, const Bytes &m, u8 d, size_t out)
{
    Sponge s;
    s.init(rateBits, nr);
    s.absorb(m);
    s.finish(d);
    return s.squeeze(out);
}

static Bytes be(u64 v)
{
    Bytes r;
    do { r.insert(r.begin(), u8(v)); v >>= 8; } while (v);
    return r;
}
Bits leftEncode(u64 v) { Bytes b = be(v); b.insert(b.begin(), u8(b.size())); return Bits(b); }
Bits rightEncode(u64 v) { Bytes b = be(v); b.push_back(u8(b.size())); return Bits(b); }
Bits encodeString(const Bits &s) { Bits r = leftEncode(s.n); r.append(s); return r; }
Bits bytepad(const Bits &x, unsigned w)
{
    Bits z = leftEncode(w);
    z.append(x);
    z.n = (z.n + 7) / 8 * 8;
    while (z.b.size() % w) z.b.push_back(0);
    z.n = z.b.size() * 8;
    return z;
}
// absorbs a bit string followed by the bits of suffix, ready to squeeze
static void absorbBits(Sponge &s, const Bits &x, unsigned suffix, int suffixBits)
{
    s.absorb(x.b.data(), x.n / 8);
    unsigned v = 0;
    int have = x.n & 7;
    if (have) v = x.b.back();
    v |= suffix << have;
    have += suffixBits;
    if (have >= 8) {
        u8 c = u8(v);
        s.absorb(&c, 1);
        v >>= 8;
        have -= 8;
    }
    s.finish(u8(v | 1u << have));
}
static unsigned rateOf(int level) { return 1600 - 2 * level; }
Sponge cshake(int level, const Bits &x, const Bits &N, const Bits &S)
{
    Sponge s;
    s.init(rateOf(level), 24);
    if (N.n == 0 && S.n == 0) {
        absorbBits(s, x, 0xF, 4);
        return s;
    }
    Bits z = encodeString(N);
    z.append(encodeString(S));
    z = bytepad(z, rateOf(level) / 8);
    s.absorb(z.b);
    absorbBits(s, x, 0, 2);
    return s;
}
Sponge kmac(int level, const Bits &k, const Bits &x, u64 outBits, const Bits &S)
{
    Bits m = bytepad(encodeString(k), rateOf(level) / 8);
    m.append(x);
    m.append(rightEncode(outBits));
    return cshake(level, m, Bits(bytesOf("KMAC")), S);
}
Sponge tuplehash(int level, const std::vector<Bytes> &x, u64 outBits, const Bits &S)
{
    Bits m;
    for (auto &e : x) m.append(encodeString(Bits(e)));
    m.append(rightEncode(outBits));
    return cshake(level, m, Bits(bytesOf("TupleHash")), S);
}
Sponge parallelhash(int level, const Bytes &x, size_t B, u64 outBits, const Bits &S)
{
    Bits z = leftEncode(B);
    size_t n = 0;
    for (size_t i = 0; i < x.size(); i += B, n++) {
        Sponge s;
        s.init(rateOf(level), 24);
        s.absorb(&x[i], std::min(B, x.size() - i));
        s.finish(0x1F);
        z.append(Bits(s.squeeze(level / 4)));
    }
    z.append(rightEncode(n));
    z.append(rightEncode(outBits));
    return cshake(level, z, Bits(bytesOf("ParallelHash")), S);
}
Bits squeezeBits(Sponge &s, u64 bits) { return Bits(s.squeeze((bits + 7) / 8), bits); }

static Bytes lengthEncode(u64 v)
{
    Bytes b = v ? be(v) : Bytes();
    b.push_back(u8(b.size()));
    return b;
}
Sponge kangarootwelve(int level, const Bytes &m, const Bytes &c)
{
    Bytes S = m + c + lengthEncode(c.size());
    Sponge f;
    f.init(1600 - 2 * level, 12);
    if (S.size() <= 8192) {
        f.absorb(S);
        f.finish(0x07);
        return f;
    }
    f.absorb(&S[0], 8192);
    f.absorb(Bytes{3, 0, 0, 0, 0, 0, 0, 0});
    u64 n = 0;
    for (size_t i = 8192; i < S.size(); i += 8192, n++) {
        Sponge l;
        l.init(1600 - 2 * level, 12);
        l.absorb(&S[i], std::min<size_t>(8192, S.size() - i));
        l.finish(0x0B);
        f.absorb(l.squeeze(level / 4));
    }
    f.absorb(lengthEncode(n));
    f.absorb(Bytes{0xFF, 0xFF});
    f.finish(0x06);
    return f;
}

void Duplex::init(unsigned r) { memset(s, 0, 200); rate = r; in = 0; out = (r + 7) / 8; }
bool Duplex::canDuplex(size_t len, unsigned zlen, u8 d) const
{
    if (d == 0 || zlen > (rate + 7) / 8) return false;
    unsigned n = 0;
    while (d >> (n + 1)) n++;
    return (in + len) * 8 + n + 2 <= rate;
}
Bytes Duplex::duplexing(const Bytes &sigma, unsigned zlen, u8 d)
{
    feed(sigma);
    s[in] ^= d;
    s[(rate - 1) / 8] ^= 1u << ((rate - 1) % 8);
    keccakP(s, 24);
    in = 0;
    out = 0;
    return output(zlen);
}
Bytes Duplex::output(size_t len)
{
    Bytes r(len);
    for (size_t i = 0; i < len; i++) {
        r[i] = s[out];
        if ((out + 1) * 8 > rate) r[i] &= (1u << (rate % 8)) - 1;
        out++;
    }
    return r;
}

void Prg::feed(const Bytes &x)
{
    for (u8 v : x) {
        d.s[d.in++] ^= v;
        if (d.in == rho) d.duplexing({}, 0, 1);
    }
    d.out = rho;
}
Bytes Prg::fetch(size_t n)
{
    Bytes r;
    while (r.size() < n) {
        if (d.out >= rho) d.duplexing({}, 0, 1);
        r.push_back(d.s[d.out++]);
    }
    return r;
}
void Prg::forget()
{
    d.duplexing({}, 0, 1);
    memset(d.s, 0, rho);
    d.in = rho;
    d.duplexing({}, 0, 1);
    d.out = rho;
}

void Farfalle::key(const Bits &K)
{
    Bits p = K;
    p.push(1);
    k = p.b;
    k.resize(width());
    perm(k);
    roll = k;
    x.assign(width(), 0);
    cur = Bits();
    expanding = false;
}
void Farfalle::rollC()
{
    if (which == 0) {
        u64 l[25];
        memcpy(l, roll.data(), 200);
        u64 t = rol64(l[20], 7) ^ l[21] ^ (l[21] >> 3);
        for (int i = 20; i < 24; i++) l[i] = l[i + 1];
        l[24] = t;
        memcpy(roll.data(), l, 200);
    }
    else {
        u32 a[12], b[12];
        memcpy(a, roll.data(), 48);
        u32 t = a[0] ^ (a[0] << 13) ^ rol32(a[4], 3);
        for (int x = 0; x < 4; x++) { b[x] = a[4 + x]; b[4 + x] = a[8 + x]; }
        b[8] = a[1]; b[9] = a[2]; b[10] = a[3]; b[11] = t;
        memcpy(roll.data(), b, 48);
    }
}
void Farfalle::rollE()
{
    if (which == 0) {
        u64 l[25];
        memcpy(l, y.data(), 200);
        u64 t = rol64(l[15], 7) ^ rol64(l[16], 18) ^ (l[17] & (l[16] >> 1));
        for (int i = 15; i < 24; i++) l[i] = l[i + 1];
        l[24] = t;
        memcpy(y.data(), l, 200);
    }
    else {
        u32 a[12], b[12];
        memcpy(a, y.data(), 48);
        u32 t = rol32(a[0], 5) ^ rol32(a[4], 13) ^ (a[8] & a[4]) ^ 7;
        for (int x = 0; x < 4; x++) { b[x] = a[4 + x]; b[4 + x] = a[8 + x]; }
        b[8] = a[1]; b[9] = a[2]; b[10] = a[3]; b[11] = t;
        memcpy(y.data(), b, 48);
    }
}
void Farfalle::block1(const Bytes &m)
{
    Bytes b = roll;
    for (size_t i = 0; i < m.size(); i++) b[i] ^= m[i];
    perm(b);
    for (size_t i = 0; i < b.size(); i++) x[i] ^= b[i];
    rollC();
}
void Farfalle::compress(const Bits &m, bool init, bool last)
{
    if (init) {
        roll = k;
        x.assign(width(), 0);
        cur = Bits();
    }
    if (expanding) { expanding = false; cur = Bits(); }
    cur.append(m);
    if (!last) return;
    cur.push(1);
    size_t w = width();
    for (size_t i = 0; i < cur.b.size(); i += w)
        block1(Bytes(cur.b.begin() + i, cur.b.begin() + std::min(cur.b.size(), i + w)));
    rollC();
    cur = Bits();
}
Bits Farfalle::expand(u64 bits, bool isShort, bool)
{
    size_t w = width();
    if (!expanding) {
        y = x;
        if (!isShort) perm(y);
        expanding = true;
        outPos = 0;
    }
    Bytes r;
    for (u64 i = 0; i < (bits + 7) / 8; i++, outPos++) {
        if (outPos % w == 0) {
            block = y;
            rollE();
            perm(block);
            for (size_t j = 0; j < w; j++) block[j] ^= roll[j];
        }
        r.push_back(block[outPos % w]);
    }
    return Bits(r, bits);
}

void Session::add(const Bits &d, std::initializer_list<int> appendix)
{
    Bits m = d;
    for (int a : appendix) m.push(a);
    m.push(e);
    f.compress(m, false, true);
}
Bytes Session::saneInit(const Bits &K, const Bits &N)
{
    e = 0;
    f.key(K);
    f.compress(N, true, true);
    return f.expand(128, false, false).b;
}
Bits Session::saneWrap(const Bits &P, const Bits &A, Bytes &tag)
{
    Bits C;
    if (P.n) C = xorBits(f.expand(P.n, false, true), P);
    if (A.n || !P.n) add(A, {0});
    if (P.n) add(C, {1});
    e ^= 1;
    tag = f.expand(128, false, false).b;
    return C;
}
Bits Session::saneUnwrap(const Bits &C, const Bits &A, Bytes &tag)
{
    Bits P;
    if (C.n) P = xorBits(f.expand(C.n, false, true), C);
    if (A.n || !C.n) add(A, {0});
    if (C.n) add(C, {1});
    e ^= 1;
    tag = f.expand(128, false, false).b;
    return P;
}
Bits Session::sanseWrap(const Bits &P, const Bits &A, Bytes &tag)
{
    if (A.n || !P.n) add(A, {0});
    Bits C;
    if (P.n) {
        Farfalle start = f;
        add(P, {0, 1});
        Farfalle next = f;
        tag = f.expand(256, false, false).b;
        f = start;
        add(Bits(tag), {1, 1});
        C = xorBits(f.expand(P.n, false, true), P);
        f = next;
    }
    else
        tag = f.expand(256, false, false).b;
    e ^= 1;
    return C;
}
Bits Session::sanseUnwrap(const Bits &C, const Bits &A, const Bytes &tagIn, Bytes &tag)
{
    if (A.n || !C.n) add(A, {0});
    Bits P;
    if (C.n) {
        Farfalle start = f;
        add(Bits(tagIn), {1, 1});
        P = xorBits(f.expand(C.n, false, true), C);
        f = start;
        add(P, {0, 1});
    }
    tag = f.expand(256, false, false).b;
    e ^= 1;
    return P;
}

u64 wbcSplit(int which, u64 n)
{
    const u64 b = which ? 384 : 1600, l = 8;
    if (n <= 2 * b - (l + 2)) return l * ((n + l) / (2 * l));
    u64 q = (n + l + 2 + b - 1) / b, x = 0;   // ceil((n + l + 2) / b)
    while ((1ull << (x + 1)) < q) x++;
    return (q - (1ull << x)) * b - l;
}
static Bits withBit(Bits m, int bit) { m.push(bit); return m; }
static void xorInto(Bits &t, const Bits &v) { for (size_t i = 0; i < v.b.size(); i++) t.b[i] ^= v.b[i]; }
// H_k(m) for `bits` bits and F_k(m . W) for `bits` bits
static Bits H(int which, const Bits &K, const Bits &m, u64 bits)
{
    Farfalle f(which);
    f.key(K);
    return f.one(m, true, bits, true);
}
static Bits F(int which, const Bits &K, const Bits &W, const Bits &m, u64 bits)
{
    Farfalle f(which);
    f.key(K);
    f.compress(W, true, true);
    return f.one(m, false, bits, false);
}
Bits wbcEncipher(int which, const Bits &K, const Bits &P, const Bits &W)
{
    const u64 b = which ? 384 : 1600;
    u64 nL = wbcSplit(which, P.n), nR = P.n - nL;
    Bits L = P.sub(0, nL), R = P.sub(nL, nR);
    xorInto(R, H(which, K, withBit(L, 0), std::min(b, nR)));
    xorInto(L, F(which, K, W, withBit(R, 1), nL));
    xorInto(R, F(which, K, W, withBit(L, 0), nR));
    xorInto(L, H(which, K, withBit(R, 1), std::min(b, nL)));
    L.append(R);
    return L;
}
Bits wbcDecipher(int which, const Bits &K, const Bits &C, const Bits &W)
{
    const u64 b = which ? 384 : 1600;
    u64 nL = wbcSplit(which, C.n), nR = C.n - nL;
    Bits L = C.sub(0, nL), R = C.sub(nL, nR);
    xorInto(L, H(which, K, withBit(R, 1), std::min(b, nL)));
    xorInto(R, F(which, K, W, withBit(L, 0), nR));
    xorInto(L, F(which, K, W, withBit(R, 1), nL));
    xorInto(R, H(which, K, withBit(L, 0), std::min(b, nR)));
    L.append(R);
    return L;
}

void Xoodyak::down(const Bytes &x, u8 c)
{
    up = false;
    for (size_t i = 0; i < x.size(); i++) s[i] ^= x[i];
    s[x.size()] ^= 1;
    s[47] ^= keyed ? c : (c & 1);
}
Bytes Xoodyak::upf(size_t n, u8 c)
{
    up = true;
    if (keyed) s[47] ^= c;
    xoodoo(s, 12);
    return Bytes(s, s + n);
}
void Xoodyak::absorbAny(const Bytes &x, unsigned r, u8 c)
{
    size_t i = 0;
    do {
        size_t n = std::min<size_t>(r, x.size() - i);
        if (!up) upf(0, 0);
        down(Bytes(x.begin() + i, x.begin() + i + n), c);
        c = 0;
        i += n;
    } while (i < x.size());
}
Bytes Xoodyak::squeezeAny(size_t n, u8 c)
{
    Bytes r = upf(std::min<size_t>(n, rs), c);
    while (r.size() < n) {
        down({}, 0);
        r = r + upf(std::min<size_t>(n - r.size(), rs), 0);
    }
    return r;
}
void Xoodyak::init(const Bytes &K, const Bytes &id, const Bytes &counter)
{
    memset(s, 0, 48);
    up = true;
    keyed = false;
    ra = rs = 16;
    if (K.empty()) return;
    keyed = true;
    ra = 44;
    rs = 24;
    absorbAny(K + id + Bytes{u8(id.size())}, ra, 2);
    if (!counter.empty()) absorbAny(counter, 1, 0);
}
Bytes Xoodyak::crypt(const Bytes &in, bool decrypt)
{
    Bytes out;
    u8 c = 0x80;
    size_t i = 0;
    do {
        size_t n = std::min<size_t>(24, in.size() - i);
        Bytes k = upf(n, c), o(n), p(n);
        for (size_t j = 0; j < n; j++) { o[j] = in[i + j] ^ k[j]; p[j] = decrypt ? o[j] : in[i + j]; }
        down(p, 0);
        out = out + o;
        c = 0;
        i += n;
    } while (i < in.size());
    return out;
}
}

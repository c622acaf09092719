// Reference models, written from the specifications (FIPS 202, SP 800-185, RFC 9861, the Keccak, Farfalle, Xoodoo and
// Xoodyak papers), one byte or one block at a time, with no regard for speed.  They share no code with XKCP.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using Bytes = std::vector<u8>;

inline Bytes operator+(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes bytesOf(const char *s) { return Bytes(s, s + strlen(s)); }

namespace ref {

void keccakP(u8 *state200, unsigned rounds);
void xoodoo(u8 *state48, unsigned rounds);

struct Bits {                 // a bit string, least significant bit of each byte first
    Bytes b;
    u64 n = 0;
    Bits() {}
    Bits(Bytes x) : b(std::move(x)), n(b.size() * 8) {}
    Bits(Bytes x, u64 bits) : b(std::move(x)), n(bits) { b.resize((n + 7) / 8); if (n & 7) b.back() &= (1u << (n & 7)) - 1; }
    void push(bool bit) { if ((n & 7) == 0) b.push_back(0); if (bit) b.back() |= 1u << (n & 7); n++; }
    void append(const Bits &o);
    bool get(u64 i) const { return b[i / 8] >> (i & 7) & 1; }
    Bits sub(u64 from, u64 len) const;
};
Bits xorBits(const Bits &a, const Bits &b);   // shorter of the two defines the length

// the sponge over Keccak-p[1600, rounds], byte-aligned rate
struct Sponge {
    u8 s[200];
    unsigned rate = 0, pos = 0, rounds = 24;
    bool squeezing = false;
    void init(unsigned rateBits, unsigned nr) { memset(s, 0, 200); rate = rateBits / 8; pos = 0; rounds = nr; squeezing = false; }
    void absorb(const u8 *p, size_t n);
    void absorb(const Bytes &b) { absorb(b.data(), b.size()); }
    void finish(u8 delimited);
    Bytes squeeze(size_t n);
};
Bytes sponge(unsigned rateBits, unsigned nr, const Bytes &m, u8 delimited, size_t out);

// SP 800-185; strings are bit strings
Bits leftEncode(u64 v);
Bits rightEncode(u64 v);
Bits encodeString(const Bits &s);
Bits bytepad(const Bits &x, unsigned w);
// returns the sponge ready to squeeze
Sponge cshake(int level, const Bits &x, const Bits &N, const Bits &S);
Sponge kmac(int level, const Bits &k, const Bits &x, u64 outBits /*0 for XOF*/, const Bits &S);
Sponge tuplehash(int level, const std::vector<Bytes> &x, u64 outBits, const Bits &S);
Sponge parallelhash(int level, const Bytes &x, size_t B, u64 outBits, const Bits &S);
Bits squeezeBits(Sponge &s, u64 bits);

Sponge kangarootwelve(int level, const Bytes &m, const Bytes &c);

// duplex construction over Keccak-f[1600], any rate
struct Duplex {
    u8 s[200];
    unsigned rate = 0, in = 0, out = 0;
    void init(unsigned r);
    bool canDuplex(size_t len, unsigned zlen, u8 delim) const;
    Bytes duplexing(const Bytes &sigma, unsigned zlen, u8 delim);
    bool canFeed(size_t len) const { return (in + len) * 8 + 2 <= rate; }
    void feed(const Bytes &x) { for (u8 v : x) s[in++] ^= v; }
    void overwrite(const Bytes &x) { for (u8 v : x) s[in++] = v; }
    bool canOutput(size_t len) const { return out + len <= (rate + 7) / 8; }
    Bytes output(size_t len);
};

struct Prg {
    Duplex d;
    unsigned rho = 0;
    void init(unsigned capacity) { d.init(1600 - capacity); rho = (1600 - capacity - 2) / 8; }
    void feed(const Bytes &x);
    Bytes fetch(size_t n);
    bool canForget() const { return rho * 8 >= 1600 - d.rate; }
    void forget();
};

// Farfalle: which = 0 Kravatte, 1 Xoofff
struct Farfalle {
    int which = 0;
    Bytes k, roll, x, y;
    Bits cur;                // the string being compressed
    bool expanding = false;
    u64 outPos = 0;          // bytes of output already given
    Bytes block;             // current output block
    explicit Farfalle(int w = 0) : which(w) {}
    size_t width() const { return which ? 48 : 200; }
    void key(const Bits &K);
    void compress(const Bits &m, bool init, bool last);
    Bits expand(u64 bits, bool isShort, bool last);
    Bits one(const Bits &m, bool init, u64 bits, bool isShort) { compress(m, init, true); return expand(bits, isShort, true); }
private:
    void perm(Bytes &b) const { which ? xoodoo(b.data(), 6) : keccakP(b.data(), 6); }
    void rollC();
    void rollE();
    void block1(const Bytes &m);
};

struct Session {             // SANE (tag 16) and SANSE (tag 32)
    Farfalle f;
    unsigned e = 0;
    explicit Session(int w = 0) : f(w) {}
    Bytes saneInit(const Bits &K, const Bits &N);
    void sanseInit(const Bits &K) { e = 0; f.key(K); }
    Bits saneWrap(const Bits &P, const Bits &A, Bytes &tag);
    // unwrap returns the plaintext; tag is what the tag should be
    Bits saneUnwrap(const Bits &C, const Bits &A, Bytes &tag);
    Bits sanseWrap(const Bits &P, const Bits &A, Bytes &tag);
    Bits sanseUnwrap(const Bits &C, const Bits &A, const Bytes &tagIn, Bytes &tag);
private:
    void add(const Bits &d, std::initializer_list<int> appendix);
};

u64 wbcSplit(int which, u64 n);
Bits wbcEncipher(int which, const Bits &K, const Bits &P, const Bits &W);
Bits wbcDecipher(int which, const Bits &K, const Bits &C, const Bits &W);

struct Xoodyak {
    u8 s[48];
    bool up = true, keyed = false;
    unsigned ra = 16, rs = 16;
    void init(const Bytes &K, const Bytes &id, const Bytes &counter);
    void absorb(const Bytes &x) { absorbAny(x, ra, 3); }
    Bytes crypt(const Bytes &in, bool decrypt);
    Bytes squeeze(size_t n) { return squeezeAny(n, 0x40); }
    Bytes squeezeKey(size_t n) { return squeezeAny(n, 0x20); }
    void ratchet() { absorbAny(squeezeAny(16, 0x10), ra, 0); }
private:
    void down(const Bytes &x, u8 c);
    Bytes upf(size_t n, u8 c);
    void absorbAny(const Bytes &x, unsigned r, u8 c);
    Bytes squeezeAny(size_t n, u8 c);
};
}

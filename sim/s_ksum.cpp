// The file hashing tool on a simulated operating system: files, standard input, standard output, and their failures.
// KeccakSum's main() is real; its stdio calls are renamed to the simio_* functions below, which behave as the C library
// does on top of a kernel whose reads are short, interrupted or failing, and whose output may run out of space.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
const int EOF_ = -1, MAX_OPEN = 20;
const size_t MAX_OPENED = 4000;
enum { OPEN_OK, OPEN_MISSING, OPEN_DENIED, OPEN_DIRECTORY };
enum { ERR_PERSISTENT, ERR_TRANSIENT, ERR_INTERRUPTED };

struct FileSpec { size_t len = 0; u64 seed = 0; int open = OPEN_OK; i64 errAt = -1; int errKind = 0; size_t chunk = 0; };
struct Stream {
    bool isOpen = false, isOut = false, isErrOut = false, eof = false, err = false, failed = false, spent = false;
    int file = -1;
    size_t pos = 0;
    std::vector<int> unread;
    Bytes delivered;              // what the program was given
    bool sawEnd = false;          // it was told that this is all
};
// one execution of the tool
struct Io {
    Task *t = nullptr;
    std::vector<FileSpec> files;  // 0 is standard input
    i64 outLimit = -1;            // bytes of standard output before the device is full
    bool lineBuffered = false;
    std::vector<Stream> streams;  // 0..2 the standard ones; never reallocated
    std::string out, pending, errText;      // written, buffered, diagnostics
    size_t written = 0;
    bool outFailed = false;       // some output was lost
    int opened = 0;
    jmp_buf exitJb;
    int exitCode = 0;
    std::vector<int> order;       // streams in the order in which they were first used for input
};
std::map<const Task *, Io *> running;
const char *const names[] = {"-", "f1", "data.bin", "dir/f3", "-x", "--", "with space", "--base63"};
const int NAMES = 7;

Io &io();
Stream *stream(void *fp) { auto k = reinterpret_cast<uintptr_t>(fp); return k >= 0x1000 && k < 0x1000 + io().streams.size() ? &io().streams[k - 0x1000] : nullptr; }
void *handle(int k) { return reinterpret_cast<void *>(uintptr_t(0x1000 + k)); }

// the kernel: at most n bytes; -1 with errno on failure, 0 at the end
i64 kread(Stream &s, u8 *p, size_t n)
{
    Io &o = io();
    FileSpec &f = o.files[size_t(s.file)];
    if (f.open == OPEN_DIRECTORY) { o.t->fault(F_IO_ERROR); s.failed = true; errno = EISDIR; return -1; }
    if (f.errAt >= 0 && s.pos >= size_t(f.errAt) && !(s.spent && f.errKind != ERR_PERSISTENT)) {
        o.t->fault(f.errKind == ERR_INTERRUPTED ? F_IO_EINTR : F_IO_ERROR);
        s.spent = s.failed = true;
        errno = f.errKind == ERR_INTERRUPTED ? EINTR : EIO;
        return -1;
    }
    size_t m = std::min(n, f.len - std::min(f.len, s.pos));
    if (f.chunk && m > f.chunk) { m = f.chunk; o.t->fault(F_IO_SHORT); }
    if (f.errAt >= 0 && !(s.spent && f.errKind != ERR_PERSISTENT) && s.pos + m > size_t(f.errAt)) m = size_t(f.errAt) - s.pos;
    if (m) {
        static thread_local std::map<std::pair<u64, size_t>, Bytes> contents;
        if (contents.size() > 64) contents.clear();
        Bytes &c = contents[{f.seed, f.len}];
        if (c.size() != f.len) c = dataOf(f.seed, f.len);
        memcpy(p, c.data() + s.pos, m);
        s.pos += m;
    }
    return i64(m);
}
bool kwrite(Stream &s, const char *p, size_t n)
{
    Io &o = io();
    if (s.isErrOut) { o.errText.append(p, n); return true; }
    size_t room = o.outLimit < 0 ? n : size_t(o.outLimit) > o.written ? size_t(o.outLimit) - o.written : 0;
    size_t m = std::min(n, room);
    o.out.append(p, m);
    o.written += m;
    if (m == n) return true;
    o.t->fault(F_IO_WRITE);
    o.outFailed = true;
    s.err = true;
    errno = ENOSPC;
    return false;
}
bool flushOut(Stream &s)
{
    Io &o = io();
    if (!s.isOut || s.isErrOut) return true;
    std::string p;
    p.swap(o.pending);
    return p.empty() || kwrite(s, p.data(), p.size());
}
// stdio
size_t sread(Stream &s, u8 *p, size_t n)
{
    Io &o = io();
    if (!s.isOpen || s.isOut) { s.err = true; errno = EBADF; return 0; }
    if (std::find(o.order.begin(), o.order.end(), int(&s - o.streams.data())) == o.order.end()) o.order.push_back(int(&s - o.streams.data()));
    size_t done = 0;
    while (done < n && !s.unread.empty()) { p[done++] = u8(s.unread.back()); s.unread.pop_back(); }
    while (done < n) {
        if (s.eof) break;
        i64 r = kread(s, p + done, n - done);
        if (r < 0) { s.err = true; break; }
        if (r == 0) { s.eof = s.sawEnd = true; break; }
        s.delivered.insert(s.delivered.end(), p + done, p + done + r);
        done += size_t(r);
    }
    return done;
}
bool swrite(Stream &s, const char *p, size_t n)
{
    Io &o = io();
    if (!s.isOut || !s.isOpen) { errno = EBADF; return false; }
    if (s.isErrOut) return kwrite(s, p, n);
    o.pending.append(p, n);
    if (o.pending.size() > 4096 || (o.lineBuffered && o.pending.find('\n') != std::string::npos)) return flushOut(s);
    return true;
}
int opened(const char *name)
{
    Io &o = io();
    int file = -1;
    for (int k = 1; k < NAMES; k++) if (!strcmp(name, names[k])) file = k;
    if (file < 0 || o.files[size_t(file)].open == OPEN_MISSING) { o.t->fault(F_IO_OPEN); errno = ENOENT; return -1; }
    if (o.files[size_t(file)].open == OPEN_DENIED) { o.t->fault(F_IO_OPEN); errno = EACCES; return -1; }
    // the system lets a program open any number of files, but only so many at a time
    if (o.streams.size() >= MAX_OPENED || std::count_if(o.streams.begin(), o.streams.end(), [](const Stream &q) { return q.isOpen; }) >= MAX_OPEN) { errno = EMFILE; return -1; }
    o.streams.emplace_back();
    o.streams.back().isOpen = true;
    o.streams.back().file = file;
    return int(o.streams.size()) - 1;
}
}

extern "C" {
void *simio_stdin = reinterpret_cast<void *>(uintptr_t(0x1000)), *simio_stdout = reinterpret_cast<void *>(uintptr_t(0x1001)), *simio_stderr = reinterpret_cast<void *>(uintptr_t(0x1002));
void *simio_fopen(const char *n, const char *) { int k = opened(n); return k < 0 ? nullptr : handle(k); }
void *simio_freopen(const char *n, const char *, void *fp) { if (!n) return fp; int k = opened(n); return k < 0 ? nullptr : handle(k); }
int simio_fclose(void *fp) { Stream *s = stream(fp); if (!s || !s->isOpen) { errno = EBADF; return EOF_; } bool ok = flushOut(*s); s->isOpen = false; return ok ? 0 : EOF_; }
size_t simio_fread(void *p, size_t a, size_t b, void *fp) { Stream *s = stream(fp); return !s || !a || !b ? 0 : sread(*s, static_cast<u8 *>(p), a * b) / a; }
int simio_fgetc(void *fp) { Stream *s = stream(fp); u8 c; return s && sread(*s, &c, 1) == 1 ? c : EOF_; }
int simio_getchar() { return simio_fgetc(simio_stdin); }
int simio_ungetc(int c, void *fp) { Stream *s = stream(fp); if (!s || c == EOF_) return EOF_; s->unread.push_back(c & 255); s->eof = false; return c; }
char *simio_fgets(char *p, int n, void *fp)
{
    int k = 0;
    while (k + 1 < n) { int c = simio_fgetc(fp); if (c == EOF_) break; p[k++] = char(c); if (c == '\n') break; }
    if (!k) return nullptr;
    p[k] = 0;
    return p;
}
int simio_feof(void *fp) { Stream *s = stream(fp); return s && s->eof; }
int simio_ferror(void *fp) { Stream *s = stream(fp); return s && s->err; }
void simio_clearerr(void *fp) { Stream *s = stream(fp); if (s) s->eof = s->err = false; }
int simio_fseek(void *fp, long off, int whence)
{
    Stream *s = stream(fp);
    if (!s || s->file <= 0) { errno = ESPIPE; return -1; }
    size_t len = io().files[size_t(s->file)].len;
    s->pos = size_t(off) + (whence == 1 ? s->pos : whence == 2 ? len : 0);
    s->eof = false;
    s->unread.clear();
    s->delivered = dataOf(io().files[size_t(s->file)].seed, len);
    s->delivered.resize(std::min(len, s->pos));
    return 0;
}
long simio_ftell(void *fp) { Stream *s = stream(fp); if (!s || s->file <= 0) { errno = ESPIPE; return -1; } return long(s->pos); }
void simio_rewind(void *fp) { simio_fseek(fp, 0, 0); simio_clearerr(fp); }
int simio_setvbuf(void *, char *, int, size_t) { return 0; }
void simio_setbuf(void *, char *) {}
int simio_fileno(void *fp) { return int(reinterpret_cast<uintptr_t>(fp) - 0x1000); }
size_t simio_fwrite(const void *p, size_t a, size_t b, void *fp) { Stream *s = stream(fp); return s && swrite(*s, static_cast<const char *>(p), a * b) ? b : 0; }
int simio_fputs(const char *p, void *fp) { Stream *s = stream(fp); return s && swrite(*s, p, strlen(p)) ? 1 : EOF_; }
int simio_fputc(int c, void *fp) { Stream *s = stream(fp); char b = char(c); return s && swrite(*s, &b, 1) ? c & 255 : EOF_; }
int simio_putchar(int c) { return simio_fputc(c, simio_stdout); }
int simio_puts(const char *p) { return simio_fputs((std::string(p) + "\n").c_str(), simio_stdout); }
int simio_vfprintf(void *fp, const char *f, va_list a)
{
    va_list b;
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, f, b);
    va_end(b);
    if (n < 0) return n;
    std::string s(size_t(n) + 1, 0);
    vsnprintf(s.data(), s.size(), f, a);
    Stream *q = stream(fp);
    return q && swrite(*q, s.data(), size_t(n)) ? n : -1;
}
int simio_vprintf(const char *f, va_list a) { return simio_vfprintf(simio_stdout, f, a); }
int simio_printf(const char *f, ...) { va_list a; va_start(a, f); int r = simio_vfprintf(simio_stdout, f, a); va_end(a); return r; }
int simio_fprintf(void *fp, const char *f, ...) { va_list a; va_start(a, f); int r = simio_vfprintf(fp, f, a); va_end(a); return r; }
int simio_fflush(void *fp) { Stream *s = stream(fp ? fp : simio_stdout); return s && flushOut(*s) ? 0 : EOF_; }
void simio_perror(const char *) {}
[[noreturn]] void simio_exit(int c) { io().exitCode = c; longjmp(io().exitJb, 1); }
[[noreturn]] void simio_abort() { io().exitCode = 134; longjmp(io().exitJb, 1); }
int simio_open(const char *n, int, ...) { int k = opened(n); return k; }
int simio_close(int k) { return simio_fclose(handle(k)); }
long simio_read(int k, void *p, size_t n)
{
    Stream *s = stream(handle(k));
    if (!s) { errno = EBADF; return -1; }
    if (std::find(io().order.begin(), io().order.end(), k) == io().order.end()) io().order.push_back(k);
    i64 r = kread(*s, static_cast<u8 *>(p), n);
    if (r > 0) s->delivered.insert(s->delivered.end(), static_cast<u8 *>(p), static_cast<u8 *>(p) + r);
    if (r == 0 && n) s->sawEnd = true;
    return r;
}
long simio_write(int k, const void *p, size_t n) { Stream *s = stream(handle(k)); return s && kwrite(*s, static_cast<const char *>(p), n) ? long(n) : -1; }
// other names of the same functions
__asm__(
    ".globl simio_alias_fopen64\n.set simio_alias_fopen64, simio_fopen\n"
    ".globl simio_alias_fread_unlocked\n.set simio_alias_fread_unlocked, simio_fread\n"
    ".globl simio_alias_getc\n.set simio_alias_getc, simio_fgetc\n"
    ".globl simio_alias__IO_getc\n.set simio_alias__IO_getc, simio_fgetc\n"
    ".globl simio_alias_fseeko\n.set simio_alias_fseeko, simio_fseek\n"
    ".globl simio_alias_ftello\n.set simio_alias_ftello, simio_ftell\n"
    ".globl simio_alias_putc\n.set simio_alias_putc, simio_fputc\n"
    ".globl simio_alias__IO_putc\n.set simio_alias__IO_putc, simio_fputc\n"
    ".globl simio_alias__exit\n.set simio_alias__exit, simio_exit\n"
    ".globl simio_alias__Exit\n.set simio_alias__Exit, simio_exit\n"
    ".globl simio_alias_open64\n.set simio_alias_open64, simio_open\n"
);

}

namespace {
Io &io() { return *running.at(currentTask()); }

std::string encode(const Bytes &d, bool b64)
{
    static const char *h = "0123456789abcdef", *e = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    if (!b64) { for (u8 v : d) { r += h[v >> 4]; r += h[v & 15]; } return r; }
    for (size_t i = 0; i < d.size(); i += 3) {
        u32 v = u32(d[i]) << 16 | (i + 1 < d.size() ? u32(d[i + 1]) << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0);
        r += e[v >> 18];
        r += e[v >> 12 & 63];
        r += i + 1 < d.size() ? e[v >> 6 & 63] : '=';
        r += i + 2 < d.size() ? e[v & 63] : '=';
    }
    return r;
}
struct Spec {
    enum { KECCAK, K12, PH } algorithm = KECCAK;
    unsigned rate = 1344, capacity = 256, bits = 264, B = 8192;
    u8 suffix = 0x1F;
    bool b64 = true;
    bool refused() const { return bits > 524288 || (algorithm == PH && (B < 8 || (B & (B - 1)))); }
    std::string digest(const Bytes &m) const
    {
        Bytes d;
        if (algorithm == KECCAK) d = ref::sponge(rate, 24, m, suffix, bits / 8);
        else if (algorithm == K12) { auto s = ref::kangarootwelve(128, m, {}); d = s.squeeze(bits / 8); }
        else { auto s = ref::parallelhash(capacity == 256 ? 128 : 256, m, B, bits, ref::Bits()); d = s.squeeze(bits / 8); }
        return encode(d, b64);
    }
};
enum Arg { A_BASE64, A_HEX, A_BITS, A_BITS2, A_SHAKE128, A_SHAKE256, A_SHA224, A_SHA256, A_SHA384, A_SHA512, A_NOSUFFIX, A_ETHEREUM, A_K12, A_KT, A_PH128, A_PH256, A_B, A_STRING, A_FILE,
           A_HELP, A_UNKNOWN, A_MISSING_BITS, A_MISSING_B, A_MISSING_STRING, A_BAD_BITS, A_BAD_B, A_COUNT };

struct KsumS : SessionOf<KsumS> {
    std::vector<FileSpec> files{size_t(NAMES)};
    i64 outLimit = -1;
    bool lineBuffered = false;
    std::vector<std::string> args;
    std::vector<Op> plan;
    explicit KsumS(Task *t) : SessionOf(t) {}

    void op(const Op &o) override
    {
        if (o.c == "file") {      // which, length, content, how it opens, where reading fails, how, size of short reads
            FileSpec &f = files[size_t(clampI(o[0], 0, NAMES - 1))];
            f.len = size_t(clampI(o[1], 0, 1 << 20));
            f.seed = u64(o[2]);
            f.open = int(clampI(o[3], 0, 3));
            f.errAt = o[4];
            f.errKind = int(clampI(o[5], 0, 2));
            f.chunk = size_t(clampI(o[6], 0, 1 << 20));
            if (f.chunk && f.len / f.chunk > 3000) f.chunk = f.len / 3000;
            if (&f == &files[0] && (f.open == OPEN_MISSING || f.open == OPEN_DENIED)) f.open = OPEN_OK;
        }
        else if (o.c == "out") { outLimit = o[0]; lineBuffered = o[1] & 1; }
        else if (o.c == "arg") plan.push_back(o);
        else if (o.c == "run") { run(); plan.clear(); }
    }
    static std::string stringOf(i64 k)
    {
        Bytes d = dataOf(u64(k) + 2, size_t(k % 97));
        std::string s;
        for (u8 v : d) s += char(v < 2 ? 'a' : v == '\n' ? '.' : v);
        return s;
    }
    void run()
    {
        const Api *A = apiByName("generic64");
        if (!A || !A->KeccakSum_main) t->fail("setup", "the tool was not built");
        args = {"KeccakSum"};
        for (auto &o : plan) {
            i64 v = o[1];
            switch (clampI(o[0], 0, A_COUNT - 1)) {
                case A_BASE64: args.push_back("--base64"); break;
                case A_HEX: args.push_back("--hex"); break;
                case A_BITS: case A_BITS2: args.push_back(o[0] == A_BITS ? "--outputbits" : "-n"); args.push_back(std::to_string(clampI(v, 1, 100000) * 8)); break;
                case A_SHAKE128: args.push_back("--shake128"); break;
                case A_SHAKE256: args.push_back("--shake256"); break;
                case A_SHA224: args.push_back("--sha3-224"); break;
                case A_SHA256: args.push_back("--sha3-256"); break;
                case A_SHA384: args.push_back("--sha3-384"); break;
                case A_SHA512: args.push_back("--sha3-512"); break;
                case A_NOSUFFIX: args.push_back("--no-suffix"); break;
                case A_ETHEREUM: args.push_back("--ethereum"); break;
                case A_K12: args.push_back("--k12"); break;
                case A_KT: args.push_back("--kangarootwelve"); break;
                case A_PH128: args.push_back("--ph128"); break;
                case A_PH256: args.push_back("--ph256"); break;
                case A_B: args.push_back("-B"); args.push_back(std::to_string(clampI(v, 1, 1 << 20))); break;
                case A_STRING: args.push_back("--string"); args.push_back(stringOf(clampI(v, 0, 1 << 20))); break;
                case A_FILE: args.push_back(names[clampI(v, 0, NAMES - 1)]); break;
                case A_HELP: args.push_back(v & 1 ? "-h" : "--help"); break;
                case A_UNKNOWN: args.push_back(v & 1 ? "--sha3-255" : "--base63"); break;
                case A_MISSING_BITS: args.push_back("--outputbits"); break;
                case A_MISSING_B: args.push_back("-B"); break;
                case A_MISSING_STRING: args.push_back("--string"); break;
                case A_BAD_BITS: args.push_back("--outputbits"); args.push_back(v % 3 == 0 ? "0" : v % 3 == 1 ? "-8" : "13"); break;
                case A_BAD_B: args.push_back("-B"); args.push_back(v & 1 ? "0" : "-4"); break;
            }
        }
        std::vector<char *> argv;
        for (auto &s : args) argv.push_back(s.data());
        argv.push_back(nullptr);
        auto state = std::make_unique<Io>();
        Io &s = *state;
        s.t = t;
        s.streams.reserve(MAX_OPENED);
        s.streams.resize(3);
        s.files = files;
        s.outLimit = outLimit;
        s.lineBuffered = lineBuffered;
        s.streams[0].isOpen = true;
        s.streams[0].file = 0;
        for (int k = 1; k < 3; k++) s.streams[k].isOpen = s.streams[k].isOut = true;
        s.streams[2].isErrOut = true;
        struct Registered { Task *t; Registered(Task *t_, Io *i) : t(t_) { running[t] = i; } ~Registered() { running.erase(t); } } reg(t, &s);
        int rc = 0;
        t->call("KeccakSum", [&] {
            if (setjmp(s.exitJb) == 0) rc = A->KeccakSum_main(int(args.size()), argv.data());
            else rc = s.exitCode;
            s.streams[1].isOpen ? void(flushOut(s.streams[1])) : void();
        });
        rc &= 255;
        t->record("exit status", Bytes{u8(rc != 0)});
        t->record("standard output", bytesOf(s.out.c_str()));
        u64 h = 0;
        for (auto &o : plan) h = mix(h * 31 + u64(o[0]) + 1);
        t->state(h, s.outFailed * 2 + (rc != 0));
        check(s, rc);
    }
    // what must have been printed, item by item
    void check(Io &s, int rc)
    {
        Spec sp;
        std::string want;
        bool mustFail = false, anyFile = false, stop = false, help = false;
        bool stdinEnd = false;
        Bytes stdinData;
        size_t next = 0;          // in s.order, after standard input is taken out
        std::vector<int> used;
        for (int k : s.order) if (k != 0) used.push_back(k);
        struct Maybe { size_t at, len; };
        auto keccak = [&](unsigned r, unsigned n, u8 suffix, bool b64) { sp.algorithm = Spec::KECCAK; sp.rate = r; sp.capacity = 1600 - r; sp.bits = n; sp.suffix = suffix; sp.b64 = b64; };
        bool transient = false;   // an input error the tool may or may not have recovered from
        std::string wantUnrecovered;
        auto file = [&](int f) {
            std::string name = names[f];
            if (sp.refused()) { mustFail = stop = true; return; }
            FileSpec &q = s.files[size_t(f)];
            if (f == 0) {
                if (!stdinEnd) {
                    if (failing(q, transient)) { mustFail = stop = true; return; }
                    if (transient) wantUnrecovered = want;
                    stdinData = dataOf(q.seed, q.len);
                    want += sp.digest(stdinData) + "  " + name + "\n";
                    stdinEnd = true;
                }
                else want += sp.digest({}) + "  " + name + "\n";      // at its end already
                return;
            }
            if (q.open != OPEN_OK || failing(q, transient)) { mustFail = stop = true; return; }
            if (transient) wantUnrecovered = want;
            want += sp.digest(dataOf(q.seed, q.len)) + "  " + name + "\n";
            next++;
        };
        for (size_t k = 0; k < plan.size() && !stop; k++) {
            i64 v = plan[k][1];
            bool last = k + 1 == plan.size();
            switch (clampI(plan[k][0], 0, A_COUNT - 1)) {
                case A_BASE64: sp.b64 = true; break;
                case A_HEX: sp.b64 = false; break;
                case A_BITS: case A_BITS2: sp.bits = unsigned(clampI(v, 1, 100000) * 8); break;
                case A_SHAKE128: keccak(1344, 264, 0x1F, true); break;
                case A_SHAKE256: keccak(1088, 528, 0x1F, true); break;
                case A_SHA224: keccak(1152, 224, 0x06, false); break;
                case A_SHA256: keccak(1088, 256, 0x06, false); break;
                case A_SHA384: keccak(832, 384, 0x06, false); break;
                case A_SHA512: keccak(576, 512, 0x06, false); break;
                case A_NOSUFFIX: sp.suffix = 0x01; break;
                case A_ETHEREUM: keccak(1088, 256, 0x01, false); break;
                case A_K12: case A_KT: sp.algorithm = Spec::K12; sp.bits = 264; sp.b64 = true; break;
                case A_PH128: sp.algorithm = Spec::PH; sp.capacity = 256; sp.bits = 264; sp.B = 8192; sp.b64 = true; break;
                case A_PH256: sp.algorithm = Spec::PH; sp.capacity = 512; sp.bits = 528; sp.B = 8192; sp.b64 = true; break;
                case A_B: sp.B = unsigned(clampI(v, 1, 1 << 20)); break;
                case A_STRING: {
                    if (sp.refused()) { mustFail = stop = true; break; }
                    std::string x = stringOf(clampI(v, 0, 1 << 20));
                    want += sp.digest(Bytes(x.begin(), x.end())) + "  \"" + x + "\"\n";
                    break;
                }
                case A_FILE: anyFile = true; file(int(clampI(v, 0, NAMES - 1))); break;
                case A_HELP: help = stop = true; break;
                case A_MISSING_BITS: case A_MISSING_B: if (!last) return; mustFail = stop = true; break;       // the next argument would be taken
                case A_MISSING_STRING: if (!last) return; mustFail = stop = true; break;
                default: mustFail = stop = true;
            }
            if (transient) break;
        }
        if (!stop && !transient && !anyFile) file(0);
        if (!t->model()) return;
        auto show = [](const std::string &x) { return x.size() > 300 ? x.substr(0, 300) + "..." : x; };
        bool failed = rc != 0;
        if (s.outFailed) {
            if (!failed) t->fail("unreported", "standard output could not be written, but the exit status is 0");
            std::string sure = transient ? wantUnrecovered : want;
            size_t n = std::min(s.out.size(), sure.size());
            if (s.out.compare(0, n, sure, 0, n)) t->fail("model-mismatch", "printed [" + show(s.out) + "], expected a beginning of [" + show(want) + "]");
            return;
        }
        bool complete = s.out.compare(0, want.size(), want) == 0;
        if (transient) {
            // an interrupted or transient error: either the item is refused, or its digest is right
            if (!complete && !(failed && s.out.compare(0, wantUnrecovered.size(), wantUnrecovered) == 0 && !looksLikeDigest(s.out.substr(wantUnrecovered.size()))))
                t->fail("model-mismatch", "after a read error that went away: printed [" + show(s.out) + "] with exit status " + std::to_string(rc) + ", expected [" + show(want) + "] or a failure");
            return;
        }
        if (!complete) t->fail("model-mismatch", "printed [" + show(s.out) + "] with exit status " + std::to_string(rc) + ", expected [" + show(want) + "]");
        std::string rest = s.out.substr(want.size());
        if (help) { if (failed) t->fail("status", "exit status " + std::to_string(rc) + " after the help"); return; }
        if (mustFail) {
            if (!failed) t->fail("unreported", "exit status 0 although an item could not be processed; printed [" + show(s.out) + "]");
            if (looksLikeDigest(rest)) t->fail("unread-digest", "printed a digest for an item that could not be read: [" + show(rest) + "]");
            return;
        }
        if (failed) t->fail("status", "exit status " + std::to_string(rc) + " although everything could be read and written; printed [" + show(s.out) + "]");
        if (!rest.empty()) t->fail("model-mismatch", "printed [" + show(rest) + "] after the expected digests");
    }
    // can the file not be read to its end?
    static bool failing(const FileSpec &q, bool &transient)
    {
        if (q.open == OPEN_DIRECTORY) return true;
        if (q.errAt < 0 || size_t(q.errAt) > q.len) return false;
        if (q.errKind == ERR_PERSISTENT) return true;
        transient = true;
        return false;
    }
    static bool looksLikeDigest(const std::string &x)
    {
        size_t i = 0;
        while (i < x.size() && (isalnum(u8(x[i])) || x[i] == '+' || x[i] == '/' || x[i] == '=')) i++;
        return i >= 2 && i + 1 < x.size() && x[i] == ' ' && x[i + 1] == ' ';
    }
};
void genKsum(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int runs = int(r.range(1, 2)); runs > 0; runs--) {
        for (int k = 0; k < NAMES; k++) {
            if (k && r.chance(1, 3)) continue;
            i64 len = r.chance(1, 6) ? 0 : r.chance(1, 3) ? r.range(0, 400) : r.chance(1, 2) ? r.pick({65535, 65536, 65537, 131072, 131071, 8192, 8191, 8193, 4096, 135, 136, 137, 168, 167, 169, 196608})
                                                                            : r.range(0, g.big ? 300000 : 70000);
            i64 errAt = r.chance(1, 8) ? (r.chance(1, 3) ? len : r.chance(1, 3) ? r.pick({0, 65536, 65535, 1}) : r.range(0, len)) : -1;
            i64 chunk = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(1, 5000) : r.pick({1, 4096, 65535, 65536, 512, 100});
            p.ops.push_back(mk("file", {k, len, i64(r.dseed()), r.chance(1, 10) ? r.range(1, 3) : 0, errAt, r.range(0, 2), chunk}));
        }
        p.ops.push_back(mk("out", {r.chance(1, 8) ? r.range(0, 400) : -1, r.range(0, 1)}));
        int items = int(r.range(1, 2 + g.ops / 2));
        for (int k = 0; k < items; k++) {
            while (r.chance(1, 2)) {
                i64 a = r.chance(1, 2) ? r.range(A_SHAKE128, A_PH256) : r.range(A_BASE64, A_B);
                i64 v = a == A_B ? (r.chance(1, 2) ? (r.chance(1, 4) ? r.range(1, 300) : 1ll << r.range(0, 12)) : r.pick({8192, 1024, 65536, 4096, 1000})) : a == A_BITS || a == A_BITS2 ? (r.chance(1, 3) ? r.range(1, 600) : r.range(1, 80)) : 0;
                if (a == A_BITS && r.chance(1, 20)) v = r.chance(1, 2) ? r.range(65537, 70000) : r.range(2000, 60000);
                p.ops.push_back(mk("arg", {a, v}));
            }
            if (r.chance(3, 4)) p.ops.push_back(mk("arg", {A_FILE, r.range(0, NAMES - 1)}));
            else p.ops.push_back(mk("arg", {A_STRING, r.range(0, 2000)}));
        }
        if (r.chance(1, 10)) p.ops.push_back(mk("arg", {r.range(A_HELP, A_BAD_B), r.range(0, 5)}));
        p.ops.push_back(mk("run", {}));
    }
}
KIND("ksum", KsumS, genKsum)
}

// The stand-alone programs: FIPS 202 in compact C (three of them) and in Python (two), KeccakSum.py, KangarooTwelve in Rust.
// The C code runs inside the simulator like the library does; the Rust code too, but the simulator cannot stop it half-way;
// the Python code is asked through a pipe (alone.py) and its file system is simulated there.
#include "core.hpp"
#include <algorithm>
#include <csignal>
#include <dlfcn.h>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>

extern std::string buildDir;

namespace {
i64 clampI(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
struct Fips { const char *name; unsigned rate; u8 suffix; size_t out; };
const Fips fips[6] = {{"SHAKE128", 168, 0x1F, 0}, {"SHAKE256", 136, 0x1F, 0}, {"SHA3_224", 144, 6, 28}, {"SHA3_256", 136, 6, 32}, {"SHA3_384", 104, 6, 48}, {"SHA3_512", 72, 6, 64}};
const char *const impls[] = {"Keccak-readable-and-compact.c", "Keccak-more-compact.c", "TweetableFIPS202.c", "CompactFIPS202.py", "CompactFIPS202_numpy.py"};
enum { READABLE, COMPACT, TWEET, PYTHON, NUMPY, IMPLS };

// the functions of the C programs, which have different prototypes; the arguments are passed alike
using KeccakF = void (*)(unsigned, unsigned, const u8 *, unsigned long long, u8, u8 *, unsigned long long);
using XofF = void (*)(const u8 *, unsigned long long, u8 *, unsigned long long);
using HashF = void (*)(const u8 *, unsigned long long, u8 *);
using TweetXofF = int (*)(u8 *, unsigned long long, const u8 *, unsigned long long);
using TweetHashF = int (*)(u8 *, const u8 *, unsigned long long);
using RustF = void (*)(const u8 *, size_t, const u8 *, size_t, u8 *, size_t);

template <class F> F symbol(const std::string &n)
{
    const Api *a = apiByName("generic64");
    return a ? reinterpret_cast<F>(dlsym(a->handle, n.c_str())) : nullptr;
}
RustF rust()
{
    static RustF f = [] {
        void *h = dlopen((buildDir + "/alone_k12.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        return h ? reinterpret_cast<RustF>(dlsym(h, "alone_k12")) : nullptr;
    }();
    return f;
}
std::string hexOf(const Bytes &b) { return b.empty() ? "-" : hex(b, ~size_t(0)); }
Bytes unhex(const std::string &s)
{
    Bytes b;
    if (s != "-") for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(u8(std::stoi(s.substr(i, 2), nullptr, 16)));
    return b;
}

struct Python {
    FILE *to = nullptr, *from = nullptr;
    pid_t owner = 0;              // worker processes are forked: each has its own
    bool start()
    {
        if (to && owner == getpid()) return true;
        owner = getpid();
        signal(SIGPIPE, SIG_IGN);
        std::ifstream f(buildDir + "/alone.txt");
        std::string python, script, where;
        if (!std::getline(f, python) || !std::getline(f, script) || !std::getline(f, where)) return false;
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return false;
        pid_t pid = fork();
        if (pid < 0) return false;
        if (!pid) {
            for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            dup2(a[0], 0);
            dup2(b[1], 1);
            for (int fd = 3; fd < 256; fd++) close(fd);
            execlp(python.c_str(), python.c_str(), "-B", script.c_str(), where.c_str(), static_cast<char *>(nullptr));
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        to = fdopen(a[1], "w");
        from = fdopen(b[0], "r");
        return to && from;
    }
    std::string ask(Task *t, const std::string &q)
    {
        if (!start()) t->fail("setup", "Python could not be started");
        fputs((q + "\n").c_str(), to);
        fflush(to);
        std::string s;
        for (int c; (c = fgetc(from)) != EOF && c != '\n';) s.push_back(char(c));
        if (s.empty()) to = nullptr;         // it ended; the next request starts another
        if (s.empty()) t->fail("stopped", "no answer from the Python programs to: " + q.substr(0, 200));
        if (s.rfind("exception", 0) == 0) t->fail("exception", s + " for: " + q.substr(0, 200));
        return s;
    }
} python;

std::string base64(const Bytes &b)
{
    static const char *abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string s;
    for (size_t i = 0; i < b.size(); i += 3) {
        u32 v = u32(b[i] << 16) | (i + 1 < b.size() ? u32(b[i + 1] << 8) : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
        s += abc[v >> 18];
        s += abc[v >> 12 & 63];
        s += i + 1 < b.size() ? abc[v >> 6 & 63] : '=';
        s += i + 2 < b.size() ? abc[v & 63] : '=';
    }
    return s;
}

struct AloneS : SessionOf<AloneS> {
    struct File { i64 len, seed, err, chunk; };
    std::vector<File> files;
    std::vector<std::pair<i64, i64>> args;
    explicit AloneS(Task *t) : SessionOf(t) {}

    std::string prefix(int impl) const { return "alone" + std::to_string(impl) + "_"; }
    template <class F> F need(int impl, const char *n)
    {
        F f = symbol<F>(prefix(impl) + n);
        if (!f) t->fail("missing", std::string(impls[impl]) + " does not compile, or lacks " + n);
        return f;
    }
    void op(const Op &o) override
    {
        if (o.c == "keccak") {               // implementation, rate, suffix, length, seed, output length
            static const int can[] = {READABLE, COMPACT, PYTHON, NUMPY};
            int impl = can[clampI(o[0], 0, 3)];
            unsigned rate = unsigned(clampI(o[1], 1, 200));
            u8 suffix = u8(o[2]) ? u8(o[2]) : 1;
            size_t n = size_t(clampI(o[3], 0, 1 << 20)), m = size_t(clampI(o[5], 0, 1 << 20));
            Bytes d = dataOf(u64(o[4]), n);
            run(impl, 6, rate, suffix, d, m);
        }
        else if (o.c == "fips") {            // implementation, instance, length, seed, output length
            int impl = int(clampI(o[0], 0, IMPLS - 1)), k = int(clampI(o[1], 0, 5));
            run(impl, k, fips[k].rate, fips[k].suffix, dataOf(u64(o[3]), size_t(clampI(o[2], 0, 1 << 20))), fips[k].out ? fips[k].out : size_t(clampI(o[4], 0, 1 << 20)));
        }
        else if (o.c == "k12") {             // length, seed, customization length, seed, output length
            size_t n = size_t(clampI(o[0], 0, 1 << 22)), c = size_t(clampI(o[2], 0, 1 << 20)), m = size_t(clampI(o[4], 0, 1 << 20));
            Bytes d = dataOf(u64(o[1]), n), e = dataOf(u64(o[3]), c);
            if (!rust()) t->fail("missing", "k12.rs does not compile");
            Buf x = t->in(d), y = t->in(e), q = t->out(m);
            t->call("k12.rs", [&] { rust()(x.p(), n, y.p(), c, q.p(), m); });
            t->state(20, lenClass(n + c, 8192), lenClass(m, 168));
            t->output("KangarooTwelve of k12.rs", q, [&] { return ref::kangarootwelve(128, d, e).squeeze(m); });
        }
        else if (o.c == "file") files.push_back({clampI(o[0], 0, 100000), o[1], clampI(o[2], -2, 100000), clampI(o[3], 0, 100000)});
        else if (o.c == "arg") args.push_back({o[0], o[1]});
        else if (o.c == "sum") sum();
    }
    void run(int impl, int k, unsigned rate, u8 suffix, const Bytes &d, size_t m)
    {
        Buf x = t->in(d), q = t->out(m);
        const size_t n = d.size();
        std::string what = std::string(k < 6 ? fips[k].name : "Keccak") + " of " + impls[impl];
        if (impl >= PYTHON) {
            std::string module = impl == PYTHON ? "CompactFIPS202" : "CompactFIPS202_numpy";
            std::string s = python.ask(t, k < 6 ? "fips " + module + " " + std::to_string(k) + " " + hexOf(d) + " " + std::to_string(m)
                                               : "keccak " + module + " " + std::to_string(8 * rate) + " " + hexOf(d) + " " + std::to_string(suffix) + " " + std::to_string(m));
            if (s == "missing") return;      // no numpy here
            Bytes got = unhex(s);
            t->state(10 + u64(impl), lenClass(n, rate), lenClass(m, rate), u64(k));
            t->record(what, got);
            if (t->model()) t->expect(what.c_str(), got, ref::sponge(rate * 8, 24, d, suffix, m));
            return;
        }
        u8 *out = q.p();
        const u8 *in = x.p();
        if (k == 6) { auto f = need<KeccakF>(impl, "Keccak"); t->call("Keccak", [&] { f(rate * 8, 1600 - rate * 8, in, n, suffix, out, m); }); }
        else if (impl == TWEET) {
            static const char *const names[] = {"crypto_hash_shake128", "crypto_hash_shake256", "crypto_hash_sha3224", "crypto_hash_sha3256", "crypto_hash_sha3384", "crypto_hash_sha3512"};
            int rc = 0;
            if (k < 2) { auto f = need<TweetXofF>(impl, names[k]); t->call(names[k], [&] { rc = f(out, m, in, n); }); }
            else { auto f = need<TweetHashF>(impl, names[k]); t->call(names[k], [&] { rc = f(out, in, n); }); }
            if (rc) t->fail("refused", std::string(names[k]) + " returned " + std::to_string(rc));
        }
        else {
            std::string name = std::string("FIPS202_") + fips[k].name;
            if (k < 2) { auto f = need<XofF>(impl, name.c_str()); t->call("FIPS202", [&] { f(in, n, out, m); }); }
            else { auto f = need<HashF>(impl, name.c_str()); t->call("FIPS202", [&] { f(in, n, out); }); }
        }
        t->state(u64(impl), lenClass(n, rate), lenClass(m, rate), u64(k) * 256 + suffix);
        t->output(what.c_str(), q, [&] { return ref::sponge(rate * 8, 24, d, suffix, m); });
    }
    void sum()
    {
        static const char *const options[] = {"--hex", "--base64", "--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512", "--sha1"};
        std::string q = "sum ", want;
        int k = 0;
        bool b64 = true;
        size_t bits = 264;
        std::string none;
        for (auto &a : args) {
            if (a.first < 9) {
                q += std::string(options[clampI(a.first, 0, 8)]) + ",";
                i64 v = clampI(a.first, 0, 8);
                if (v < 2) b64 = v == 1;
                else if (v < 8) { k = int(v - 2); b64 = v < 4; bits = v == 2 ? 264 : v == 3 ? 528 : fips[k].out * 8; }
                else want += "Unrecognized option: --sha1\n";
                continue;
            }
            if (files.empty()) continue;
            size_t f = size_t(clampI(a.second, 0, i64(files.size()) - 1));
            std::string name = "f" + std::to_string(f);
            q += name + ",";
            const File &file = files[f];
            if (file.err == -2) { t->fault(F_IO_OPEN); continue; }
            if (file.err >= 0 && file.err <= file.len) { t->fault(F_IO_ERROR); continue; }
            if (file.chunk) t->fault(F_IO_SHORT);
            Bytes h = ref::sponge(fips[k].rate * 8, 24, dataOf(u64(file.seed), size_t(file.len)), fips[k].suffix, bits / 8);
            want += (b64 ? base64(h) : hex(h, ~size_t(0))) + "  " + name + "\n";
        }
        for (size_t f = 0; f < files.size(); f++)
            q += " f" + std::to_string(f) + ":" + (files[f].len ? hexOf(dataOf(u64(files[f].seed), size_t(files[f].len))) : "") + ":" + std::to_string(files[f].err) + ":" + std::to_string(files[f].chunk);
        std::string s = python.ask(t, q + (files.empty() ? " x::-1:0" : ""));
        Bytes got = unhex(s);
        t->state(30, args.size(), files.size(), want.size());
        t->record("output of KeccakSum.py", got);
        if (t->model()) t->expect("output of KeccakSum.py", got, Bytes(want.begin(), want.end()));
        files.clear();
        args.clear();
    }
};
void genAlone(GenCtx &g, TaskPlan &p)
{
    Rng &r = g.r;
    for (int n = std::max(2, g.ops); n > 0; n--) {
        bool slow = r.chance(1, 12);         // Python
        if (r.chance(1, 4)) {
            i64 len = r.chance(1, 3) ? r.range(0, 400) : r.chance(1, 2) ? r.len(8192, g.big ? 12 : 4) : r.range(0, 30000), c = r.chance(1, 2) ? r.range(0, 10) : r.chance(1, 2) ? r.range(0, 300) : r.range(0, 9000);
            if (r.chance(1, 3)) c = std::max<i64>(0, 8192 * r.range(1, 3) - len - r.range(0, 4));     // the end of the customization string near a chunk boundary
            if (r.chance(1, 500)) len = 8192 * r.pick({256, 257, 258}) - r.range(0, 300);                // 255 and 256 leaves
            p.ops.push_back(mk("k12", {len, i64(r.dseed()), c, i64(r.dseed()), r.len(168, 3)}));
        }
        else if (slow && r.chance(1, 2)) {
            for (int k = int(r.range(1, 4)); k > 0; k--) p.ops.push_back(mk("file", {r.chance(1, 4) ? 0 : r.chance(1, 400) ? r.range(60000, 70000) : r.range(0, 600), i64(r.dseed()), r.chance(1, 3) ? r.pick({-2, r.range(0, 600)}) : -1, r.chance(1, 2) ? r.range(1, 300) : 0}));
            for (int k = int(r.range(1, 6)); k > 0; k--) p.ops.push_back(mk("arg", {r.chance(1, 2) ? r.range(0, 8) : 9, r.range(0, 3)}));
            p.ops.push_back(mk("sum", {}));
        }
        else if (r.chance(1, 2)) {
            i64 k = r.range(0, 5), rate = fips[k].rate;
            p.ops.push_back(mk("fips", {slow ? r.range(PYTHON, NUMPY) : r.range(READABLE, TWEET), k, r.len(rate, slow ? 2 : g.big ? 20 : 4), i64(r.dseed()), r.len(rate, slow ? 2 : 4)}));
        }
        else {
            i64 rate = r.chance(1, 2) ? r.pick({168, 136, 144, 104, 72}) : r.chance(1, 4) ? r.pick({1, 2, 7, 8, 9, 199, 200}) : r.range(slow ? 20 : 1, 200);
            p.ops.push_back(mk("keccak", {slow ? r.range(2, 3) : r.range(0, 1), rate, r.chance(1, 2) ? r.pick({1, 6, 0x1F, 0x80, 0x8B}) : r.range(1, 255), r.len(rate, slow ? 2 : 4), i64(r.dseed()), r.len(rate, slow ? 2 : 4)}));
        }
    }
}
KIND("alone", AloneS, genAlone)
}

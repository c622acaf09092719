// The simulator: seeded plans, simulated memory, cooperative tasks preempted inside the library, faults, transcripts.
#pragma once
#include "api.hpp"
#include <csetjmp>
#include <functional>
#include <map>
#include <memory>
#include <set>

// ---------------------------------------------------------------- randomness

inline u64 mix(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }
inline u64 hashBytes(const u8 *p, size_t n, u64 h = 0x9e3779b97f4a7c15ull)
{
    for (; n >= 8; n -= 8, p += 8) { u64 v; memcpy(&v, p, 8); h = mix(h + v + 0x9e3779b97f4a7c15ull); }
    u64 v = 0;
    memcpy(&v, p, n);
    return mix(h ^ (v + (u64(n) << 56) + 1));
}
inline u64 hashStr(const std::string &s, u64 h = 7) { return hashBytes(reinterpret_cast<const u8 *>(s.data()), s.size(), h); }

struct Rng {
    u64 s;
    bool wide = false;            // some lengths of more than 256 blocks
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + i64(below(u64(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    i64 pick(std::initializer_list<i64> l) { return l.begin()[below(l.size())]; }
    u64 dseed() { return chance(1, 12) ? below(2) : 2 + below(1u << 30); }      // data seed: 0 zeros, 1 ones, else random
    // a length that likes to sit around multiples of a block
    i64 len(i64 block, i64 maxBlocks = 3);
};
Bytes dataOf(u64 dseed, size_t n);

// ---------------------------------------------------------------- plans

struct Op {
    std::string c;
    std::vector<i64> a;
    i64 operator[](size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct TaskPlan {
    std::string kind, backend, backend2;
    std::vector<i64> cfg;
    std::vector<Op> ops;
    i64 at(size_t i) const { return i < cfg.size() ? cfg[i] : 0; }
};
struct Plan {
    std::string prop;
    u64 seed = 0;
    std::vector<i64> cfg;
    std::vector<TaskPlan> tasks;
    std::vector<std::pair<int, int>> slices;      // task, quantum: >0 library steps, <0 operations
    std::string text() const;
    static bool parse(const std::string &s, Plan &p);
    u64 hash() const { return hashStr(text()); }
};

// ---------------------------------------------------------------- shared counters (between the worker processes)

enum Fault {
    F_FRAGMENT, F_SWITCH, F_PREEMPT, F_CKPT_RESTORE, F_CRASH_BETWEEN, F_CRASH_INSIDE, F_RELOCATE, F_REINIT, F_REFUSED_CALL,
    F_NET_BITFLIP, F_NET_TRUNCATE, F_NET_EXTEND, F_NET_REPLAY, F_NET_REORDER, F_NET_SPLICE, F_NET_AD, F_NET_LOSS, F_NET_TAG,
    F_DISK_ROT, F_DISK_TORN, F_DISK_LOST, F_DISK_MISDIRECTED, F_DISK_TWEAK,
    F_IO_SHORT, F_IO_EINTR, F_IO_ERROR, F_IO_OPEN, F_IO_WRITE,
    F_GUARD_PLACEMENT, F_GARBAGE_MEMORY, F_BACKEND_SWITCH, F_GIANT, F_COUNT
};
extern const char *const faultNames[F_COUNT];

struct Counters {
    u64 runs, ops, calls, steps, compared, bytes, audits;
    u64 faults[F_COUNT];
};
struct Shared;
extern Counters *counters;        // of this process
void noteState(u64 h);            // an abstract state or transition was reached
void noteCase(u64 h);             // a distinct non-trivial run
void noteInterleaving(u64 h);

// ---------------------------------------------------------------- failures

struct Violation { std::string cls, msg; };
struct EndTask {};                // nothing more to do in this task
struct CrashSignal {};            // the simulated crash of a task inside a library call

// ---------------------------------------------------------------- simulated memory

struct World;
struct Task;

struct Block {
    u8 *p = nullptr;              // what the library is given
    size_t n = 0;
    u8 *lo = nullptr;             // the accessible region around it
    size_t span = 0;
    int cls = -1;
};
class Memory {
public:
    void reset(bool hostile, int placement, u64 fillSeed);
    Block alloc(size_t n, size_t align, bool garbage);
    void release(Block &b);
    // hostile mode: is anything around the block modified?
    bool intact(const Block &b, bool full) const;
    bool hostile = false;
    int placement = 0;            // 0: buffers end at a guard page, 1: they start right after one
    u64 fillSeed = 0;
private:
    struct Cls { u64 created = 0, used = 0; std::vector<u8 *> freeList; };
    Cls cls_[2][24];
    u64 count_ = 0;
};

// a buffer given to the library
struct Buf {
    Task *t = nullptr;
    Block b;
    bool isInput = false, null = false;
    Bytes keep;                   // what an input must still contain / what an output contained before
    Buf() {}
    Buf(Buf &&o) noexcept { *this = std::move(o); }
    Buf &operator=(Buf &&o) noexcept;
    Buf(const Buf &) = delete;
    ~Buf();
    u8 *p() const { return null ? nullptr : b.p; }
    size_t size() const { return b.n; }
    Bytes get() const { return Bytes(b.p, b.p + b.n); }
    bool untouched() const { return !b.n || !memcmp(b.p, keep.data(), b.n); }
};

// an object of the library
struct Inst {
    Task *t = nullptr;
    Block b;
    size_t align = 1;
    Inst() {}
    Inst(Task *t, const Size &s);
    Inst(const Inst &o);          // relocation: a byte copy at another address
    Inst &operator=(const Inst &o) = delete;
    ~Inst();
    void *p() const { return b.p; }
};

// ---------------------------------------------------------------- sessions and tasks

struct Session {
    Task *t;
    explicit Session(Task *t_) : t(t_) {}
    Session(const Session &) = default;
    virtual ~Session() {}
    virtual void op(const Op &o) = 0;
    virtual std::unique_ptr<Session> clone() const = 0;
};
template <class S> struct SessionOf : Session {
    using Session::Session;
    std::unique_ptr<Session> clone() const override { return std::make_unique<S>(static_cast<const S &>(*this)); }
};

struct Entry { int op; std::string label; u64 hash; size_t n; u64 call = 0, known = 0; };

struct Task {
    World &w;
    int idx;
    const TaskPlan &p;
    const Api *A = nullptr, *B = nullptr;
    std::unique_ptr<Session> s;
    size_t pc = 0;
    std::vector<Entry> log;
    int opIndex = 0;
    // execution context
    void *sp = nullptr;
    u8 *stack = nullptr;
    bool started = false, done = false;
    // inside a library call
    bool inCall = false;
    const char *callName = "";
    jmp_buf jb;
    int jumpReason = 0;
    i64 crashLeft = -1, budgetLeft = 0, callBudget = 300000000;
    bool crashed = false;
    u64 steps = 0;                // library steps taken by this task
    i64 crashIn = -1;             // crash the next operation after that many steps
    std::unique_ptr<Session> ckpt;
    size_t ckptPc = 0, ckptLog = 0;
    std::set<size_t> spent;       // restore operations already carried out
    std::vector<Buf *> live;
    std::vector<Inst *> liveInst;
    u64 known = 0;                // digest of what everybody may know: the answers so far
    u64 callNo = 0, traceHash = 0, traceLen = 0;

    Task(World &w_, int i, const TaskPlan &p_);
    ~Task();
    bool model() const;
    void body();

    Buf in(const Bytes &data);
    Buf in(u64 dseed, size_t n) { return in(dataOf(dseed, n)); }
    Buf out(size_t n);
    Buf inout(const Bytes &data);

    template <class F> void call(const char *name, F f) { callImpl(name, [](void *q) { (*static_cast<F *>(q))(); }, &f); }
    template <class F> int rcall(const char *name, F f) { int rc = 0; call(name, [&] { rc = f(); }); return rc; }
    // a call of the library whose return code is part of the transcript
    template <class F> void ok(const char *name, F f) { int rc = rcall(name, f); log_(std::string(name) + ".rc", u64(rc != 0), 0); if (rc) unexpected("refused", std::string(name) + " returned " + std::to_string(rc) + " for a legal call"); }
    void record(const std::string &label, const Bytes &b);
    void recordRc(const std::string &label, int rc) { log_(label, u64(rc != 0), 0); }
    void expect(const char *what, const Bytes &got, const Bytes &want);
    void output(const char *what, const Buf &b, const std::function<Bytes()> &want);
    void refused(const char *name, int rc, std::initializer_list<const Buf *> outs);
    [[noreturn]] void unexpected(const std::string &cls, const std::string &msg);
    [[noreturn]] void fail(const std::string &cls, const std::string &msg);
    // an argument that only says where data are altered: it may differ between two runs whose traces must agree
    u64 vary(u64 x) const;
    void publish(u64 x) { known = mix(known ^ (x + 0x9e3779b97f4a7c15ull)); }
    void state(u64 a, u64 b = 0, u64 c = 0, u64 d = 0);
    void fault(Fault f, u64 n = 1) { if (counters) counters->faults[f] += n; }
private:
    void log_(const std::string &label, u64 h, size_t n);
    void callImpl(const char *name, void (*f)(void *), void *q);
    void verify();
    void scribbleStack();
    friend struct Buf;
};

struct Mode {
    bool model = true, hostile = false, misuse = true, faults = true, solo = false;
    bool trace = false;           // the transcript includes a digest of the control flow and addresses of every call
    u64 salt = 0;                 // other data of the same lengths
    int recordTask = -1;          // keep the whole trace of one call
    u64 recordCall = 0;
    bool observe = false;         // whether a call ought to be refused is not judged: the code is recorded, and the task ends where the answer is not the documented one
    int placement = 0;
    u64 fillSeed = 0;
    std::string backend;          // override of every task's backend
    int only = -1;                // run one task only
};

struct Outcome {
    bool violated = false;
    Violation v;
    std::vector<std::vector<Entry>> logs;
    u64 hash = 0, interleaving = 0, steps = 0, compared = 0, switches = 0;
};

struct World {
    const Plan &plan;
    Mode mode;
    Memory &mem;
    std::vector<std::unique_ptr<Task>> tasks;
    Task *cur = nullptr;
    void *mainSp = nullptr;
    i64 sliceLeft = 0;            // library steps until preemption; 0: none
    i64 opsLeft = 0;
    bool wantSwitch = false;
    bool violated = false;
    Violation v;
    u64 compared = 0, switches = 0, ilv = 0;

    World(const Plan &p, const Mode &m);
    ~World();
    Outcome run();
    void resume(Task &t);
    void yieldToMain();
    void arm();
    void account();
};

Outcome simulate(const Plan &p, const Mode &m);
// of the call that was recorded: place in the code and normalised address (or ~0 for a step)
struct Event { u64 pc, addr; bool operator==(const Event &o) const { return pc == o.pc && addr == o.addr; } };
extern std::vector<Event> recorded;
Task *currentTask();

// ---------------------------------------------------------------- kinds of sessions

using Maker = std::unique_ptr<Session> (*)(Task *);
struct GenCtx {
    Rng &r;
    bool misuse = false;          // add forbidden calls
    bool big = false;             // allow long data
    int ops = 12;
};
using Generator = void (*)(GenCtx &, TaskPlan &);
struct Kind { Maker make; Generator gen; };
const std::map<std::string, Kind> &kinds();
void addKind(const std::string &name, Maker m, Generator g);
template <class S> std::unique_ptr<Session> makeSession(Task *t) { return std::make_unique<S>(t); }
#define KIND(name, cls, gen) static const bool reg_##cls = (addKind(name, makeSession<cls>, gen), true);

inline Op mk(const char *c, std::initializer_list<i64> a) { Op o; o.c = c; o.a = a; return o; }
std::string hex(const Bytes &b, size_t max = 24);
inline u64 lenClass(u64 n, u64 block) { if (!block) return n; return n == 0 ? 0 : n < block ? (n == 1 ? 1 : n + 1 == block ? 2 : 3) : n % block == 0 ? 4 + std::min<u64>(n / block, 12) : 20 + std::min<u64>(n / block, 12); }

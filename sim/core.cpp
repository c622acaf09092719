#include "core.hpp"
#include "runner.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <sys/mman.h>

const char *const faultNames[F_COUNT] = {
    "stream fragmented", "task switch between calls", "preemption inside a call", "restore from checkpoint", "crash between calls",
    "crash inside a call", "object relocated", "object re-initialized mid-session", "forbidden call",
    "message bit flip", "message truncated", "message extended", "message replayed", "message reordered", "message from another session",
    "metadata altered", "message lost", "tag altered",
    "stored bit rot", "torn write", "lost write", "misdirected write", "wrong tweak",
    "short read", "interrupted read", "read error", "open failure", "output failure",
    "buffer placed against inaccessible memory", "object memory prefilled with garbage", "backend changed mid-stream", "input beyond 4 GiB"};

Counters *counters = nullptr;

// ---------------------------------------------------------------- randomness and data

i64 Rng::len(i64 block, i64 maxBlocks)
{
    if (block < 1) block = 1;
    if (wide && maxBlocks > 2 && chance(1, 6)) maxBlocks = 300;
    switch (below(10)) {
        case 0: return 0;
        case 1: return range(1, 3);
        case 2: case 3: return std::max<i64>(0, block * range(1, maxBlocks) + range(-2, 2));
        case 4: return block * range(1, maxBlocks);
        case 5: case 6: return range(0, block);
        case 7: return range(0, block * maxBlocks);
        case 8: return range(0, 17);
        default: return std::max<i64>(0, block * range(0, maxBlocks) + 8 * range(-2, 2));
    }
}

static u64 dataSalt = 0;
static Bytes rawOf(u64 d, size_t n);
Bytes dataOf(u64 d, size_t n)
{
    if (dataSalt) {
        u64 h = mix(d * 0x9e3779b97f4a7c15ull + dataSalt);
        d = h % 8 < 2 ? h % 8 : 2 + (h >> 3);
    }
    return rawOf(d, n);
}
static Bytes rawOf(u64 d, size_t n)
{
    Bytes b(n);
    if (d == 0) return b;
    if (d == 1) { memset(b.data(), 0xFF, n); return b; }
    u64 x = mix(d * 0x9e3779b97f4a7c15ull);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { x += 0x9e3779b97f4a7c15ull; u64 v = mix(x); memcpy(&b[i], &v, 8); }
    if (i < n) { u64 v = mix(x + 0x9e3779b97f4a7c15ull); memcpy(&b[i], &v, n - i); }
    return b;
}

std::string hex(const Bytes &b, size_t max)
{
    std::string s;
    char t[3];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 3, "%02x", b[i]); s += t; }
    if (b.size() > max) s += "..";
    return s;
}

// ---------------------------------------------------------------- plans

std::string Plan::text() const
{
    std::ostringstream o;
    o << "plan " << prop << " " << seed << "\n";
    o << "cfg";
    for (auto v : cfg) o << " " << v;
    o << "\n";
    for (auto &t : tasks) {
        o << "task " << t.kind << " " << t.backend << " " << t.backend2;
        for (auto v : t.cfg) o << " " << v;
        o << "\n";
        for (auto &p : t.ops) {
            o << "  " << p.c;
            for (auto v : p.a) o << " " << v;
            o << "\n";
        }
        o << "end\n";
    }
    o << "slices";
    for (auto &s : slices) o << " " << s.first << ":" << s.second;
    o << "\n";
    return o.str();
}

bool Plan::parse(const std::string &text, Plan &p)
{
    std::istringstream in(text);
    std::string line;
    bool have = false;
    TaskPlan *t = nullptr;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string w;
        if (!(l >> w) || w[0] == '#') continue;
        if (t) {
            if (w == "end") { t = nullptr; continue; }
            Op o;
            o.c = w;
            i64 v;
            while (l >> v) o.a.push_back(v);
            t->ops.push_back(o);
        }
        else if (w == "plan") { l >> p.prop >> p.seed; have = true; }
        else if (w == "cfg") { i64 v; while (l >> v) p.cfg.push_back(v); }
        else if (w == "task") {
            p.tasks.emplace_back();
            t = &p.tasks.back();
            l >> t->kind >> t->backend >> t->backend2;
            i64 v;
            while (l >> v) t->cfg.push_back(v);
        }
        else if (w == "slices") {
            std::string s;
            while (l >> s) {
                auto c = s.find(':');
                if (c == std::string::npos) return false;
                p.slices.push_back({atoi(s.c_str()), atoi(s.c_str() + c + 1)});
            }
        }
    }
    return have && !t;
}

// ---------------------------------------------------------------- simulated memory

static const size_t PAGE = 4096;
static const u64 BASE = 0x100000000000ull, STRIDE = 1ull << 34;
static const u8 MARGIN = 0xC3;

static u8 *region(int hostile, int c)
{
    static bool mapped = false;
    if (!mapped) {
        void *p = mmap(reinterpret_cast<void *>(BASE), STRIDE * 48, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(BASE)) { perror("arena"); _exit(2); }
        mapped = true;
    }
    return reinterpret_cast<u8 *>(BASE + STRIDE * (u64(hostile) * 24 + u64(c)));
}

void Memory::reset(bool h, int pl, u64 fs)
{
    hostile = h;
    placement = pl;
    fillSeed = fs;
    count_ = 0;
    for (auto &m : cls_) for (auto &c : m) { c.used = 0; c.freeList.clear(); }
}

Block Memory::alloc(size_t n, size_t align, bool garbage)
{
    size_t slack = hostile ? 0 : 512;
    int c = 0;
    while ((PAGE << c) < n + slack) c++;
    if (c >= 24) { fprintf(stderr, "allocation of %zu bytes\n", n); _exit(2); }
    Cls &k = cls_[hostile][c];
    size_t usable = PAGE << c, step = usable + PAGE;
    Block b;
    b.cls = c;
    b.span = usable;
    b.n = n;
    if (!k.freeList.empty()) { b.lo = k.freeList.back(); k.freeList.pop_back(); }
    else {
        u64 i = k.used++;
        b.lo = region(hostile, c) + PAGE + i * step;
        if (i >= k.created) {
            // benign slots touch each other, hostile ones have permanent guard pages on both sides
            if (mprotect(b.lo, hostile ? usable : step, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(2); }
            k.created = i + 1;
        }
    }
    u64 r = mix(++count_ * 31 + fillSeed);
    if (hostile) {
        if (placement == 0) b.p = b.lo + usable - n;
        else b.p = b.lo;
    }
    else {
        b.p = b.lo + 64;
        if (align > 1) b.p += align * (r % (64 / std::min<size_t>(align, 64)) % 4);
        else b.p += r & 31;
    }
    if (hostile || usable <= 65536) memset(b.lo, MARGIN, usable);
    else { memset(b.lo, MARGIN, b.p - b.lo); memset(b.p + n, MARGIN, std::min<size_t>(512, b.lo + usable - (b.p + n))); }
    if (garbage) {
        if (fillSeed == 0) memset(b.p, 0, n);
        else { Bytes g = rawOf(2 + r % 100000, n); if (n) memcpy(b.p, g.data(), n); }
    }
    return b;
}

void Memory::release(Block &b)
{
    if (b.cls < 0) return;
    if (b.span > (1u << 22)) madvise(b.lo, b.span, MADV_DONTNEED);
    cls_[hostile][b.cls].freeList.push_back(b.lo);
    b.cls = -1;
}

bool Memory::intact(const Block &b, bool full) const
{
    size_t before = b.p - b.lo, after = b.lo + b.span - (b.p + b.n);
    if (!full) { before = std::min<size_t>(before, 256); after = std::min<size_t>(after, 256); }
    for (size_t i = 1; i <= before; i++) if (b.p[-i64(i)] != MARGIN) return false;
    for (size_t i = 0; i < after; i++) if (b.p[b.n + i] != MARGIN) return false;
    return true;
}

Buf &Buf::operator=(Buf &&o) noexcept
{
    std::swap(t, o.t);
    std::swap(b, o.b);
    std::swap(isInput, o.isInput);
    std::swap(null, o.null);
    keep.swap(o.keep);
    for (Buf *h : {this, &o})
        if (h->t) for (auto &l : h->t->live) if (l == (h == this ? &o : this)) { l = h; break; }
    return *this;
}
Buf::~Buf()
{
    if (!t) return;
    auto &l = t->live;
    l.erase(std::remove(l.begin(), l.end(), this), l.end());
    t->w.mem.release(b);
}

Inst::Inst(Task *t_, const Size &s) : t(t_), align(s.align)
{
    b = t->w.mem.alloc(s.size, align, true);
    t->fault(F_GARBAGE_MEMORY);
    t->liveInst.push_back(this);
}
Inst::Inst(const Inst &o) : t(o.t), align(o.align)
{
    if (!t) return;
    b = t->w.mem.alloc(o.b.n, align, false);
    memcpy(b.p, o.b.p, b.n);
    t->liveInst.push_back(this);
}
Inst::~Inst()
{
    if (!t) return;
    auto &l = t->liveInst;
    l.erase(std::remove(l.begin(), l.end(), this), l.end());
    memset(b.p, 0x5A, b.n);       // whatever still points here will see it
    t->w.mem.release(b);
}

// ---------------------------------------------------------------- contexts

extern "C" void simSwitch(void **save, void *to);
asm(R"(
.text
.globl simSwitch
.type simSwitch, @function
simSwitch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size simSwitch, .-simSwitch
)");

static const size_t STACK = 1 << 20;
static const size_t DIRTY = 96 * 1024;        // how much of a fresh stack is filled
static std::vector<u8 *> stackPool;
static u8 *takeStack()
{
    if (!stackPool.empty()) { u8 *s = stackPool.back(); stackPool.pop_back(); return s; }
    u8 *p = static_cast<u8 *>(mmap(nullptr, STACK + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) { perror("stack"); _exit(2); }
    mprotect(p, PAGE, PROT_NONE);
    return p + PAGE;
}

static World *world = nullptr;
Task *currentTask() { return world ? world->cur : nullptr; }
static i64 fuel = INT64_MAX, armed = INT64_MAX;

static void taskEntry()
{
    world->cur->body();
    world->cur->done = true;
    for (;;) world->yieldToMain();
}

void World::resume(Task &t)
{
    cur = &t;
    if (!t.started) {
        t.started = true;
        t.stack = takeStack();
        memset(t.stack + STACK - DIRTY, mode.fillSeed ? 0x5F : 0, DIRTY);
        u64 *top = reinterpret_cast<u64 *>(t.stack + STACK);
        *--top = 0;                                       // alignment: rsp % 16 == 8 at function entry
        *--top = reinterpret_cast<u64>(&taskEntry);
        for (int i = 0; i < 6; i++) *--top = 0;
        t.sp = top;
    }
    simSwitch(&mainSp, t.sp);
    cur = nullptr;
}
void World::yieldToMain() { Task *t = cur; simSwitch(&t->sp, mainSp); }

// the library is about to run (again) on behalf of cur: when must it give control back?
void World::arm()
{
    Task &t = *cur;
    i64 n = t.budgetLeft;
    if (t.crashLeft > 0) n = std::min(n, t.crashLeft);
    if (sliceLeft > 0) n = std::min(n, sliceLeft);
    armed = fuel = std::max<i64>(n, 1);
}
void World::account()
{
    i64 used = armed - std::max<i64>(fuel, 0);
    Task &t = *cur;
    t.steps += u64(used);
    t.budgetLeft -= used;
    if (t.crashLeft > 0) t.crashLeft = std::max<i64>(0, t.crashLeft - used) ? t.crashLeft - used : -2;
    if (sliceLeft > 0 && (sliceLeft -= used) <= 0) { sliceLeft = 0; wantSwitch = true; }
    armed = fuel = INT64_MAX;
}

static void slowHook()
{
    World &w = *world;
    Task &t = *w.cur;
    w.account();
    if (t.budgetLeft <= 0) { t.jumpReason = 2; longjmp(t.jb, 1); }
    if (t.crashLeft == -2) { t.jumpReason = 1; longjmp(t.jb, 1); }
    if (w.wantSwitch) {
        w.wantSwitch = false;
        w.switches++;
        w.ilv = mix(w.ilv ^ mix(u64(t.idx) * 0x10001 + t.steps));
        t.fault(F_PREEMPT);
        w.yieldToMain();
    }
    w.arm();
}

// ---------------------------------------------------------------- control flow and addresses

static bool tracing = false, recording = false;
std::vector<Event> recorded;
static Task *traced = nullptr;
static inline void traceEvent(u64 pc, u64 addr)
{
    Task &t = *traced;
    u64 h = (t.traceHash ^ pc ^ (addr << 1)) * 0x9e3779b97f4a7c15ull;
    t.traceHash = h ^ h >> 29;
    t.traceLen++;
    if (recording) recorded.push_back({pc, addr});
}
// an address as it is comparable between runs: simulated memory and images of the library are where they are, stacks move
static u64 placeOf(const void *p)
{
    u64 a = reinterpret_cast<u64>(p), s = reinterpret_cast<u64>(traced->stack);
    if (a - BASE < STRIDE * 48) return a;
    if (a - s < STACK) return a - s;
    return inBackend(p) ? a : 1;
}
extern "C" void __sanitizer_cov_trace_pc()
{
    if (tracing) traceEvent(reinterpret_cast<u64>(__builtin_return_address(0)), ~0ull);
    if (--fuel <= 0) slowHook();
}
static void access(const void *p, u64 pc) { if (tracing) traceEvent(pc, placeOf(p)); }
#define ACCESS(name) extern "C" void __asan_##name##_noabort(const void *p) { access(p, reinterpret_cast<u64>(__builtin_return_address(0))); }
ACCESS(load1) ACCESS(load2) ACCESS(load4) ACCESS(load8) ACCESS(load16)
ACCESS(store1) ACCESS(store2) ACCESS(store4) ACCESS(store8) ACCESS(store16)
#define ACCESSN(name) extern "C" void __asan_##name##_noabort(const void *p, size_t n) { u64 pc = reinterpret_cast<u64>(__builtin_return_address(0)); access(p, pc); if (tracing) traceEvent(pc, n); }
ACCESSN(loadN) ACCESSN(storeN)
extern "C" void __asan_handle_no_return() {}
// the C library's memory functions; comparison takes one step per byte up to the first difference, as the standard allows
static void range(const void *a, const void *b, size_t n, u64 pc) { if (tracing) { access(a, pc); access(b, pc); traceEvent(pc, n); } }
extern "C" void *sim_memcpy(void *d, const void *s, size_t n) { range(d, s, n, reinterpret_cast<u64>(__builtin_return_address(0))); return memcpy(d, s, n); }
extern "C" void *sim_memmove(void *d, const void *s, size_t n) { range(d, s, n, reinterpret_cast<u64>(__builtin_return_address(0))); return memmove(d, s, n); }
extern "C" void *sim_memset(void *d, int c, size_t n) { range(d, d, n, reinterpret_cast<u64>(__builtin_return_address(0))); return memset(d, c, n); }
extern "C" int sim_memcmp(const void *a, const void *b, size_t n)
{
    u64 pc = reinterpret_cast<u64>(__builtin_return_address(0));
    const u8 *x = static_cast<const u8 *>(a), *y = static_cast<const u8 *>(b);
    for (size_t i = 0; i < n; i++) {
        range(x + i, y + i, 1, pc);
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    }
    return 0;
}

__attribute__((noinline)) void Task::callImpl(const char *name, void (*f)(void *), void *q)
{
    callName = name;
    budgetLeft = callBudget;
    jumpReason = 0;
    if (counters) counters->calls++;
    noteCall(this);
    callNo++;
    if (_setjmp(jb) == 0) {
        inCall = true;
        w.arm();
        if (w.mode.trace) {
            traced = this;
            traceHash = traceLen = 0;
            tracing = true;
            recording = w.mode.recordTask == idx && w.mode.recordCall == callNo;
            if (recording) recorded.clear();
        }
        f(q);
        tracing = recording = false;
        w.account();
        inCall = false;
        if (w.mode.trace) log.push_back({opIndex, std::string("trace of ") + name, traceHash, size_t(traceLen), callNo, known});
        if (crashLeft == -2) crashLeft = 1;               // used up exactly at the end of the call
    }
    else {
        tracing = recording = false;
        inCall = false;
        noteCall(nullptr);
        if (jumpReason == 1) { crashLeft = -1; throw CrashSignal(); }
        fail("no-progress", std::string(name) + " did not return");
    }
    noteCall(nullptr);
    if (w.mode.hostile) verify();
    callName = "";
}

void Task::verify()
{
    for (Buf *b : live) {
        if (!w.mem.intact(b->b, b->b.span <= PAGE)) fail("wrote-outside", std::string(callName) + " wrote outside a buffer of " + std::to_string(b->b.n) + " bytes");
        if (b->isInput && !b->untouched()) fail("input-modified", std::string(callName) + " modified its input of " + std::to_string(b->b.n) + " bytes");
    }
    for (Inst *i : liveInst)
        if (!w.mem.intact(i->b, i->b.span <= PAGE)) fail("wrote-outside", std::string(callName) + " wrote outside an object of " + std::to_string(i->b.n) + " bytes");
}

// ---------------------------------------------------------------- tasks

Task::Task(World &w_, int i, const TaskPlan &p_) : w(w_), idx(i), p(p_)
{
    A = apiByName(w.mode.backend.empty() ? p.backend : w.mode.backend);
    B = apiByName(w.mode.backend.empty() ? p.backend2 : w.mode.backend);
    if (!B) B = A;
}
Task::~Task()
{
    ckpt.reset();
    s.reset();
    if (stack) stackPool.push_back(stack);
}
bool Task::model() const { return w.mode.model; }

Buf Task::in(const Bytes &d)
{
    Buf b = inout(d);
    b.isInput = true;
    b.keep = d;
    if (counters) counters->bytes += d.size();
    return b;
}
Buf Task::inout(const Bytes &d)
{
    Buf b;
    b.t = this;
    b.b = w.mem.alloc(d.size(), 1, false);
    if (!d.empty()) memcpy(b.b.p, d.data(), d.size());
    else b.null = mix(w.plan.seed + 31 * u64(idx) + 977 * u64(opIndex) + live.size()) % 3 == 0;       // an empty string may come as a null pointer
    live.push_back(&b);
    if (w.mode.hostile) fault(F_GUARD_PLACEMENT);
    return b;                     // the move, if any, keeps `live` right
}
Buf Task::out(size_t n)
{
    Buf b = inout(rawOf(w.mode.fillSeed + 77, n));
    b.keep = b.get();
    return b;
}

void Task::log_(const std::string &label, u64 h, size_t n)
{
    if (label.size() > 3 && !label.compare(label.size() - 3, 3, ".rc")) publish(h);
    log.push_back({opIndex, label, h, n});
}
void Task::record(const std::string &label, const Bytes &b)
{
    log_(label, hashBytes(b.data(), b.size()), b.size());
    if (b.size()) w.compared++;
}
void Task::expect(const char *what, const Bytes &got, const Bytes &want)
{
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t f = i & ~size_t(7);
    fail("model-mismatch", std::string(what) + ": " + std::to_string(got.size()) + " bytes, first difference at byte " + std::to_string(i)
         + ": got " + hex(Bytes(got.begin() + std::min(f, got.size()), got.end()), 16) + " expected " + hex(Bytes(want.begin() + std::min(f, want.size()), want.end()), 16));
}
void Task::output(const char *what, const Buf &b, const std::function<Bytes()> &want)
{
    Bytes g = b.get();
    record(what, g);
    if (model()) expect(what, g, want());
}
void Task::refused(const char *name, int rc, std::initializer_list<const Buf *> outs)
{
    fault(F_REFUSED_CALL);
    w.compared++;
    log_(std::string(name) + ".rc", u64(rc != 0), 0);
    if (rc == 0) unexpected("accepted", std::string(name) + " accepted a forbidden call");
    for (auto b : outs) if (!b->untouched()) fail("refused-but-wrote", std::string(name) + " refused the call but wrote output");
}
void Task::unexpected(const std::string &cls, const std::string &msg)
{
    if (w.mode.observe) throw EndTask();
    fail(cls, msg);
}
void Task::fail(const std::string &cls, const std::string &msg)
{
    std::string o;
    if (opIndex < int(p.ops.size())) {
        o = p.ops[opIndex].c;
        for (auto v : p.ops[opIndex].a) o += " " + std::to_string(v);
    }
    throw Violation{cls, "task " + std::to_string(idx) + " (" + p.kind + " on " + (A ? A->name : "?") + ") operation " + std::to_string(opIndex) + " [" + o + "]: " + msg};
}
u64 Task::vary(u64 x) const { return w.mode.salt ? mix(x + w.mode.salt) : x; }
void Task::state(u64 a, u64 b, u64 c, u64 d)
{
    u64 h = hashStr(p.kind, hashStr(A ? A->name : ""));
    noteState(mix(h + mix(a + mix(b + mix(c + mix(d + 1))))));
}

void Task::body()
{
    try {
        auto k = kinds().find(p.kind);
        if (k == kinds().end() || !A) throw Violation{"plan", "unknown session kind or backend: " + p.kind + " " + p.backend};
        s = k->second.make(this);
        while (pc < p.ops.size()) {
            const Op &o = p.ops[pc];
            opIndex = int(pc++);
            if (counters) counters->ops++;
            if (o.c == "ckpt") { if (w.mode.faults) { ckpt = s->clone(); ckptPc = pc; ckptLog = log.size(); } }
            else if (o.c == "restore") {
                if (w.mode.faults && ckpt && spent.insert(pc).second) {
                    fault(F_CKPT_RESTORE);
                    fault(F_CRASH_BETWEEN);
                    s = ckpt->clone();
                    pc = ckptPc;
                    log.resize(ckptLog);
                }
            }
            else if (o.c == "reloc") { if (w.mode.faults) { s = s->clone(); fault(F_RELOCATE); } }
            else if (o.c == "crash") crashIn = w.mode.faults ? std::max<i64>(1, o[0]) : -1;
            else if (o.c[0] == '!' && !w.mode.misuse) continue;
            else if (crashIn > 0) {
                auto backup = s->clone();
                size_t mark = log.size();
                bool crashedNow = false;
                crashLeft = crashIn;
                crashIn = -1;
                try { s->op(o); }
                catch (CrashSignal &) { crashedNow = true; }
                crashLeft = -1;
                if (crashedNow) {
                    fault(F_CRASH_INSIDE);
                    log.resize(mark);
                    s = std::move(backup);
                    s->op(o);
                }
            }
            else s->op(o);
            if (w.opsLeft > 0 && --w.opsLeft == 0) w.wantSwitch = true;
            if (w.wantSwitch && pc < p.ops.size()) {
                w.wantSwitch = false;
                w.sliceLeft = 0;
                w.switches++;
                w.ilv = mix(w.ilv ^ mix(u64(idx) * 0x10001 + (u64(opIndex) << 32)));
                if (w.tasks.size() > 1) fault(F_SWITCH);
                w.yieldToMain();
            }
        }
        ckpt.reset();
        s.reset();
    }
    catch (EndTask &) { ckpt.reset(); s.reset(); }
    catch (Violation &x) { w.violated = true; w.v = x; }
    catch (CrashSignal &) { w.violated = true; w.v = {"plan", "stray crash"}; }
}

// ---------------------------------------------------------------- worlds

static Memory theMemory;

World::World(const Plan &p, const Mode &m) : plan(p), mode(m), mem(theMemory)
{
    dataSalt = m.salt;
    mem.reset(m.hostile, m.placement, m.fillSeed);
    for (auto a : apis()) a->restorePristine();
    for (size_t i = 0; i < p.tasks.size(); i++) tasks.push_back(std::make_unique<Task>(*this, int(i), p.tasks[i]));
}
World::~World()
{
    if (violated)                 // contexts cut short never unwind: forget what they own
        for (auto &t : tasks) { t->s.release(); t->ckpt.release(); }
    tasks.clear();
}

Outcome World::run()
{
    world = this;
    size_t k = 0, n = tasks.size(), rr = 0;
    auto runnable = [&](size_t i) { return !tasks[i]->done && (mode.only < 0 || mode.only == int(i)); };
    while (!violated) {
        sliceLeft = opsLeft = 0;
        wantSwitch = false;
        if (!mode.solo && k < plan.slices.size()) {
            auto [ti, q] = plan.slices[k++];
            size_t i = size_t(ti) % n;
            if (!runnable(i)) continue;
            (q > 0 ? sliceLeft : opsLeft) = q > 0 ? q : -i64(q);
            resume(*tasks[i]);
            continue;
        }
        size_t tried = 0;
        while (tried < n && !runnable(rr % n)) { rr++; tried++; }
        if (tried == n) break;
        if (!mode.solo) opsLeft = 1;
        resume(*tasks[rr % n]);
        if (!mode.solo) rr++;
    }
    world = nullptr;
    Outcome o;
    o.violated = violated;
    o.v = v;
    for (auto &t : tasks) {
        o.steps += t->steps;
        u64 h = 1;
        for (auto &e : t->log) h = mix(h ^ mix(e.hash + hashStr(e.label) + u64(e.op) * 31 + e.n));
        o.hash = mix(o.hash ^ h);
        o.logs.push_back(std::move(t->log));
    }
    if (violated) o.hash = mix(o.hash ^ hashStr(v.cls + v.msg));
    o.interleaving = ilv;
    o.compared = compared;
    o.switches = switches;
    if (counters) { counters->steps += o.steps; counters->compared += compared; }
    return o;
}

Outcome simulate(const Plan &p, const Mode &m)
{
    World w(p, m);
    return w.run();
}

static std::map<std::string, Kind> &kindMap() { static std::map<std::string, Kind> m; return m; }
const std::map<std::string, Kind> &kinds() { return kindMap(); }
void addKind(const std::string &name, Maker m, Generator g) { kindMap()[name] = {m, g}; }

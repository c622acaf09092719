// Command line: search over seeds in worker processes, confirmation, minimisation, replay files, evidence.
#include "runner.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
const int MAXW = 16;
const u64 BITS = 1ull << 24;

struct Slot {
    Counters c;
    u64 index, seed;
    bool bad;
    char cls[64], msg[1024];
    u64 hash;
    const char *call, *backend;
    int task, op;
    char kind[24];
};
struct SharedMem {
    std::atomic<u64> next, best;
    Slot slot[MAXW + 1];
    u8 states[BITS / 8], cases[BITS / 8], ilv[BITS / 8];
};
SharedMem *sh;
Slot *mine;
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void setBit(u8 *map, u64 h) { h = mix(h) % BITS; __atomic_fetch_or(&map[h / 8], u8(1u << (h & 7)), __ATOMIC_RELAXED); }
u64 countBits(const u8 *map) { u64 n = 0; for (u64 i = 0; i < BITS / 8; i++) n += u64(__builtin_popcount(map[i])); return n; }

void onSignal(int sig, siginfo_t *si, void *)
{
    Slot &s = *mine;
    s.bad = true;
    const char *name = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "CPU limit";
    strcpy(s.cls, sig == SIGPROF ? "no-progress" : "crash");
    u64 a = u64(si->si_addr);
    bool arena = (sig == SIGSEGV || sig == SIGBUS) && a >= 0x100000000000ull && a < 0x200000000000ull;
    snprintf(s.msg, sizeof s.msg, "task %d (%s on %s) operation %d: %s%s %s", s.task, s.kind, s.backend ? s.backend : "?", s.op, name,
             arena ? " on simulated memory outside every buffer" : "", s.call ? "inside " : "outside the library");
    if (s.call) strncat(s.msg, s.call, sizeof s.msg - strlen(s.msg) - 1);
    s.hash = hashStr(s.msg);
    _exit(77);
}
void installHandlers()
{
    static u8 alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int g : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF}) sigaction(g, &sa, nullptr);
}
void cpuLimit(int seconds)
{
    struct itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
int planCpu(const Plan &p) { for (auto &t : p.tasks) if (t.kind == "giant") return 400; return 40; }

// one plan in a process of its own
Verdict isolated(const Plan &p)
{
    Slot &s = sh->slot[MAXW];
    s.bad = false;
    s.cls[0] = s.msg[0] = 0;
    s.hash = 0;
    s.call = nullptr;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        mine = &s;
        counters = nullptr;
        installHandlers();
        cpuLimit(planCpu(p));
        Verdict v = judge(p);
        s.bad = v.violated;
        s.hash = v.hash;
        strncpy(s.cls, v.cls.c_str(), sizeof s.cls - 1);
        strncpy(s.msg, v.msg.c_str(), sizeof s.msg - 1);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Verdict v;
    v.violated = s.bad;
    v.cls = s.cls;
    v.msg = s.msg;
    v.hash = s.hash;
    if (WIFSIGNALED(st) && !s.bad) { v.violated = true; v.cls = "crash"; v.msg = "the process was ended by signal " + std::to_string(WTERMSIG(st)); }
    return v;
}

// ---------------------------------------------------------------- known findings

struct Known { std::string cls, text, line; };
std::vector<Known> loadKnown(const std::string &file, const std::string &prop)
{
    // finding: property=<id> class=<class> contains="<text>" <description>
    std::vector<Known> k;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("finding:", 0) != 0 || l.find("property=" + prop + " ") == std::string::npos) continue;
        Known e;
        e.line = l;
        auto c = l.find("class=");
        if (c != std::string::npos) e.cls = l.substr(c + 6, l.find(' ', c) - c - 6);
        auto q = l.find("contains=\"");
        if (q != std::string::npos) e.text = l.substr(q + 10, l.find('"', q + 10) - q - 10);
        if (!e.cls.empty() && !e.text.empty()) k.push_back(e);
    }
    return k;
}
const Known *isKnown(const std::vector<Known> &ks, const std::string &cls, const std::string &msg)
{
    for (auto &k : ks) if (k.cls == cls && msg.find(k.text) != std::string::npos) return &k;
    return nullptr;
}

// ---------------------------------------------------------------- minimisation

struct Minimiser {
    Plan best;
    std::string cls;
    double deadline;
    u64 tries = 0;
    bool out() const { return now() > deadline; }
    bool attempt(const Plan &c)
    {
        if (out()) return false;
        tries++;
        Verdict v = isolated(c);
        if (!v.violated || v.cls != cls) return false;
        best = c;
        return true;
    }
    template <class T> bool chunks(std::function<std::vector<T> &(Plan &)> get)
    {
        bool any = false;
        for (size_t n = std::max<size_t>(1, get(best).size()); n >= 1 && !out(); n /= 2) {
            for (size_t at = 0; at < get(best).size() && !out();) {
                Plan c = best;
                auto &v = get(c);
                size_t e = std::min(v.size(), at + n);
                v.erase(v.begin() + i64(at), v.begin() + i64(e));
                if (attempt(c)) any = true; else at += n;
            }
            if (n == 1) break;
        }
        return any;
    }
    void run()
    {
        for (int round = 0; round < 6 && !out(); round++) {
            bool any = false;
            for (size_t i = 0; i < best.tasks.size() && best.tasks.size() > 1;) {
                Plan c = best;
                c.tasks.erase(c.tasks.begin() + i64(i));
                std::vector<std::pair<int, int>> sl;
                for (auto s : best.slices) {
                    size_t k = size_t(s.first) % best.tasks.size();
                    if (k == i) continue;
                    sl.push_back({int(k > i ? k - 1 : k), s.second});
                }
                c.slices = sl;
                if (attempt(c)) any = true; else i++;
            }
            any |= chunks<std::pair<int, int>>([](Plan &p) -> std::vector<std::pair<int, int>> & { return p.slices; });
            for (size_t t = 0; t < best.tasks.size(); t++)
                any |= chunks<Op>([t](Plan &p) -> std::vector<Op> & { return p.tasks[t].ops; });
            for (size_t t = 0; t < best.tasks.size(); t++)
                for (size_t o = 0; o < best.tasks[t].ops.size(); o++)
                    for (size_t k = 0; k < best.tasks[t].ops[o].a.size() && !out(); k++)
                        for (int step = 0; step < 12; step++) {
                            i64 v = best.tasks[t].ops[o].a[k];
                            bool did = false;
                            for (i64 c : {i64(0), v / 2, v - v % 8, v - 1})
                                if (c != v && c >= 0 && v > 0) {
                                    Plan q = best;
                                    q.tasks[t].ops[o].a[k] = c;
                                    if (attempt(q)) { did = any = true; break; }
                                }
                            if (!did) break;
                        }
            if (!any) break;
        }
    }
};

// ---------------------------------------------------------------- the search

std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; }
        else o += char(c);
    }
    return o + "\"";
}
std::string oneLine(const std::string &s, size_t max = 700)
{
    std::string o;
    for (char c : s) o += c == '\n' ? '|' : c;
    if (o.size() > max) o = o.substr(0, max) + "...";
    return o;
}

void worker(int w, const std::string &prop, u64 base, u64 total, bool thorough, double deadline, const std::vector<Known> &known)
{
    mine = &sh->slot[w];
    counters = &mine->c;
    installHandlers();
    for (;;) {
        u64 i = sh->next++;
        if (i >= total || i > sh->best || now() > deadline) break;
        mine->index = i;
        mine->seed = base + i;
        mine->call = nullptr;
        Plan p = makePlan(prop, base + i, thorough);
        cpuLimit(planCpu(p));
        counters->runs++;
        Verdict v = judge(p);
        if (planCpu(p) > planCpu(Plan())) deadline = std::max(deadline, now() + 60);      // the ordinary runs get their time as well
        if (!v.violated) continue;
        if (isKnown(known, v.cls, v.msg)) { counters->audits++; continue; }
        mine->bad = true;
        strncpy(mine->cls, v.cls.c_str(), sizeof mine->cls - 1);
        strncpy(mine->msg, v.msg.c_str(), sizeof mine->msg - 1);
        mine->hash = v.hash;
        u64 b = sh->best;
        while (i < b && !sh->best.compare_exchange_weak(b, i)) {}
        break;
    }
    cpuLimit(0);
    _exit(0);
}

int cmdCheck(const std::string &prop, bool thorough, u64 seed, const std::string &root, double limit, u64 forced)
{
    const PropInfo *info = property(prop);
    if (!info) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    double t0 = now();
    auto known = loadKnown(root + "/known_findings.txt", prop);
    u64 total = forced ? forced : thorough ? (info->thoroughRuns ? info->thoroughRuns : info->quickRuns * 200) : info->quickRuns;
    double deadline = t0 + limit;
    u64 base = (seed & 0xffffff) * SEED_STRIDE;
    int W = int(std::min<long>(MAXW, std::max<long>(1, sysconf(_SC_NPROCESSORS_ONLN))));
    u64 unconfirmed = 0;
    bool found = false;
    Verdict v;
    Plan plan;
    u64 foundIndex = 0, minTries = 0, origOps = 0, minOps = 0;
    std::string replay;
    std::vector<std::string> unconfirmedMsgs;
    while (!found) {
        sh->best = UINT64_MAX;
        for (int w = 0; w < MAXW; w++) sh->slot[w].bad = false;
        std::map<pid_t, int> kids;
        fflush(nullptr);
        auto spawn = [&](int w) {
            pid_t pid = fork();
            if (pid == 0) worker(w, prop, base, total, thorough, deadline, known);
            kids[pid] = w;
        };
        for (int w = 0; w < W; w++) spawn(w);
        std::vector<Slot> bad;
        while (!kids.empty()) {
            int st = 0;
            pid_t pid = waitpid(-1, &st, 0);
            auto k = kids.find(pid);
            if (k == kids.end()) continue;
            int w = k->second;
            kids.erase(k);
            Slot &s = sh->slot[w];
            if (!s.bad && (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)) {
                s.bad = true;
                strcpy(s.cls, "crash");
                snprintf(s.msg, sizeof s.msg, "worker ended with status %x", st);
            }
            if (s.bad) {
                if (isKnown(known, s.cls, s.msg)) { s.c.audits++; s.bad = false; spawn(w); continue; }
                bad.push_back(s);
                u64 b = sh->best;
                while (s.index < b && !sh->best.compare_exchange_weak(b, s.index)) {}
                s.bad = false;
            }
        }
        if (bad.empty()) break;
        auto first = std::min_element(bad.begin(), bad.end(), [](const Slot &a, const Slot &b) { return a.index < b.index; });
        plan = makePlan(prop, base + first->index, thorough);
        foundIndex = first->index;
        for (int attempt = 0; attempt < 3 && !found; attempt++) {
            v = isolated(plan);
            if (v.violated) found = true;
        }
        if (!found) {
            unconfirmed++;
            unconfirmedMsgs.push_back(std::string(first->cls) + ": " + first->msg);
            fprintf(stderr, "note: run %llu reported [%s] %s, which its plan alone does not reproduce\n", (unsigned long long)first->index, first->cls, first->msg);
            if (unconfirmed > 20) break;
        }
    }
    double searched = now() - t0;
    if (found) {
        for (auto &t : plan.tasks) origOps += t.ops.size();
        Minimiser m{plan, v.cls, now() + (thorough ? 60 : 20), 0};
        m.run();
        minTries = m.tries;
        Verdict mv = isolated(m.best);
        Verdict again = isolated(m.best);
        if (mv.violated && again.violated && mv.hash == again.hash) { plan = m.best; v = mv; }
        for (auto &t : plan.tasks) minOps += t.ops.size();
        mkdir((root + "/replays").c_str(), 0777);
        replay = root + "/replays/" + prop + "-" + std::to_string(base + foundIndex) + ".plan";
        std::ofstream f(replay);
        f << "# violation of " << prop << ", found at seed " << base + foundIndex << "\n# class " << v.cls << "\n# message " << oneLine(v.msg, 1000) << "\n# hash " << v.hash << "\n" << plan.text();
        f.close();
        printf("%s: [%s] %s\n", prop.c_str(), v.cls.c_str(), v.msg.c_str());
        printf("minimised from %llu to %llu operations in %llu runs; replay with: %s/tools/check.py --replay %s\n", (unsigned long long)origOps, (unsigned long long)minOps, (unsigned long long)minTries, root.c_str(), replay.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
    }
    for (auto &k : known) printf("KNOWN-FINDING: %s\n", k.line.substr(9).c_str());
    // evidence
    Counters c{};
    for (int w = 0; w < MAXW; w++) {
        auto *a = reinterpret_cast<u64 *>(&c), *b = reinterpret_cast<u64 *>(&sh->slot[w].c);
        for (size_t i = 0; i < sizeof(Counters) / 8; i++) a[i] += b[i];
    }
    double wall = now() - t0;
    std::ostringstream e;
    e << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << c.runs << ",\n  \"distinct_nontrivial\": " << std::min(c.runs, countBits(sh->cases)) << ",\n";
    e << "  \"rule\": " << jstr("A case is one simulated execution of a seeded plan (tasks, operations, faults, schedule). It counts as distinct by the hash of the whole plan and as non-trivial if it was judged to the end, compared at least one non-empty output"
         + std::string(std::string(info->what) == "isolation" ? ", and switched tasks at least once" : std::string(info->what) == "refusal" ? ", and contained at least one forbidden call" : "") + ". Counted in a 2^24-bit table (never an over-count).") << ",\n";
    e << "  \"samples\": [";
    for (int i = 0; i < 3; i++) e << (i ? ", " : "") << jstr(oneLine(makePlan(prop, base + u64(i), thorough).text()));
    e << "],\n";
    e << "  \"seeds\": {\"first\": " << base << ", \"planned\": " << total << ", \"run\": " << c.runs << "},\n";
    e << "  \"runs_per_hour\": " << u64(double(c.runs) / std::max(0.001, searched) * 3600) << ",\n";
    e << "  \"simulated_time\": {\"library_steps\": " << c.steps << ", \"library_calls\": " << c.calls << ", \"operations\": " << c.ops << ", \"unit\": \"one step is one basic block of the library; the code reads no clock\"},\n";
    e << "  \"bytes_processed\": " << c.bytes << ",\n  \"outputs_compared\": " << c.compared << ",\n";
    e << "  \"distinct_interleavings\": " << countBits(sh->ilv) << ",\n  \"distinct_states\": " << countBits(sh->states) << ",\n";
    e << "  \"state_measure\": \"session kind x backend x operation x position in block x length class x mode; interleavings: hash of the sequence of (task, step count) at every switch\",\n";
    e << "  \"faults\": {";
    bool firstF = true;
    for (int i = 0; i < F_COUNT; i++) if (c.faults[i]) { e << (firstF ? "" : ", ") << jstr(faultNames[i]) << ": " << c.faults[i]; firstF = false; }
    e << "},\n  \"components\": {\"real\": [\"";
    if (prop == "C21") e << "the stand-alone programs: three in C inside the simulator, k12.rs inside it but not interruptible, CompactFIPS202.py, CompactFIPS202_numpy.py and KeccakSum.py in a child process";
    else {
        e << "every function of XKCP called: built from /repo for " << apis().size() << " targets (";
        for (size_t i = 0; i < apis().size(); i++) e << (i ? " " : "") << apis()[i]->name;
        e << ")";
    }
    e << "\"], \"simulated\": [\"scheduler and task stacks\", \"memory placement\", \"network, disk, file and terminal I/O around the library\"], \"stub\": []},\n";
    e << "  \"unconfirmed\": " << unconfirmed << ", \"known_findings_hit\": " << c.audits << "\n },\n";
    e << " \"assumptions\": [\"x86-64 targets this CPU can execute\", \"the reference models in sim/ref.cpp are right\", \"assembly kernels are preempted only at their call boundaries\"],\n";
    e << " \"wall_s\": " << wall << ",\n \"violations\": " << (found ? 1 : 0) << "\n}\n";
    mkdir((root + "/evidence").c_str(), 0777);
    std::ofstream f(root + "/evidence/" + prop + ".json");
    f << e.str();
    f.close();
    printf("%s: %llu runs (%llu distinct, non-trivial) in %.1f s, %llu library calls, %llu steps, %llu outputs compared, %llu states, %llu interleavings%s\n", prop.c_str(),
           (unsigned long long)c.runs, (unsigned long long)countBits(sh->cases), wall, (unsigned long long)c.calls, (unsigned long long)c.steps, (unsigned long long)c.compared,
           (unsigned long long)countBits(sh->states), (unsigned long long)countBits(sh->ilv), found ? "; VIOLATED" : "");
    return found ? 1 : 0;
}

int cmdReplay(const std::string &file)
{
    std::ifstream f(file);
    std::stringstream b;
    b << f.rdbuf();
    Plan p;
    if (!f || !Plan::parse(b.str(), p)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    Verdict v = isolated(p);
    std::istringstream l(b.str());
    std::string line, want;
    while (std::getline(l, line)) if (line.rfind("# hash ", 0) == 0) want = line.substr(7);
    if (!v.violated) { printf("no violation\n"); return 0; }
    printf("[%s] %s\nhash %llu%s\n", v.cls.c_str(), v.msg.c_str(), (unsigned long long)v.hash, want.empty() ? "" : want == std::to_string(v.hash) ? ", as recorded" : ", but the file records another");
    printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file.c_str());
    return 1;
}
}

void noteState(u64 h) { if (sh && counters) setBit(sh->states, h); }
void noteCase(u64 h) { if (sh && counters) setBit(sh->cases, h); }
void noteInterleaving(u64 h) { if (sh && counters) setBit(sh->ilv, h); }
void noteCall(const Task *t)
{
    if (!mine) return;
    if (!t) { mine->call = nullptr; return; }
    mine->call = t->callName;
    mine->task = t->idx;
    mine->op = t->opIndex;
    mine->backend = t->A ? t->A->name.c_str() : nullptr;
    strncpy(mine->kind, t->p.kind.c_str(), sizeof mine->kind - 1);
}

std::string buildDir;

int main(int argc, char **argv)
{
    // the same addresses in every process
    if (!getenv("SIM_FIXED")) {
        setenv("SIM_FIXED", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::vector<std::string> a(argv + 1, argv + argc);
    auto opt = [&](const char *n, const char *d) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == n) return a[i + 1]; return std::string(d); };
    if (a.empty()) return 2;
    std::string build = buildDir = opt("--build", "/verif/build"), root = opt("--root", "/verif"), err;
    sh = static_cast<SharedMem *>(mmap(nullptr, sizeof(SharedMem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    if (!loadApis(build, err)) { fprintf(stderr, "%s\n", err.c_str()); return 2; }
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (a[0] == "check" && a.size() > 1)
        return cmdCheck(a[1], opt("--tier", "quick") == "thorough", strtoull(opt("--seed", "1").c_str(), nullptr, 10), root, atof(opt("--limit", "60").c_str()), strtoull(opt("--runs", "0").c_str(), nullptr, 10));
    if (a[0] == "replay" && a.size() > 1) return cmdReplay(a[1]);
    if (a[0] == "plan" && a.size() > 2) { printf("%s", makePlan(a[1], strtoull(a[2].c_str(), nullptr, 10), opt("--tier", "quick") == "thorough").text().c_str()); return 0; }
    if (a[0] == "list") { for (auto &p : properties()) printf("%s\n", p.id.c_str()); return 0; }
    // run a plan in this very process, for a debugger
    if (a[0] == "debug" && a.size() > 1) {
        std::ifstream f(a[1]);
        std::stringstream b;
        b << f.rdbuf();
        Plan p;
        if (!Plan::parse(b.str(), p)) return 2;
        Verdict v = judge(p);
        printf("%d [%s] %s\n", v.violated, v.cls.c_str(), v.msg.c_str());
        return v.violated;
    }
    return 2;
}

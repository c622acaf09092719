// Plans of each property, and how a plan is judged.
#include "runner.hpp"
#include <algorithm>
#include <dlfcn.h>

const std::vector<PropInfo> &properties()
{
    static const std::vector<std::string> every = {"sponge", "hash", "turbo", "cshake", "kmac", "tuple", "phash", "kt", "duplex", "prg",
                                                   "kravatte", "xoofff", "sane", "sanse", "wbc", "xoodyak", "xlink"};
    static std::vector<std::string> all = every;
    static const std::vector<std::string> snp = {"snp", "plsnp"};
    static std::vector<std::string> withSnp = [] { auto v = every; v.insert(v.end(), snp.begin(), snp.end()); return v; }();
    static const std::vector<PropInfo> v = {
        {"C01", {"sponge", "hash"}, 140000, 0, "model"},
        {"C02", {"turbo"}, 360000, 0, "model"},
        {"C03", {"cshake", "kmac", "tuple", "phash"}, 40000, 0, "model"},
        {"C04", {"kt"}, 24000, 0, "model"},
        {"C05", {"duplex"}, 1000000, 0, "model"},
        {"C06", {"prg"}, 300000, 0, "model"},
        {"C07", {"kravatte"}, 200000, 0, "model"},
        {"C08", {"xoofff"}, 1000000, 0, "model"},
        {"C09", {"sane"}, 200000, 0, "model"},
        {"C10", {"sanse"}, 150000, 0, "model"},
        {"C11", {"wbc"}, 150000, 0, "model"},
        {"C12", {"xoodyak", "xlink"}, 1000000, 0, "model"},
        {"C13", all, 120000, 0, "refusal"},
        {"C14", withSnp, 40000, 0, "isolation"},
        {"C15", withSnp, 90000, 0, "crash"},
        {"C16", withSnp, 9000, 0, "backends"},
        {"C17", withSnp, 80000, 0, "memory"},
        {"C18", snp, 300000, 0, "model"},
        {"C19", {"ksum"}, 100000, 0, "model"},
        {"C20", withSnp, 60000, 0, "timing"},
        {"C21", {"alone"}, 40000, 0, "model"},
        {"C22", withSnp, 60000, 0, "builds"},
    };
    return v;
}
const PropInfo *property(const std::string &id)
{
    for (auto &p : properties()) if (p.id == id) return &p;
    return nullptr;
}

static i64 logUniform(Rng &r, int maxBits)
{
    int b = int(r.below(u64(maxBits))) + 1;
    return 1 + i64(r.below(1ull << b));
}

static void addFaults(Rng &r, TaskPlan &t, unsigned num, unsigned den, bool crashes)
{
    std::vector<Op> ops;
    for (auto &o : t.ops) {
        if (r.chance(num, den)) ops.push_back(mk("ckpt", {}));
        if (r.chance(num, den)) ops.push_back(mk("reloc", {}));
        if (crashes && r.chance(num, den)) ops.push_back(mk("crash", {logUniform(r, 15)}));
        ops.push_back(o);
        if (r.chance(num, den)) ops.push_back(mk("restore", {}));
    }
    t.ops.swap(ops);
}

// the reference implementations are much slower than the others: they get fewer turns
static const Api *pickApi(Rng &r)
{
    const Api *a = r.pick(apis());
    if (a->name.rfind("reference", 0) == 0 && r.chance(2, 3)) a = r.pick(apis());
    return a;
}

// the first runs of some properties stream more than 4 GiB
static bool giantPlan(Plan &p, Rng &r, u64 index, bool thorough)
{
    // algorithm, way, as in s_giant.cpp
    static const std::map<std::string, std::vector<std::pair<int, int>>> ways = {
        {"C01", {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}, {1, 2}, {0, 3}, {1, 3}}},
        {"C02", {{2, 0}, {2, 1}, {2, 2}, {2, 3}}},
        {"C03", {{3, 0}, {4, 0}, {5, 0}, {6, 0}, {6, 10}, {6, 2}, {4, 2}, {3, 2}, {3, 1}, {4, 1}, {6, 1}, {5, 1}, {3, 3}}},
        {"C04", {{7, 0}, {7, 2}, {7, 4}, {7, 1}, {7, 3}}},
        {"C07", {{8, 0}, {8, 1}, {8, 0}, {8, 1}}},
        {"C08", {{9, 0}, {9, 1}, {9, 0}, {9, 1}}},
        {"C09", {{100, 0}, {104, 0}, {100, 1}, {104, 1}}},
        {"C10", {{101, 0}, {105, 0}, {101, 1}, {105, 1}}},
        {"C11", {{102, 0}, {106, 0}, {103, 0}, {107, 0}}},
    };
    auto w = ways.find(p.prop);
    if (w == ways.end()) return false;
    u64 n = w->second.size();
    if (index >= (thorough ? 4 * n : std::min<u64>(n, 8))) return false;
    auto [alg, way] = w->second[index % n];
    bool manyBlocks = way == 10;
    if (manyBlocks) way = 0;
    TaskPlan t;
    t.kind = "giant";
    std::vector<std::string> fast;
    for (auto b : {"AVX512", "AVX512noAsm", "AVX2", "generic64"}) if (apiByName(b)) fast.push_back(b);
    if (fast.empty()) for (auto a : apis()) fast.push_back(a->name);
    t.backend = r.pick(fast);
    t.backend2 = r.pick(fast);
    i64 bytes = ((index < n ? 4ll : i64(r.pick({2, 4, 5}))) << 30) + (r.chance(2, 3) ? r.range(0, 24) : r.range(0, 1 << 20));   // what is left of the length after truncation matters
    if (manyBlocks) bytes = (i64(136) << 20) + r.range(0, 100);
    if (alg >= 100) t.ops.push_back(mk("sealed", {alg - 100, (i64(512) << 20) + (r.chance(2, 3) ? r.range(0, 24) : r.range(4096, 1 << 18)), i64(r.dseed()), way}));
    else t.ops.push_back(mk("giant", {alg, way, bytes, i64(r.dseed()), r.range(0, 1), manyBlocks ? 3 : r.range(12, 16)}));
    p.tasks.push_back(t);
    return true;
}

Plan makePlan(const std::string &prop, u64 seed, bool thorough)
{
    const PropInfo &info = *property(prop);
    Plan p;
    p.prop = prop;
    p.seed = seed;
    Rng r(mix(seed * 0x9e3779b97f4a7c15ull ^ hashStr(prop)));
    if (giantPlan(p, r, seed % SEED_STRIDE, thorough)) return p;
    std::string what = info.what;
    std::vector<std::string> avail;
    for (auto &k : info.kinds) if (kinds().count(k)) avail.push_back(k);
    int n = 1;
    if (what == "model") n = int(r.pick({1, 1, 2, 3}));
    else if (what == "isolation") n = int(r.range(2, 5));
    else if (what != "timing") n = int(r.pick({1, 1, 2}));
    const Api *common = pickApi(r);
    for (int i = 0; i < n; i++) {
        TaskPlan t;
        t.kind = r.pick(avail);
        const Api *a = what == "isolation" && !r.chance(1, 8) ? common : pickApi(r);
        t.backend = a->name;
        t.backend2 = r.chance(1, 2) ? a->name : pickApi(r)->name;
        if (what == "isolation" && i > 0 && r.chance(1, 2)) t.kind = p.tasks[0].kind;
        GenCtx g{r};
        g.misuse = what == "refusal" || ((what == "backends" || what == "builds") && r.chance(1, 5));
        g.big = r.chance(1, thorough ? 4 : 12);
        g.ops = int(r.pick({2, 4, 6, 12}));
        r.wide = what != "timing" && r.chance(1, thorough ? 20 : 50);
        if (thorough && r.chance(1, 6)) g.ops *= 4;
        if (what != "timing" && !r.wide && !g.big && r.chance(1, thorough ? 100 : 250)) g.ops = 300;      // a long history
        kinds().at(t.kind).gen(g, t);
        if (what == "model" && r.chance(1, 2)) addFaults(r, t, 1, unsigned(r.pick({4, 8, 16})), true);
        if (what == "crash") addFaults(r, t, 1, unsigned(r.pick({2, 3, 6})), true);
        if (what == "timing" && r.chance(1, 4)) addFaults(r, t, 1, 6, false);
        if (what == "memory" && r.chance(1, 4)) addFaults(r, t, 1, 6, false);
        if (what == "isolation" && r.chance(1, 4)) addFaults(r, t, 1, 8, true);
        p.tasks.push_back(std::move(t));
    }
    if (n > 1) {
        int slices = int(what == "isolation" ? r.range(10, 300) : r.range(0, 40));
        int style = int(r.below(4));
        for (int k = 0; k < slices; k++) {
            int q;
            if (what == "isolation" && style != 3) q = int(style == 0 ? logUniform(r, 6) : style == 1 ? logUniform(r, 13) : r.chance(1, 3) ? -r.range(1, 3) : logUniform(r, 10));
            else q = r.chance(1, 4) ? int(logUniform(r, 12)) : -int(r.range(1, 4));
            p.slices.push_back({int(r.below(u64(n))), q});
        }
    }
    return p;
}

// ---------------------------------------------------------------- judging

static Verdict of(const Outcome &o)
{
    Verdict v;
    v.violated = o.violated;
    v.cls = o.v.cls;
    v.msg = o.v.msg;
    v.hash = o.hash;
    return v;
}

// the same transcript, task by task?  Forbidden operations are left out of the comparison.
static bool compareLogs(const Plan &p, const Outcome &x, const Outcome &y, const char *xn, const char *yn, Verdict &v, int only = -1, bool forbidden = false)
{
    for (size_t t = 0; t < p.tasks.size(); t++) {
        if (only >= 0 && int(t) != only) continue;
        auto pick = [&](const Outcome &o) {
            std::vector<const Entry *> e;
            for (auto &q : o.logs[t]) if (forbidden || p.tasks[t].ops[size_t(q.op)].c[0] != '!') e.push_back(&q);
            return e;
        };
        auto a = pick(x), b = pick(y);
        for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
            bool same = i < a.size() && i < b.size() && a[i]->op == b[i]->op && a[i]->label == b[i]->label && a[i]->hash == b[i]->hash && a[i]->n == b[i]->n;
            if (same) continue;
            const Entry *e = i < a.size() ? a[i] : b[i];
            std::string op = p.tasks[t].ops[size_t(e->op)].c;
            for (auto q : p.tasks[t].ops[size_t(e->op)].a) op += " " + std::to_string(q);
            v.violated = true;
            v.cls = "transcripts-differ";
            v.msg = "task " + std::to_string(t) + " (" + p.tasks[t].kind + " on " + p.tasks[t].backend + ") operation " + std::to_string(e->op) + " [" + op + "]: " + e->label
                    + " (" + std::to_string(e->n) + " bytes) differs between " + xn + " and " + yn;
            v.hash = mix(x.hash ^ mix(y.hash));
            return false;
        }
    }
    return true;
}
static std::string placeName(u64 pc)
{
    Dl_info i;
    if (!dladdr(reinterpret_cast<void *>(pc), &i) || !i.dli_fname) return "?";
    std::string f = i.dli_fname;
    char t[64];
    snprintf(t, sizeof t, "+0x%llx", (unsigned long long)(pc - 1 - reinterpret_cast<u64>(i.dli_fbase)));
    return f.substr(f.rfind('/') + 1) + t + (i.dli_sname ? std::string(" near ") + i.dli_sname : "");
}
// the same trace of every call?  Whether a message is accepted is public: once the answers differ, nothing more is compared.
static void compareTraces(const Plan &p, const Mode &m, const Mode &s, const Outcome &x, const Outcome &y, Verdict &v)
{
    auto isRc = [](const Entry &e) { return e.label.size() > 3 && e.label.compare(e.label.size() - 3, 3, ".rc") == 0; };
    for (size_t t = 0; t < p.tasks.size(); t++) {
        auto &a = x.logs[t], &b = y.logs[t];
        for (size_t i = 0; i < std::min(a.size(), b.size()); i++) {
            if (a[i].op != b[i].op || a[i].label != b[i].label || a[i].known != b[i].known) break;
            if (isRc(a[i]) && a[i].hash != b[i].hash) break;
            if (a[i].label.compare(0, 9, "trace of ") || (a[i].hash == b[i].hash && a[i].n == b[i].n)) continue;
            if (i + 1 == std::min(a.size(), b.size())) { if (x.violated || y.violated) break; }
            else if (isRc(a[i + 1]) != isRc(b[i + 1]) || (isRc(a[i + 1]) && a[i + 1].hash != b[i + 1].hash)) break;
            v.violated = true;
            v.cls = "trace-depends-on-data";
            std::string op = p.tasks[t].ops[size_t(a[i].op)].c, where;
            for (auto q : p.tasks[t].ops[size_t(a[i].op)].a) op += " " + std::to_string(q);
            Mode r = m;
            r.recordTask = int(t);
            r.recordCall = a[i].call;
            simulate(p, r);
            auto one = std::move(recorded);
            r = s;
            r.recordTask = int(t);
            r.recordCall = b[i].call;
            simulate(p, r);
            size_t k = 0;
            while (k < one.size() && k < recorded.size() && one[k] == recorded[k]) k++;
            if (k < one.size() && k < recorded.size())
                where = std::string(one[k].pc == recorded[k].pc ? "another address at " : "another way after ") + placeName(one[k].pc == recorded[k].pc || !k ? one[k].pc : one[k - 1].pc);
            else where = "one ends earlier";
            v.msg = "task " + std::to_string(t) + " (" + p.tasks[t].kind + " on " + p.tasks[t].backend + ") operation " + std::to_string(a[i].op) + " [" + op + "]: the control flow or the addresses of "
                    + a[i].label.substr(9) + " depend on the data: " + std::to_string(a[i].n) + " and " + std::to_string(b[i].n) + " events, the first difference at event " + std::to_string(k) + ": " + where;
            return;
        }
    }
}
static Outcome tagged(Outcome o, const char *when)
{
    if (o.violated) o.v.msg = std::string(when) + ": " + o.v.msg;
    return o;
}

Verdict judge(const Plan &p)
{
    const PropInfo *info = property(p.prop);
    std::string what = info ? info->what : "model";
    Verdict v;
    Mode m;
    if (what == "model") {
        m.misuse = false;
        if (p.prop == "C21" && p.seed % 3) {     // two runs in three with guard pages, on either side
            m.hostile = true;
            m.placement = int(p.seed % 3 - 1);
            m.fillSeed = 3 + p.seed % 1000;
        }
        auto o = simulate(p, m);
        noteInterleaving(o.interleaving);
        if (o.compared) noteCase(p.hash());
        return of(o);
    }
    m.model = false;
    if (what == "refusal") {
        auto bad = tagged(simulate(p, m), "with forbidden calls");
        if (bad.violated) return of(bad);
        m.misuse = false;
        auto good = tagged(simulate(p, m), "without forbidden calls");
        if (good.violated) return of(good);
        noteInterleaving(bad.interleaving);
        v.hash = mix(bad.hash ^ mix(good.hash));
        bool any = false;
        for (auto &t : p.tasks) for (auto &o : t.ops) any |= o.c[0] == '!';
        if (any && good.compared) noteCase(p.hash());
        compareLogs(p, bad, good, "the run with forbidden calls", "the run without them", v);
        return v;
    }
    m.misuse = false;
    if (what == "isolation") {
        auto together = tagged(simulate(p, m), "interleaved");
        if (together.violated) {
            // alone as well?  then it is not a matter of isolation, but it is broken all the same
            return of(together);
        }
        noteInterleaving(together.interleaving);
        v.hash = together.hash;
        Mode s = m;
        s.solo = true;
        for (size_t i = 0; i < p.tasks.size(); i++) {
            s.only = int(i);
            auto alone = tagged(simulate(p, s), "alone");
            if (alone.violated) return of(alone);
            v.hash = mix(v.hash ^ alone.hash);
            if (!compareLogs(p, together, alone, "the interleaved run", "running alone", v, int(i))) return v;
        }
        if (together.switches && together.compared) noteCase(p.hash());
        return v;
    }
    if (what == "crash") {
        m.fillSeed = 1 + p.seed % 1000;
        auto faulty = tagged(simulate(p, m), "with crashes");
        if (faulty.violated) return of(faulty);
        Mode s = m;
        s.faults = false;
        s.fillSeed = 0;
        auto clean = tagged(simulate(p, s), "without crashes");
        if (clean.violated) return of(clean);
        noteInterleaving(faulty.interleaving);
        if (clean.compared) noteCase(p.hash());
        v.hash = mix(faulty.hash ^ mix(clean.hash));
        compareLogs(p, faulty, clean, "the run with crashes, relocations and garbage memory", "the undisturbed run", v);
        return v;
    }
    if (what == "backends" || what == "builds") {
        m.misuse = m.observe = true;
        bool links = false;
        for (auto &t : p.tasks) links |= t.backend2 != t.backend;
        std::vector<std::string> bs;
        for (auto a : apis()) bs.push_back(a->name);
        if (what == "builds") {
            // the first one, which is a target of the project, and a few custom builds
            Rng r(mix(p.seed) + 22);
            for (size_t i = bs.size() - 1; i > 1; i--) std::swap(bs[i], bs[1 + r.below(i)]);
            bs.resize(std::min<size_t>(bs.size(), 5));
        }
        Outcome first;
        for (size_t i = 0; i < bs.size(); i++) {
            m.backend = bs[i];
            auto o = tagged(simulate(p, m), bs[i].c_str());
            if (o.violated) return of(o);
            v.hash = mix(v.hash ^ o.hash);
            if (i == 0) { first = std::move(o); continue; }
            if (!compareLogs(p, o, first, bs[i].c_str(), bs[0].c_str(), v, -1, true)) { v.msg += " [backend " + bs[i] + "]"; return v; }
        }
        if (links) {
            m.backend.clear();
            auto o = tagged(simulate(p, m), "mixed backends");
            if (o.violated) return of(o);
            v.hash = mix(v.hash ^ o.hash);
            if (!compareLogs(p, o, first, "mixed backends", bs[0].c_str(), v, -1, true)) return v;
        }
        if (first.compared) noteCase(p.hash());
        noteInterleaving(first.interleaving);
        return v;
    }
    if (what == "timing") {
        m.trace = m.solo = m.observe = true;
        auto first = simulate(p, m);
        Mode s = m;
        s.salt = 1 + p.seed;
        auto second = simulate(p, s);
        // a violation of another kind is the business of another property
        if (first.compared) noteCase(p.hash());
        v.hash = mix(first.hash ^ mix(second.hash));
        compareTraces(p, m, s, first, second, v);
        return v;
    }
    if (what == "memory") {
        m.hostile = true;
        m.fillSeed = 3 + p.seed % 1000;
        auto right = tagged(simulate(p, m), "buffers ending at inaccessible memory");
        if (right.violated) return of(right);
        m.placement = 1;
        m.fillSeed += 5000;
        auto left = tagged(simulate(p, m), "buffers starting after inaccessible memory");
        if (left.violated) return of(left);
        v.hash = mix(right.hash ^ mix(left.hash));
        noteInterleaving(right.interleaving);
        if (right.compared) noteCase(p.hash());
        compareLogs(p, right, left, "one placement of the buffers", "another", v);
        return v;
    }
    v.violated = true;
    v.cls = "plan";
    v.msg = "unknown property";
    return v;
}

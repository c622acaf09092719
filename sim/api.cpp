#include "api.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <fstream>
#include <link.h>
#include <sstream>

static std::vector<Api *> all;
const std::vector<Api *> &apis() { return all; }
const Api *apiByName(const std::string &n)
{
    for (auto a : all) if (a->name == n) return a;
    return nullptr;
}

template <class T> static bool sym(void *h, const std::string &n, T &out)
{
    out = reinterpret_cast<T>(dlsym(h, n.c_str()));
    return out != nullptr;
}
static bool size(void *h, const std::string &n, Size &s)
{
    auto p = static_cast<const unsigned long *>(dlsym(h, ("sim_sz_" + n).c_str()));
    if (!p) return false;
    s.size = p[0];
    s.align = p[1];
    return true;
}

// a function the target's headers offer
template<class F> static void offered(void *h, const std::string &n, F &f, const std::string &suffix = "")
{
    if (dlsym(h, ("sim_has_" + n).c_str())) sym(h, n + suffix, f);
}

static void loadSnp(void *h, Snp &s, const std::string &fn, const std::string &sh, unsigned width, unsigned par)
{
    s.width = width;
    s.lane = width == 200 ? 8 : 4;
    s.par = par;
    if (!size(h, sh, s.sz)) return;
    s.present = true;
    sym(h, "shim_" + sh + "_StaticInitialize", s.StaticInitialize);
    if (par == 1) {
        sym(h, fn + "_Initialize", s.Initialize);
        sym(h, "shim_" + sh + "_AddByte", s.AddByte1);
        sym(h, fn + "_AddBytes", s.AddBytes1);
        sym(h, fn + "_OverwriteBytes", s.OverwriteBytes1);
        sym(h, fn + "_OverwriteWithZeroes", s.OverwriteWithZeroes1);
        sym(h, fn + "_ExtractBytes", s.ExtractBytes1);
        sym(h, fn + "_ExtractAndAddBytes", s.ExtractAndAddBytes1);
        sym(h, fn + "_Permute_Nrounds", s.Permute_Nrounds);
        offered(h, "KeccakF1600_FastLoop", s.FastLoop1[0], "_Absorb");
        offered(h, "KeccakP1600_12rounds_FastLoop", s.FastLoop1[1], "_Absorb");
        if (width != 200) s.FastLoop1[0] = s.FastLoop1[1] = nullptr;
    }
    else {
        sym(h, fn + "_InitializeAll", s.Initialize);
        sym(h, "shim_" + sh + "_AddByte", s.AddByte);
        sym(h, fn + "_AddBytes", s.AddBytes);
        sym(h, fn + "_OverwriteBytes", s.OverwriteBytes);
        sym(h, fn + "_OverwriteWithZeroes", s.OverwriteWithZeroes);
        sym(h, fn + "_ExtractBytes", s.ExtractBytes);
        sym(h, fn + "_ExtractAndAddBytes", s.ExtractAndAddBytes);
        sym(h, fn + "_AddLanesAll", s.AddLanesAll);
        sym(h, fn + "_OverwriteLanesAll", s.OverwriteLanesAll);
        sym(h, fn + "_ExtractLanesAll", s.ExtractLanesAll);
        sym(h, fn + "_ExtractAndAddLanesAll", s.ExtractAndAddLanesAll);
        if (width == 200) {
            offered(h, "KeccakF1600times" + std::to_string(par) + "_FastLoop", s.FastLoop[0], "_Absorb");
            offered(h, fn + "_12rounds_FastLoop", s.FastLoop[1], "_Absorb");
            offered(h, fn + "_KT128ProcessLeaves", s.ProcessLeaves[0]);
            offered(h, fn + "_KT256ProcessLeaves", s.ProcessLeaves[1]);
        }
    }
    for (unsigned r : {4u, 6u, 12u, 24u}) {
        void (*f)(void *);
        if (sym(h, fn + (par == 1 ? "_Permute_" : "_PermuteAll_") + std::to_string(r) + "rounds", f)) s.perms.push_back({r, f});
    }
}

bool inBackend(const void *p)
{
    static const Api *last = nullptr;
    u64 a = reinterpret_cast<u64>(p);
    if (last && a - last->lo < last->hi - last->lo) return true;
    for (auto q : all) if (a - q->lo < q->hi - q->lo) { last = q; return true; }
    return false;
}

void Api::restorePristine() const
{
    for (auto &s : data)
        if (memcmp(s.p, s.pristine.data(), s.n)) memcpy(s.p, s.pristine.data(), s.n);
}

static void segments(Api &a)
{
    struct link_map *lm = nullptr;
    if (dlinfo(a.handle, RTLD_DI_LINKMAP, &lm) || !lm) return;
    std::pair<Api *, struct link_map *> arg(&a, lm);
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) {
        auto &q = *static_cast<std::pair<Api *, struct link_map *> *>(p);
        if (i->dlpi_addr != q.second->l_addr) return 0;
        u8 *ro = nullptr, *roEnd = nullptr;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
                ro = reinterpret_cast<u8 *>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
                roEnd = ro + i->dlpi_phdr[k].p_memsz;
            }
        for (int k = 0; k < i->dlpi_phnum; k++) {
            auto &ph = i->dlpi_phdr[k];
            if (ph.p_type != PT_LOAD) continue;
            u64 from = i->dlpi_addr + ph.p_vaddr, to = from + ph.p_memsz;
            q.first->lo = q.first->lo ? std::min(q.first->lo, from) : from;
            q.first->hi = std::max(q.first->hi, to);
            if (!(ph.p_flags & PF_W)) continue;
            u8 *b = reinterpret_cast<u8 *>(i->dlpi_addr + ph.p_vaddr), *e = b + ph.p_memsz;
            if (ro && b >= ro && b < roEnd) b = std::min(e, roEnd);   // read-only after relocation
            if (b < e) q.first->data.push_back({b, size_t(e - b), Bytes(b, e)});
        }
        return 1;
    }, &arg);
}

bool loadApis(const std::string &dir, std::string &error)
{
    std::ifstream f(dir + "/targets.txt");
    std::string t;
    while (f >> t) {
        auto *a = new Api;
        a->name = t;
        a->handle = dlopen((dir + "/backend_" + t + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!a->handle) { error = dlerror(); return false; }
        void *h = a->handle;
        std::string missing;
#define F(r, n, args) if (!sym(h, #n, a->n)) missing += " " #n;
        API_HIGH(F)
#undef F
#define F(n) if (!size(h, #n, a->sz_##n)) missing += " sizeof " #n;
        API_SIZES(F)
#undef F
        if (!missing.empty()) { error = t + " lacks" + missing; return false; }
        loadSnp(h, a->snp[0], "KeccakP1600", "K1600", 200, 1);
        loadSnp(h, a->snp[1], "KeccakP1600times2", "K1600x2", 200, 2);
        loadSnp(h, a->snp[2], "KeccakP1600times4", "K1600x4", 200, 4);
        loadSnp(h, a->snp[3], "KeccakP1600times8", "K1600x8", 200, 8);
        loadSnp(h, a->xoo[0], "Xoodoo", "Xoodoo", 48, 1);
        loadSnp(h, a->xoo[1], "Xoodootimes4", "Xoodoox4", 48, 4);
        loadSnp(h, a->xoo[2], "Xoodootimes8", "Xoodoox8", 48, 8);
        loadSnp(h, a->xoo[3], "Xoodootimes16", "Xoodoox16", 48, 16);
        sym(h, "KeccakSum_main", a->KeccakSum_main);
        segments(*a);
        all.push_back(a);
    }
    if (all.empty()) error = "no targets";
    return !all.empty();
}

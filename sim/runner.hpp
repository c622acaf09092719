#pragma once
#include "core.hpp"
// remembered in shared memory, so that the parent knows where a child died
void noteCall(const Task *t);

struct Verdict {
    bool violated = false;
    std::string cls, msg;
    u64 hash = 0;                 // of everything observed
};
const u64 SEED_STRIDE = 1000000007ull;      // between the seeds of one VERIF_SEED and the next
struct PropInfo {
    std::string id;
    std::vector<std::string> kinds;
    u64 quickRuns, thoroughRuns;
    const char *what;             // how a run decides the property
};
const std::vector<PropInfo> &properties();
const PropInfo *property(const std::string &id);
Plan makePlan(const std::string &prop, u64 seed, bool thorough);
Verdict judge(const Plan &p);

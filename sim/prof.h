// One simulated run: its profile, its life cycle and its end checks.
#pragma once
#include "gen.h"

struct Cfg {
    Prof p;
    int epochs = 1;              // TEE power cycles
    int phases = 1;              // concurrent phases per epoch
    bool cold = false;           // first use is concurrent too
    bool rename = false;         // ... and another application may take the place of one that ended
    bool exits = false;          // processes exit or crash while their threads and others work
    bool power = false;          // power cuts in the middle of a phase
    unsigned fmask = 0, fnum = 0, fden = 1, fmax = 0;     // seeded faults while threads run
    bool sweep = false;          // every single-fault position of operations, then the same operation undisturbed
    bool scan = false;           // look for key bytes
    bool capacity = false;
    unsigned fill = 0;           // chance in 1000: see how many handles there is room for at the end
    unsigned crowd = 0;          // chance in 1000: fill a store nearly before the threads start
    int keystore = 0;            // 1: faults while root keys load
    bool raw = false;            // hostile commands
    bool seq_only = false;
    unsigned alt_fibers = 0;
};
bool prof_make(const char* prop, uint64_t seed, Rng& r, Cfg& c);
void run_begin(const char* prop, uint64_t seed);
void run_body(const char* prop, uint64_t seed);      // violation() or returns
void run_clear();                                     // after a run inside the zygote
extern std::set<std::array<int, 3>> skip_ops;         // (phase, worker, index)
bool keystore_extract(const Bytes& p12, Bytes& root, Bytes& common, uint64_t& id);
Bytes keystore_make(const Bytes& root, const Bytes& common, uint64_t id, int order);
void keystore_prepare();

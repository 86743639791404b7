// Deterministic runtime: fibers, seeded scheduler, seams, faults, tracked heap.
#pragma once
#include <array>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include "sa_types.h"

typedef std::vector<uint8_t> Bytes;

#define MAXF 12   // fibers alive at once
#define NPROC 4   // client processes (library copies)

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t next() { uint64_t r = mix(s); s += 0x9e3779b97f4a7c15ULL; return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    Bytes bytes(size_t n) { Bytes b(n); for (auto& x : b) x = (uint8_t) (next() >> 24); return b; }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
    const uint8_t* b = (const uint8_t*) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
    return h;
}
inline uint64_t fnv(const Bytes& b, uint64_t h = 0xcbf29ce484222325ULL) { return fnv(b.data(), b.size(), h); }
inline uint64_t hcomb(uint64_t a, uint64_t b) { return Rng::mix(a ^ (b * 0x9e3779b97f4a7c15ULL)); }

// fault kinds
enum FaultKind {
    FK_NONE = 0, FK_ALLOC, FK_RNG, FK_MTXINIT, FK_OSSL, FK_FOPEN, FK_FREAD, FK_FTRUNC, FK_FCORRUPT, FK_ATEXIT,
    FK_CLALLOC, FK_VIDEO, FK_UUID, FK_TACRASH, FK_PROCCRASH, FK_PROCEXIT, FK_CORRUPT, FK_MUTATE, FK_CLOCK, FK_OUTPUT, FK_RNGPART, FK_SVPALLOC,
    FK_MAX
};
extern const char* const fault_kind_names[FK_MAX];

struct RngReq { uint64_t op; Bytes out; bool failed; bool internal; };

// the op a fiber is currently executing (driver level)
struct OpCtx {
    uint64_t id = 0;            // unique in the run, in start order
    int fiber = 0, index = 0;
    bool active = false;
    unsigned faults = 0;        // faults injected into it
    unsigned fault_mask = 0;
    unsigned env_lo = 0, env_hi = 0;
    std::vector<Bytes> rng;     // successful requests to the entropy source
    std::vector<Bytes> rng_internal;
    bool secret_rng = false;    // what it takes from the entropy source becomes key material
    bool wraps = false;         // makes or exports keys: what it encrypts in the TEE is wrapped keys
    bool digest_mac = false;    // may key its MAC with a digest (SHA-384) of a key, which is not secret
    void* svp_mem = nullptr;    // SVP memory last given out inside it
};

enum FState { F_READY, F_BLOCKED, F_DONE };

struct Fiber {
    int id = -1, proc = 0;
    FState st = F_DONE;
    void* sp = nullptr;
    uint8_t* stack = nullptr;
    size_t stack_size = 0;
    std::function<void()> fn;
    void* fake = nullptr;
    uint64_t points = 0, next_pp = ~0ULL, sites = 0;
    int nopreempt = 0;
    void* wait_obj = nullptr;
    uint64_t sleeps = 0;
    int prio = 0;
    int in_once = 0, in_ta = 0;
    bool kill = false;
    OpCtx* op = nullptr;
    int err = 0;
    int in_prov = 0;           // inside a call of the OpenSSL provider
    int nofault = 0;           // no failures are injected here
    int big_want = 0;          // also ask for more random bytes than an int can count
    bool big = false;
    size_t big_got = 0;
    int in_ctl = 0;            // opening or closing a session
    bool alt = false;          // calls of this fiber come from another TA identity
    sa_uuid alt_uuid{};
    uint32_t gen = 0;
    std::array<uint32_t, MAXF + 1> vc{};
};

struct Preempt { int from; uint64_t at; int to; };
struct FaultRec { int fiber; uint64_t site; int kind; uint64_t arg; };

enum PolicyKind { P_SEQ = 0, P_GEO, P_SYNC, P_PCT, P_MIX, P_MAX };
struct Policy {
    int kind = P_SEQ;
    uint64_t mean = 100;      // geometric quantum
    unsigned sync_p = 0;      // per 1000, at synchronisation points
    unsigned watch_p = 0;     // per 1000, at loads of watched (shared command) memory
    unsigned pct_depth = 3;
    uint64_t pct_len = 20000;
};

struct FaultPlan {
    // seeded mode: every eligible site of these kinds fails with probability num/den, at most max times in the run
    unsigned mask = 0;        // bit per FaultKind
    unsigned num = 0, den = 1;
    unsigned max = 0;
    // single-site mode: the k-th eligible site counted from arming
    bool nth = false;
    uint64_t nth_left = 0;
};

struct Env { int64_t time; uint32_t analog_unprotected, analog_cgmsa, digital_unprotected, hdcp14, hdcp22; bool svp; };

struct Blk { size_t size; uint64_t op; uint64_t seq; int side; int fiber; const char* what; void* pc; int proc; };

struct Shared {  // result of one run, in memory shared with the worker
    int state;               // 0 nothing, 1 ok, 2 violation, 3 internal error
    char cls[96];
    char msg[4096];
    uint64_t hist_hash, sched_hash, points, switches, steps;
    uint64_t ops, ops_ok, ops_refused, ops_faulted;
    uint64_t faults[FK_MAX];
    uint64_t sim_seconds;
    uint64_t aux[16];
    uint64_t lin_states;
    uint32_t nfeat;
    uint64_t feat[512];
    uint32_t trace_len;
    char trace[1 << 21];
};

struct G_ {
    uint64_t seed = 0;
    Shared* sh = nullptr;
    uint8_t* cov = nullptr;   // shared edge bitmap
    size_t cov_n = 0;
    bool replay = false;
    std::vector<Preempt> trace;
    std::map<std::pair<int, uint64_t>, int> over;       // replay: (fiber, point) -> to
    std::map<std::pair<int, uint64_t>, std::pair<int, uint64_t>> fover;  // replay: (fiber, site) -> kind,arg
    std::vector<FaultRec> faults;
    std::vector<std::array<int, 3>> slots;              // operations that were run: (phase, worker, index)
    Policy pol;
    FaultPlan fp;
    bool faults_on = false;
    Rng srng{1}, frng{1}, entropy{1};
    Fiber fib[MAXF];
    Fiber* cur = nullptr;
    void* main_sp = nullptr;
    void* main_fake = nullptr;
    uint64_t gpoints = 0, last_progress = 0, sleep_run = 0, switches = 0;
    std::vector<uint64_t> pct_changes;
    std::vector<Env> env;
    std::unordered_map<uintptr_t, Blk> heap;
    uint64_t seq = 0;
    size_t live_ta = 0, live_cl = 0, cnt_ta = 0, cnt_cl = 0;
    std::vector<RngReq> ledger;
    std::set<Bytes> wrap_iv;
    std::unordered_map<uint64_t, bool> secret_win;   // 8-byte window -> never legitimately outside the TEE
    bool scan = false;
    uint8_t fill = 0xA5;
    uint64_t sched_hash = 1469598103934665603ULL;
    uintptr_t watch_lo = 1, watch_hi = 0;
    bool verbose = false;
    bool svp_owned = false;   // the TEE knows which process each piece of protected memory was given to
    const char* property = "";
    uint64_t next_op = 1;
    int files_open = 0;
    uint64_t crash_at = 0;    // TA power cut after this many scheduler steps in the phase (0 = none)
    uint64_t phase_points = 0;
    bool crashed = false;
    bool keystore_faulty = false, ta_atexit_lost = false;
    uint64_t main_points = 0;
    uint64_t stamp = 0;       // total order of call starts and returns
    uint64_t ctx_rejected = 0, ctx_deferred = 0;
    Rng drv{1};               // randomness OpenSSL uses on behalf of the driver
};
extern G_ G;

// ---- fibers
void fibers_reset();
int fiber_spawn(int proc, std::function<void()> fn);
void run_fibers();                 // runs until every fiber is done (or the TA lost power); reports deadlock/livelock
void op_progress();                // an operation completed
void op_rebase(uint64_t points, uint64_t sites);   // position of the current fiber's counters: stable when earlier operations are left out
void sched_yield_point();          // voluntary scheduling point in driver code
void sync_point(int kind, const void* obj);
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// ---- violations
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- faults
bool fault_here(int kind, uint64_t* arg = nullptr);
void count_fault(int kind);

// ---- libraries
struct Api;   // function table of one client process
void libs_load(const char* dir);
void libs_snapshot();
void ta_reset();                   // power cycle of the TEE: data back to the initial image, heap gone
void proc_reset(int k);            // process k is gone: its data back to the initial image, heap gone
extern void* lib_ta;
extern void* lib_client[NPROC];
extern void* lib_prov;
size_t heap_count(int side, std::string& out, uint64_t after = 0);
uint64_t heap_seq();
void proc_run_atexit(int k);       // runs the exit handlers of process k (call from a fiber of that process)
void* proc_session(int k);
void proc_forget_session(int k);
void ta_run_atexit();
void proc_set_uuid(int k, const sa_uuid* id);  // nullptr = plain REE caller
sa_uuid proc_uuid(int k);

// ---- memory
void heap_check_tails();
void reap_killed();
bool locks_held(std::string& out);
void heap_op_leaks(uint64_t op, std::string& out, size_t& n);  // blocks allocated by op still live
void secret_add(const void* p, size_t n, bool ta_only = false);
bool secret_scan(const void* p, size_t n, size_t* where = nullptr, bool ta_only = false);
void secret_scan_clients();       // client heaps hold no key bytes that never left the TEE
uint8_t* svp_base();
size_t svp_region_size();
bool in_svp(const void* p, size_t n);
bool svp_in_own_block(const void* p, size_t n);
void feature(uint64_t h);
void* svp_raw_alloc(size_t n);
bool svp_is_block(const void* p, size_t* size);
void svp_check_canaries();
void svp_reset();
size_t svp_live(int proc, uint64_t op = 0);
void mem_fresh(void* p, size_t n);  // race detector: memory handed over to the current fiber afresh
void hb_release(std::array<uint32_t, MAXF + 1>& c);
void hb_acquire(const std::array<uint32_t, MAXF + 1>& c);
void race_reset();
void stack_scrub();                 // fills the unused part of the current fiber's stack with the fill pattern

// OpenSSL object accounting: live objects of TEE-visible classes, allocated inside TEE calls
long ossl_live_objects();
void ossl_report(std::string& out);
void ossl_accounting_init();

void keystore_set(const Bytes& content);
const Bytes& keystore_get();
extern "C" const char* const sim_fault_names[];

#include "rt.h"
#include <cerrno>
#include <dlfcn.h>
#include <link.h>
#include <openssl/bio.h>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include "sa_ta_types.h"
#include "raw.h"
#ifdef VARIANT_A
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define NOSAN __attribute__((no_sanitize("address")))
#else
#define UNPOISON(p, n) (void) 0
#define POISON(p, n) (void) 0
#define NOSAN
#endif

G_ G;
const char* const fault_kind_names[FK_MAX] = {
    "none", "alloc_fail", "rng_fail", "mutex_init_fail", "openssl_call_fail", "keystore_open_fail",
    "keystore_read_error", "keystore_truncated", "keystore_corrupt", "atexit_fail", "client_alloc_fail",
    "video_poll_fail", "caller_auth_fail", "ta_power_cut", "process_crash", "process_exit", "data_corruption",
    "command_memory_mutation", "clock_jump", "video_output_change", "rng_fail_after_partial", "svp_alloc_fail"};

// ------------------------------------------------------------------ reporting
static void dump_trace() {
    Shared* s = G.sh;
    if (!s) return;
    std::string t;
    char b[128];
    for (auto& p : G.trace) { snprintf(b, sizeof b, "p %d %llu %d\n", p.from, (unsigned long long) p.at, p.to); t += b; }
    for (auto& f : G.faults) { snprintf(b, sizeof b, "f %d %llu %d %llu\n", f.fiber, (unsigned long long) f.site, f.kind, (unsigned long long) f.arg); t += b; }
    for (auto& o : G.slots) { snprintf(b, sizeof b, "o %d %d %d\n", o[0], o[1], o[2]); t += b; }
    if (t.size() >= sizeof s->trace) t.resize(sizeof s->trace - 1);
    memcpy(s->trace, t.data(), t.size());
    s->trace_len = t.size();
    s->points = G.gpoints + (G.cur ? 0 : 0);
    s->switches = G.switches;
    s->sched_hash = G.sched_hash;
}
void finish_run() { dump_trace(); }

void violation(const char* cls, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (G.sh) {
        snprintf(G.sh->cls, sizeof G.sh->cls, "%s", cls);
        vsnprintf(G.sh->msg, sizeof G.sh->msg, fmt, ap);
        G.sh->state = 2;
        dump_trace();
    } else {
        fprintf(stderr, "violation outside a run: %s: ", cls);
        vfprintf(stderr, fmt, ap);
        fprintf(stderr, "\n");
    }
    va_end(ap);
    _exit(77);
}
void internal_error(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    if (G.sh) {
        vsnprintf(G.sh->msg, sizeof G.sh->msg, fmt, ap);
        G.sh->state = 3;
        dump_trace();
    } else {
        vfprintf(stderr, fmt, ap);
        fprintf(stderr, "\n");
    }
    va_end(ap);
    _exit(78);
}
void note(const char* fmt, ...) {
    if (!G.verbose) return;
    va_list ap;
    va_start(ap, fmt);
    printf("[%d] ", G.cur ? G.cur->id : -1);
    vprintf(fmt, ap);
    printf("\n");
    fflush(stdout);
    va_end(ap);
}

// ------------------------------------------------------------------ context switch
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");
extern "C" void sim_swap(void** save, void* to);

static const size_t STACK = 512 * 1024;
static void* main_stack_bottom = nullptr;
static size_t main_stack_size = 0;

static void get_main_stack() {
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &main_stack_bottom, &main_stack_size);
    pthread_attr_destroy(&a);
}

static void to_main(bool final) {
    Fiber* f = G.cur;
    f->err = errno;
#ifdef VARIANT_A
    __sanitizer_start_switch_fiber(final ? nullptr : &f->fake, main_stack_bottom, main_stack_size);
#endif
    sim_swap(&f->sp, G.main_sp);
#ifdef VARIANT_A
    __sanitizer_finish_switch_fiber(f->fake, nullptr, nullptr);
#endif
    errno = f->err;
}

static void fiber_entry() {
    Fiber* f = G.cur;
#ifdef VARIANT_A
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
    f->fn();
    f->st = F_DONE;
    to_main(true);
    abort();
}

static void vc_fork(Fiber& f);

void fibers_reset() {
    if (!main_stack_bottom) get_main_stack();
    for (int i = 0; i < MAXF; i++) {
        Fiber& f = G.fib[i];
        uint8_t* st = f.stack;
        size_t sz = f.stack_size;
        uint32_t gen = f.gen + 1;
        uint64_t pts = f.points, sts = f.sites;
        auto vc = f.vc;
        f = Fiber();
        f.id = i;
        f.stack = st;
        f.stack_size = sz;
        f.gen = gen;
        f.points = pts;
        f.sites = sts;
        f.vc = vc;
        f.st = F_DONE;
    }
    G.cur = nullptr;
    G.sleep_run = 0;
    G.phase_points = 0;
    G.crashed = false;
}

int fiber_spawn(int proc, std::function<void()> fn) {
    for (int i = 0; i < MAXF; i++) {
        Fiber& f = G.fib[i];
        if (f.st != F_DONE || f.fn) continue;
        f.proc = proc;
        f.fn = std::move(fn);
        f.st = F_READY;
        if (!f.stack) {
            f.stack = (uint8_t*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(f.stack, 4096, PROT_NONE);
            f.stack += 4096;
            f.stack_size = STACK;
        }
        UNPOISON(f.stack, f.stack_size);
        uintptr_t top = (uintptr_t) (f.stack + f.stack_size) & ~15ULL;
        void** sp = (void**) (top - 8);
        *--sp = (void*) fiber_entry;
        for (int k = 0; k < 6; k++) *--sp = nullptr;
        f.sp = sp;
        f.prio = 1000 + (int) G.srng.below(1000);
        vc_fork(f);
        return i;
    }
    internal_error("too many fibers");
}

NOSAN void stack_scrub() {
    Fiber* f = G.cur;
    if (!f) return;
    uint8_t* sp = (uint8_t*) __builtin_frame_address(0);
    uint8_t* lo = sp - 40 * 1024;
    if (lo < f->stack) lo = f->stack;
    size_t n = (sp - 512) - lo;
    UNPOISON(lo, n);
    uint8_t v = G.fill;
    asm volatile("rep stosb" : "+D"(lo), "+c"(n) : "a"(v) : "memory");
}

// ------------------------------------------------------------------ scheduler
static uint64_t geo(uint64_t mean) {
    // integer-only, about exponential
    uint64_t r = G.srng.next();
    int z = __builtin_ctzll(r | (1ULL << 40));  // geometric(1/2)
    uint64_t base = mean * (z + 1) / 2 + 1;
    return 1 + G.srng.below(base);
}

static uint64_t HANG_POINTS = 80000000ULL;

static void start_quantum(Fiber* f);
static void start_quantum(Fiber* f) {
    uint64_t q = 1000000;
    bool fair = G.sleep_run > 200;
    if (G.replay) {
        f->next_pp = f->points + q;
        auto it = G.over.lower_bound({f->id, f->points + 1});
        if (it != G.over.end() && it->first.first == f->id && it->first.second < f->next_pp)
            f->next_pp = it->first.second;
    } else {
        switch (G.pol.kind) {
            case P_GEO: case P_MIX: q = geo(G.pol.mean); break;
            case P_PCT: {
                uint64_t now = G.gpoints;
                for (uint64_t c : G.pct_changes)
                    if (c > now) { q = c - now; break; }
                break;
            }
            default: break;
        }
        if (fair && q < 200000) q = 200000;
        f->next_pp = f->points + q;
    }
    if (G.crash_at) {
        uint64_t left = G.crash_at > G.phase_points ? G.crash_at - G.phase_points : 1;
        if (f->points + left < f->next_pp) f->next_pp = f->points + left;
    }
}

static uint64_t resume_points;  // f->points at resume, to account global points
static void account(Fiber* f) {
    uint64_t d = f->points - resume_points;
    resume_points = f->points;
    G.gpoints += d;
    G.phase_points += d;
}

// what the main loop should do next: chosen fiber, or -1 to pick
static int want_to = -1;

static int pick_other(Fiber* f, bool must) {
    // choose another ready fiber than f; sleepers (recently slept) last when spinning gets long
    int cand[MAXF], n = 0;
    for (int i = 0; i < MAXF; i++)
        if (&G.fib[i] != f && G.fib[i].st == F_READY && G.fib[i].fn) cand[n++] = i;
    if (n == 0) return -1;
    if (G.sleep_run > 200) {
        // fair mode: least recently slept first
        int best = cand[0];
        for (int k = 1; k < n; k++)
            if (G.fib[cand[k]].sleeps < G.fib[best].sleeps) best = cand[k];
        return best;
    }
    if (G.pol.kind == P_PCT && !G.replay) {
        int best = cand[0];
        for (int k = 1; k < n; k++)
            if (G.fib[cand[k]].prio > G.fib[best].prio) best = cand[k];
        return best;
    }
    if (G.replay) {  // default: next in cyclic order
        int base = f ? f->id : MAXF - 1;
        for (int k = 1; k <= MAXF; k++)
            for (int j = 0; j < n; j++)
                if (cand[j] == (base + k) % MAXF) return cand[j];
    }
    return cand[G.srng.below(n)];
}

// called in fiber context: leave the processor to fiber `to`
static void switch_out(Fiber* f, int to) {
    account(f);
    want_to = to;
    to_main(false);
}

static void preempt(Fiber* f) {
    int to = -1;
    if (G.replay) {
        auto it = G.over.find({f->id, f->points});
        if (it == G.over.end()) return;
        to = it->second;
        if (to < 0 || to >= MAXF || G.fib[to].st != F_READY || !G.fib[to].fn || to == f->id) return;
    } else {
        if (G.pol.kind == P_PCT) {
            int low = 1000000;
            for (int i = 0; i < MAXF; i++) low = std::min(low, G.fib[i].prio);
            f->prio = low - 1;
        }
        to = pick_other(f, false);
        if (to < 0) return;
    }
    G.trace.push_back({f->id, f->points, to});
    G.switches++;
    G.sched_hash = hcomb(G.sched_hash, hcomb(f->id * 131 + to, f->points));
    switch_out(f, to);
}

static void slow_point(Fiber* f) {
    if (f->nopreempt) { f->next_pp = f->points + 1; return; }
    account(f);
    if (G.crash_at && G.phase_points >= G.crash_at) {
        G.crashed = true;
        want_to = -2;
        to_main(false);
    }
    if (G.gpoints - G.last_progress > HANG_POINTS)
        violation("hang:no-progress", "no operation completed within %llu steps", (unsigned long long) HANG_POINTS);
    preempt(f);
    start_quantum(f);
}

static inline __attribute__((always_inline)) void point() {
    Fiber* f = G.cur;
    if (f && ++f->points >= f->next_pp) slow_point(f);
}

void sched_yield_point() { point(); }

enum { S_LOCK = 1, S_LOCKED, S_UNLOCK, S_ALLOC, S_FREE, S_RNG, S_OSSL, S_ONCE, S_SLEEP, S_ENTER, S_LEAVE, S_TIME, S_FILE, S_OP };

static void sync_preempt(Fiber* f, unsigned p) {
    if (f->nopreempt || G.replay || !p) return;
    if (G.sleep_run > 200) return;
    if (G.srng.below(1000) < p) {
        preempt(f);
        start_quantum(f);
    }
}

void sync_point(int kind, const void* obj) {
    Fiber* f = G.cur;
    if (!f) return;
    f->points++;
    if (f->points >= f->next_pp) { slow_point(f); return; }
    sync_preempt(f, G.pol.sync_p);
}

// the fiber cannot or does not want to continue now
static void give_up(Fiber* f, bool spinning) {
    f->points++;
    account(f);
    int to = -1;
    if (G.replay) {
        auto it = G.over.find({f->id, f->points});
        if (it != G.over.end()) {
            to = it->second;
            if (to < 0 || to >= MAXF || G.fib[to].st != F_READY || !G.fib[to].fn) to = -1;
        }
    }
    if (to < 0) to = pick_other(f, true);
    if (to < 0) {
        if (f->st == F_READY) return;  // alone and merely yielding
        switch_out(f, -1);
    } else {
        G.trace.push_back({f->id, f->points, to});
        G.switches++;
        G.sched_hash = hcomb(G.sched_hash, hcomb(f->id * 131 + to + 7777, f->points));
        switch_out(f, to);
    }
    start_quantum(f);
}

static void do_sleep() {
    Fiber* f = G.cur;
    if (!f || f->nopreempt) return;
    f->sleeps++;
    G.sleep_run++;
    int live = 0;
    for (auto& x : G.fib) if (x.st != F_DONE) live++;
    if (G.sleep_run > 4000ULL * (live + 1))
        violation("hang:livelock", "%d unfinished calls, %llu consecutive waits without any call completing", live,
                (unsigned long long) G.sleep_run);
    if (G.pol.kind == P_PCT) {
        int low = 1000000;
        for (int i = 0; i < MAXF; i++) low = std::min(low, G.fib[i].prio);
        f->prio = low - 1;
    }
    give_up(f, true);
}

void op_progress() {
    Fiber* f = G.cur;
    if (f) account(f);
    G.last_progress = G.gpoints;
    G.sleep_run = 0;
    for (auto& x : G.fib) x.sleeps = 0;
}

void op_rebase(uint64_t points, uint64_t sites) {
    Fiber* f = G.cur;
    if (!f) return;
    account(f);
    if (points > f->points) {
        if (f->next_pp != ~0ULL) f->next_pp += points - f->points;
        f->points = resume_points = points;
        if (G.replay) start_quantum(f);
    }
    if (sites > f->sites) f->sites = sites;
}

static std::string blocked_desc();

void run_fibers() {
    int next = -1;
    if (G.pol.kind == P_PCT) {
        G.pct_changes.clear();
        for (unsigned i = 0; i < G.pol.pct_depth; i++) G.pct_changes.push_back(G.gpoints + 1 + G.srng.below(G.pol.pct_len));
        std::sort(G.pct_changes.begin(), G.pct_changes.end());
    }
    Fiber mainf;  // scheduling opportunities of the main loop itself (fiber id MAXF)
    G.last_progress = G.gpoints;
    for (;;) {
        if (next < 0 || G.fib[next].st != F_READY) {
            int ready = 0, blocked = 0;
            for (auto& f : G.fib) { ready += f.st == F_READY; blocked += f.st == F_BLOCKED; }
            if (!ready) {
                if (blocked) violation("hang:deadlock", "%s", blocked_desc().c_str());
                return;
            }
            G.main_points++;
            next = -1;
            if (G.replay) {
                auto it = G.over.find({MAXF, G.main_points});
                if (it != G.over.end() && it->second >= 0 && it->second < MAXF && G.fib[it->second].st == F_READY)
                    next = it->second;
            }
            if (next < 0) next = pick_other(nullptr, true);
            if (ready > 1) G.trace.push_back({MAXF, G.main_points, next});
        }
        Fiber* f = &G.fib[next];
        G.cur = f;
        resume_points = f->points;
        want_to = -1;
        if (f->next_pp == ~0ULL) start_quantum(f);
#ifdef VARIANT_A
        __sanitizer_start_switch_fiber(&G.main_fake, f->stack, f->stack_size);
#endif
        sim_swap(&G.main_sp, f->sp);
#ifdef VARIANT_A
        __sanitizer_finish_switch_fiber(G.main_fake, nullptr, nullptr);
#endif
        account(f);
        G.cur = nullptr;
        next = want_to;
        if (G.crashed) return;
    }
}

NoPreempt::NoPreempt() { if (G.cur) G.cur->nopreempt++; }
NoPreempt::~NoPreempt() { if (G.cur) G.cur->nopreempt--; }

// ------------------------------------------------------------------ faults
void count_fault(int kind) { if (G.sh) G.sh->faults[kind]++; }

bool fault_here(int kind, uint64_t* arg) {
    Fiber* f = G.cur;
    if (!f) return false;
    uint64_t site = ++f->sites;
    if (!G.faults_on || f->nofault) return false;
    uint64_t a = 0;
    bool hit = false;
    if (G.replay) {
        auto it = G.fover.find({f->id, site});
        if (it != G.fover.end() && it->second.first == kind) { hit = true; a = it->second.second; }
    } else if (G.fp.mask & (1u << kind)) {
        if (G.fp.nth) {
            if (f->op && f->op->active && G.fp.nth_left && --G.fp.nth_left == 0) hit = true;
        } else if (G.fp.max && G.frng.below(G.fp.den) < G.fp.num) hit = true;
        if (hit) { if (G.fp.max) G.fp.max--; a = G.frng.next() >> 8; }
    }
    if (!hit) return false;
    G.faults.push_back({f->id, site, kind, a});
    count_fault(kind);
    if (f->op) { f->op->faults++; f->op->fault_mask |= 1u << kind; }
    if (arg) *arg = a;
    note("FAULT %s", fault_kind_names[kind]);
    return true;
}

// ------------------------------------------------------------------ happens-before
static std::array<uint32_t, MAXF + 1> main_vc{};
void hb_release(std::array<uint32_t, MAXF + 1>& c) {
    Fiber* f = G.cur;
    if (!f) return;
    for (int i = 0; i <= MAXF; i++) c[i] = std::max(c[i], f->vc[i]);
    f->vc[f->id]++;
}
void hb_acquire(const std::array<uint32_t, MAXF + 1>& c) {
    Fiber* f = G.cur;
    if (!f) return;
    for (int i = 0; i <= MAXF; i++) f->vc[i] = std::max(f->vc[i], c[i]);
}
static void vc_fork(Fiber& f) {
    // a fiber starts after everything any earlier fiber of an earlier phase did (the driver joined them)
    std::array<uint32_t, MAXF + 1> all{};
    Fiber* parent = G.cur;
    if (parent) {
        for (int i = 0; i <= MAXF; i++) all[i] = parent->vc[i];
        parent->vc[parent->id]++;
    } else {
        for (auto& x : G.fib)
            if (x.st == F_DONE || true)
                for (int i = 0; i <= MAXF; i++) all[i] = std::max(all[i], x.vc[i]);
    }
    uint32_t own = f.vc[f.id];
    f.vc = all;
    f.vc[f.id] = std::max(own, all[f.id]) + 1;
}

// ------------------------------------------------------------------ mutexes
struct Mtx { int type = 0; int owner = -1; int count = 0; int state = 0; std::array<uint32_t, MAXF + 1> vc{}; uint64_t id = 0; int readers = 0; };
static std::map<uintptr_t, Mtx> mtxs;   // state 1 live, 2 destroyed
static std::map<uintptr_t, std::pair<int, std::array<uint32_t, MAXF + 1>>> onces;
static uint64_t mtx_seq = 0;

static std::string blocked_desc() {
    std::string s = "deadlock:";
    for (auto& f : G.fib)
        if (f.st == F_BLOCKED) {
            auto it = mtxs.find((uintptr_t) f.wait_obj);
            char b[128];
            snprintf(b, sizeof b, " call %llu (fiber %d) waits for lock#%llu held by fiber %d;",
                    (unsigned long long) (f.op ? f.op->id : 0), f.id,
                    (unsigned long long) (it == mtxs.end() ? 0 : it->second.id), it == mtxs.end() ? -1 : it->second.owner);
            s += b;
        }
    return s;
}

static Mtx& mtx_get(void* m, const char* what) {
    auto it = mtxs.find((uintptr_t) m);
    if (it == mtxs.end()) {
        // statically initialised?
        pthread_mutex_t zero;
        memset(&zero, 0, sizeof zero);
        pthread_mutex_t* pm = (pthread_mutex_t*) m;
        bool ok = pm->__data.__lock == 0 && pm->__data.__owner == 0 && pm->__data.__nusers == 0 && pm->__data.__count == 0;
        if (!ok) violation("memory:uninitialised-mutex", "%s on a mutex that was never initialised", what);
        Mtx n;
        n.type = pm->__data.__kind & 3;
        n.state = 1;
        n.id = ++mtx_seq;
        it = mtxs.emplace((uintptr_t) m, n).first;
    }
    if (it->second.state == 2) violation("memory:destroyed-mutex", "%s on a destroyed mutex", what);
    return it->second;
}

static void check_kill();
// threads of a dead process that wait in its client library never run again
void reap_killed() {
    for (auto& x : G.fib)
        if (x.kill && x.in_ta == 0 && x.st == F_BLOCKED) { x.st = F_DONE; x.wait_obj = nullptr; }
}
bool locks_held(std::string& out) {
    for (auto& m : mtxs)
        if (m.second.state == 1 && (m.second.owner >= 0 || m.second.readers > 0)) {
            char b[96];
            snprintf(b, sizeof b, "lock#%llu is held by fiber %d", (unsigned long long) m.second.id, m.second.owner);
            out = b;
            return true;
        }
    return false;
}
static int fid() { return G.cur ? G.cur->id : MAXF; }
static void order_hash(int what, uint64_t obj) { G.sched_hash = hcomb(G.sched_hash, (uint64_t) what * 1000003 + obj * 31 + fid()); }

extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    sync_point(S_LOCK, m);
    if (!(G.cur && G.cur->in_once) && fault_here(FK_MTXINIT)) return ENOMEM;
    int type = 0;
    if (a) pthread_mutexattr_gettype(a, &type);
    memset((void*) m, 0, sizeof *m);
    Mtx n;
    n.type = type;
    n.state = 1;
    n.id = ++mtx_seq;
    mtxs[(uintptr_t) m] = n;
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    sync_point(S_LOCK, m);
    Fiber* f = G.cur;
    Mtx* x = &mtx_get(m, "lock");
    if (!f) {  // outside fibers: no contention
        x->count++;
        x->owner = MAXF;
        return 0;
    }
    if (x->owner == f->id) {
        if (x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (x->owner >= 0) {
        check_kill();            // the process died: whoever holds its locks never lets go
        f->st = F_BLOCKED;
        f->wait_obj = m;
        give_up(f, false);
        x = &mtx_get(m, "lock");
    }
    x->owner = f->id;
    x->count = 1;
    hb_acquire(x->vc);
    order_hash(1, x->id);
    sync_preempt(f, G.pol.sync_p / 4);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
    sync_point(S_LOCK, m);
    Fiber* f = G.cur;
    Mtx& x = mtx_get(m, "trylock");
    if (x.owner >= 0) {
        if (f && x.owner == f->id && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
        return EBUSY;
    }
    x.owner = fid();
    x.count = 1;
    hb_acquire(x.vc);
    return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    Fiber* f = G.cur;
    Mtx& x = mtx_get(m, "unlock");
    if (x.owner != fid()) {
        if (x.owner < 0) violation("lock:unlock-unheld", "unlock of a mutex nobody holds");
        violation("lock:unlock-not-owner", "unlock of a mutex held by another thread");
    }
    if (--x.count > 0) return 0;
    x.owner = -1;
    hb_release(x.vc);
    for (auto& o : G.fib)
        if (o.st == F_BLOCKED && o.wait_obj == m) { o.st = F_READY; o.wait_obj = nullptr; }
    if (f) sync_point(S_UNLOCK, m);
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
    sync_point(S_LOCK, m);
    Mtx& x = mtx_get(m, "destroy");
    if (x.owner >= 0) violation("lock:destroy-held", "a locked mutex is destroyed");
    for (auto& o : G.fib)
        if (o.st == F_BLOCKED && o.wait_obj == m) violation("lock:destroy-waited", "a mutex with waiters is destroyed");
    x.state = 2;
    return 0;
}
int sim_pthread_mutexattr_init(pthread_mutexattr_t* a) { return pthread_mutexattr_init(a); }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { return pthread_mutexattr_settype(a, t); }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t* a) { return pthread_mutexattr_destroy(a); }

int sim_pthread_once(pthread_once_t* o, void (*fn)(void)) {
    sync_point(S_ONCE, o);
    auto& st = onces[(uintptr_t) o];
    Fiber* f = G.cur;
    while (st.first == 1) {
        if (!f) internal_error("once recursion");
        f->st = F_BLOCKED;
        f->wait_obj = o;
        give_up(f, false);
    }
    if (st.first == 2) { hb_acquire(st.second); return 0; }
    st.first = 1;
    if (f) f->in_once++;
    fn();
    if (f) f->in_once--;
    auto& st2 = onces[(uintptr_t) o];
    st2.first = 2;
    hb_release(st2.second);
    for (auto& x : G.fib)
        if (x.st == F_BLOCKED && x.wait_obj == o) { x.st = F_READY; x.wait_obj = nullptr; }
    sync_point(S_ONCE, o);
    return 0;
}
pthread_t sim_pthread_self() { return (pthread_t) (uintptr_t) (fid() + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }

// C11 names, should the code stop using its shim
int sim_mtx_init(void* m, int type) {
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    if (type & 1) pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
    return sim_pthread_mutex_init((pthread_mutex_t*) m, &a) ? 2 : 0;
}
int sim_mtx_lock(void* m) { return sim_pthread_mutex_lock((pthread_mutex_t*) m) ? 2 : 0; }
int sim_mtx_trylock(void* m) { int r = sim_pthread_mutex_trylock((pthread_mutex_t*) m); return r == EBUSY ? 1 : r ? 2 : 0; }
int sim_mtx_unlock(void* m) { return sim_pthread_mutex_unlock((pthread_mutex_t*) m) ? 2 : 0; }
void sim_mtx_destroy(void* m) { sim_pthread_mutex_destroy((pthread_mutex_t*) m); }
void sim_call_once(pthread_once_t* o, void (*fn)(void)) { sim_pthread_once(o, fn); }

// condition variables: waiters are woken by signal/broadcast (a signal wakes all; spurious wakeups are legal)
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset((void*) c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
    for (auto& x : G.fib)
        if (x.st == F_BLOCKED && x.wait_obj == c) { x.st = F_READY; x.wait_obj = nullptr; }
    sync_point(S_UNLOCK, c);
    return 0;
}
int sim_pthread_cond_signal(pthread_cond_t* c) { return sim_pthread_cond_broadcast(c); }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    Fiber* f = G.cur;
    if (!f) internal_error("cond_wait outside a fiber");
    Mtx& x = mtx_get(m, "cond_wait");
    int save = x.count;
    x.count = 0;
    x.owner = -1;
    hb_release(x.vc);
    for (auto& o : G.fib)
        if (o.st == F_BLOCKED && o.wait_obj == m) { o.st = F_READY; o.wait_obj = nullptr; }
    f->st = F_BLOCKED;
    f->wait_obj = c;
    give_up(f, false);
    sim_pthread_mutex_lock(m);
    mtx_get(m, "cond_wait").count = save;
    return 0;
}
// reader/writer locks, as a mutex with shared owners
int sim_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) {
    if (fault_here(FK_MTXINIT)) return ENOMEM;
    memset((void*) m, 0, sizeof *m);
    Mtx n;
    n.state = 1;
    n.id = ++mtx_seq;
    mtxs[(uintptr_t) m] = n;
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    sync_point(S_LOCK, m);
    Fiber* f = G.cur;
    Mtx* x = &mtx_get(m, "rdlock");
    while (f && x->owner >= 0) {
        f->st = F_BLOCKED;
        f->wait_obj = m;
        give_up(f, false);
        x = &mtx_get(m, "rdlock");
    }
    x->readers++;
    hb_acquire(x->vc);
    return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    sync_point(S_LOCK, m);
    Fiber* f = G.cur;
    Mtx* x = &mtx_get(m, "wrlock");
    while (f && (x->owner >= 0 || x->readers)) {
        f->st = F_BLOCKED;
        f->wait_obj = m;
        give_up(f, false);
        x = &mtx_get(m, "wrlock");
    }
    x->owner = fid();
    x->count = 1;
    hb_acquire(x->vc);
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    Mtx& x = mtx_get(m, "rwunlock");
    if (x.owner == fid()) { x.owner = -1; x.count = 0; }
    else if (x.readers > 0) x.readers--;
    else violation("lock:unlock-unheld", "rwlock unlock without lock");
    hb_release(x.vc);
    for (auto& o : G.fib)
        if (o.st == F_BLOCKED && o.wait_obj == m) { o.st = F_READY; o.wait_obj = nullptr; }
    sync_point(S_UNLOCK, m);
    return 0;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t* m) { mtx_get(m, "rwdestroy").state = 2; return 0; }

// libcrypto's own locks: one system thread carries every fiber, so a fiber that is preempted inside provider code with
// such a lock held must not block that thread.  The state lives in the lock's own memory, all zero meaning unlocked.
struct OLock { int32_t writer, readers; };   // writer: fiber + 1
static void olock_wake(void* m) {
    for (auto& x : G.fib)
        if (x.st == F_BLOCKED && x.wait_obj == m) { x.st = F_READY; x.wait_obj = nullptr; }
}
static void olock_wait(void* m) {
    Fiber* f = G.cur;
    if (!f) internal_error("a lock of the cryptographic library is held outside the simulation");
    f->st = F_BLOCKED;
    f->wait_obj = m;
    give_up(f, false);
}
__attribute__((visibility("default"))) int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) { memset((void*) m, 0, sizeof *m); return 0; }
__attribute__((visibility("default"))) int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
__attribute__((visibility("default"))) int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    OLock* l = (OLock*) m;
    while (l->writer) olock_wait(m);
    l->readers++;
    return 0;
}
__attribute__((visibility("default"))) int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    OLock* l = (OLock*) m;
    while (l->writer || l->readers) olock_wait(m);
    l->writer = fid() + 1;
    return 0;
}
__attribute__((visibility("default"))) int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    OLock* l = (OLock*) m;
    if (l->writer) return EBUSY;
    l->readers++;
    return 0;
}
__attribute__((visibility("default"))) int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    OLock* l = (OLock*) m;
    if (l->writer || l->readers) return EBUSY;
    l->writer = fid() + 1;
    return 0;
}
__attribute__((visibility("default"))) int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    OLock* l = (OLock*) m;
    if (l->writer) l->writer = 0;
    else if (l->readers) l->readers--;
    if (!l->writer) olock_wake(m);
    return 0;
}

unsigned sim_sleep(unsigned) { do_sleep(); return 0; }
int sim_usleep(unsigned) { do_sleep(); return 0; }
int sim_nanosleep(const struct timespec*, struct timespec*) { do_sleep(); return 0; }
int sim_sched_yield() { do_sleep(); return 0; }
void sim_thrd_yield() { do_sleep(); }

// ------------------------------------------------------------------ clock, environment
time_t sim_time(time_t* t) {
    sync_point(S_TIME, nullptr);
    time_t v = (time_t) G.env.back().time;
    if (t) *t = v;
    return v;
}
int sim_gettimeofday(struct timeval* tv, void*) { sync_point(S_TIME, nullptr); tv->tv_sec = G.env.back().time; tv->tv_usec = 0; return 0; }
int sim_clock_gettime(clockid_t, struct timespec* ts) { sync_point(S_TIME, nullptr); ts->tv_sec = G.env.back().time; ts->tv_nsec = 0; return 0; }
char* sim_getenv(const char*) { return nullptr; }

typedef struct {
    uint32_t analog_unprotected_count, analog_cgmsa_count, digital_unprotected_count, digital_hdcp14_count, digital_hdcp22_count;
    bool svp_enabled;
} sim_video_state;
bool sim_video_output_poll(void* state) {
    sync_point(S_TIME, nullptr);
    if (fault_here(FK_VIDEO)) return false;
    if (!state) return false;
    const Env& e = G.env.back();
    sim_video_state s;
    memset(&s, 0, sizeof s);
    s.analog_unprotected_count = e.analog_unprotected;
    s.analog_cgmsa_count = e.analog_cgmsa;
    s.digital_unprotected_count = e.digital_unprotected;
    s.digital_hdcp14_count = e.hdcp14;
    s.digital_hdcp22_count = e.hdcp22;
    s.svp_enabled = e.svp;
    memcpy(state, &s, sizeof s);
    return true;
}
void sim_log_entry(int level, const char* file, int line, const char* fn, const char* fmt, ...) {
    if (G.verbose && level >= 3) {
        NoPreempt np;
        va_list ap;
        va_start(ap, fmt);
        printf("      [%d] %s:%d ", fid(), fn, line);
        vprintf(fmt, ap);
        printf("\n");
        fflush(stdout);
        va_end(ap);
    }
}
}  // extern C

// ------------------------------------------------------------------ processes and their identity
static sa_uuid uuids[NPROC];
static bool uuid_set[NPROC];
static bool uuid_use[NPROC];
static void* sessions[NPROC];
static std::vector<void (*)()> atexits[NPROC];
static std::vector<void (*)()> ta_atexits;
void* lib_ta;
void* lib_client[NPROC];
typedef sa_status (*auth_fn)(sa_uuid*);
static auth_fn real_auth;
typedef bool (*valid_fn)(void*, size_t);
static valid_fn real_valid_svp, real_valid_clear;
typedef sa_status (*open_fn)(void**);
typedef void (*close_fn)(void*);
typedef sa_status (*invoke_fn)(void*, SA_COMMAND_ID, const uint32_t*, ta_param*);
static open_fn real_open;
static close_fn real_close;
static invoke_fn real_invoke;

void proc_set_uuid(int k, const sa_uuid* id) {
    uuid_use[k] = id != nullptr;
    if (id) uuids[k] = *id;
}
sa_uuid proc_uuid(int k) {
    sa_uuid u;
    memset(&u, 0, sizeof u);
    if (uuid_use[k]) return uuids[k];
    u.id[15] = 1;
    return u;
}
void* proc_session(int k) { return sessions[k]; }
void proc_forget_session(int k) { sessions[k] = nullptr; }

struct Ctx { size_t size; };
static std::map<void*, Ctx> ctxs;
static bool ta_opened;         // since the TA was started

static void check_kill() {
    Fiber* f = G.cur;
    if (f && f->kill && f->in_ta == 0) {
        reap_killed();
        f->st = F_DONE;
        to_main(true);
        abort();
    }
}

extern "C" {
sa_status sim_transport_authenticate_caller(sa_uuid* uuid) {
    if (!(G.cur && G.cur->in_ctl == 2) && fault_here(FK_UUID)) return SA_STATUS_INTERNAL_ERROR;
    sa_status s = real_auth ? real_auth(uuid) : SA_STATUS_INTERNAL_ERROR;
    if (s != SA_STATUS_OK) return s;
    int k = G.cur ? G.cur->proc : 0;
    if (uuid_use[k]) *uuid = uuids[k];
    if (G.cur && G.cur->alt && !G.cur->in_ctl) *uuid = G.cur->alt_uuid;
    return s;
}
sa_status sim_ta_open_session_handler(void** ctx) {
    Fiber* f = G.cur;
    bool first = !ta_opened;
    if (f) { f->in_ta++; f->in_ctl = 1; }
    sa_status s = real_open(ctx);
    if (s == SA_STATUS_OK) {
        auto it = G.heap.find((uintptr_t) *ctx);
        if (it == G.heap.end()) internal_error("session context is not a TEE allocation");
        it->second.op = 0;
        if (f && f->op)          // everything opening a session sets up outlives the call that caused it
            for (auto& kv : G.heap) if (kv.second.op == f->op->id && kv.second.side == 0) kv.second.op = 0;
        ctxs[*ctx] = Ctx{it->second.size};
        ta_opened = true;
    } else if (first && f && f->op)   // what the first use of the TA sets up for good; checked when it shuts down
        for (auto& kv : G.heap) if (kv.second.op == f->op->id && kv.second.side == 0) kv.second.op = 0;
    if (f) {
        f->in_ctl = 0;
        f->in_ta--;
        if (s == SA_STATUS_OK) sessions[f->proc] = *ctx;
        check_kill();
    }
    return s;
}
void sim_ta_close_session_handler(void* ctx) {
    Fiber* f = G.cur;
    sync_point(S_ENTER, nullptr);
    auto it = ctxs.find(ctx);
    if (it == ctxs.end()) { G.ctx_rejected++; return; }   // the TEE framework does not deliver a second close
    ctxs.erase(it);
    if (f) { f->in_ta++; f->in_ctl = 2; }
    if (f && sessions[f->proc] == ctx) sessions[f->proc] = nullptr;
    real_close(ctx);
    if (f) { f->in_ctl = 0; f->in_ta--; check_kill(); }
}
// The TEE framework keeps the session context of a command valid until that command returns, and delivers no
// command on a session that is not open: each invocation works on the context as it was when it was delivered.
// a request for more random bytes than an int can count: only what the source was asked for is observed
static void big_random(void* use, SA_COMMAND_ID id, const uint32_t* types, const ta_param* params) {
    static uint8_t* area;
    const size_t max = ((size_t) 1 << 32) + 4096;
    if (!area) {
        void* a = mmap(nullptr, max, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) return;
        area = (uint8_t*) a;
    }
    Fiber* f = G.cur;
    ta_param p[4];
    memcpy(p, params, sizeof p);
    p[1].mem_ref = area;
    p[1].mem_ref_size = ((size_t) 1 << (f->big_want & 1 ? 32 : 31)) + params[1].mem_ref_size;
    f->big = true;
    f->big_got = 0;
    sa_status s = real_invoke(use, id, types, p);
    f->big = false;
    if (s == SA_STATUS_OK && f->big_got < p[1].mem_ref_size)
        violation("random:short", "random bytes: %zu were asked for and reported as given, the entropy source gave %zu", (size_t) p[1].mem_ref_size, f->big_got);
}
sa_status sim_ta_invoke_command_handler(void* ctx, SA_COMMAND_ID id, const uint32_t* types, ta_param* params) {
    Fiber* f = G.cur;
    sync_point(S_ENTER, nullptr);
    check_kill();
    auto it = ctxs.find(ctx);
    if (it == ctxs.end()) { G.ctx_rejected++; return SA_STATUS_INTERNAL_ERROR; }
    alignas(16) uint8_t copy[256];
    void* use = ctx;
    if (it->second.size <= sizeof copy) { memcpy(copy, ctx, it->second.size); use = copy; }
    if (f) f->in_ta++;
    sa_status s = f && raw_active(f->id) ? raw_invoke((void*) real_invoke, use, id, types, params) : real_invoke(use, id, types, params);
    if (s == SA_STATUS_OK && f && f->big_want && !raw_active(f->id)) big_random(use, id, types, params);
    if (f) f->in_ta--;
    check_kill();
    sync_point(S_LEAVE, nullptr);
    return s;
}
int sim_ta_atexit(void (*fn)()) {
    if (fault_here(FK_ATEXIT)) { G.ta_atexit_lost = true; return -1; }
    ta_atexits.push_back(fn);
    return 0;
}
int sim_cl_atexit(void (*fn)()) {
    atexits[G.cur ? G.cur->proc : 0].push_back(fn);
    return 0;
}
int sim_pr_atexit(void (*fn)()) {
    atexits[G.cur ? G.cur->proc : 0].push_back(fn);
    return 0;
}
bool sim_memory_is_valid_svp(void* p, size_t n) {
    if (!real_valid_svp(p, n)) return false;
    if (G.svp_owned) return svp_in_own_block(p, n);
    return in_svp(p, n);
}
bool sim_memory_is_valid_clear(void* p, size_t n) {
    if (!real_valid_clear(p, n)) return false;
    uintptr_t a = (uintptr_t) p, b = (uintptr_t) svp_base();
    if (a + n < a) return false;
    return a + n <= b || a >= b + svp_region_size();
}
}

void proc_run_atexit(int k) {
    while (!atexits[k].empty()) {
        auto fn = atexits[k].back();
        atexits[k].pop_back();
        fn();
    }
}
void ta_run_atexit() {
    while (!ta_atexits.empty()) {
        auto fn = ta_atexits.back();
        ta_atexits.pop_back();
        fn();
    }
}

// ------------------------------------------------------------------ heap
static void drop_mutexes_in(uintptr_t a, size_t n, bool freeing) {
    auto it = mtxs.lower_bound(a);
    while (it != mtxs.end() && it->first < a + n) {
        if (freeing && it->second.state == 1 && it->second.owner >= 0)
            violation("lock:free-held", "memory holding a locked mutex is freed");
        it = mtxs.erase(it);
    }
}

static void race_range_write(void* p, size_t n, void* pc);
static void race_clear(void* p, size_t n);
void mem_fresh(void* p, size_t n) { race_clear(p, n); }

// The library code is instrumented, but the C library and OpenSSL are not: a guard behind every block shows their
// writes past its end.
static const size_t TAIL = 32;
static NOSAN bool tail_bad(const uint8_t* p) {
    for (size_t i = 0; i < TAIL; i++)
        if (((const volatile uint8_t*) p)[i] != 0xE3) return true;
    return false;
}
static std::string where(void* pc);
static void tail_free(void* p, size_t n, void* pc) {
    if (tail_bad((uint8_t*) p + n)) violation("memory:heap-overflow", "bytes behind a heap block of %zu bytes from %s were overwritten", n, where(pc).c_str());
    UNPOISON((uint8_t*) p + n, TAIL);
    free(p);
}
void heap_check_tails() {
    size_t worst = 0;
    void* pc = nullptr;
    uint64_t seq = ~0ULL;
    for (auto& kv : G.heap)
        if (tail_bad((uint8_t*) kv.first + kv.second.size) && kv.second.seq < seq) { seq = kv.second.seq; worst = kv.second.size; pc = (void*) kv.second.pc; }
    if (seq != ~0ULL) violation("memory:heap-overflow", "bytes behind a heap block of %zu bytes from %s were overwritten", worst, where(pc).c_str());
}

static void* sim_alloc(int side, size_t n, const char* what, void* pc) {
    sync_point(S_ALLOC, nullptr);
    if (fault_here(side == 0 ? FK_ALLOC : FK_CLALLOC)) { errno = ENOMEM; return nullptr; }
    if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n + TAIL);
    if (!p) return nullptr;
    memset(p, G.fill, n);
    memset((uint8_t*) p + n, 0xE3, TAIL);
    POISON((uint8_t*) p + n, TAIL);
    race_clear(p, n + TAIL);
    Fiber* f = G.cur;
    G.heap[(uintptr_t) p] = Blk{n, f && f->op ? f->op->id : 0, ++G.seq, side, fid(), what, pc, f ? f->proc : 0};
    if (side == 0) { G.live_ta += n; G.cnt_ta++; } else { G.live_cl += n; G.cnt_cl++; }
    return p;
}
#ifdef VARIANT_A
extern "C" int __lsan_is_turned_off() { return 1; }
#endif
static void blk_forget(std::unordered_map<uintptr_t, Blk>::iterator it) {
    if (it->second.side == 0) { G.live_ta -= it->second.size; G.cnt_ta--; } else { G.live_cl -= it->second.size; G.cnt_cl--; }
    G.heap.erase(it);
}
static std::string where(void* pc) {
    Dl_info i;
    char b[256];
    if (dladdr(pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%s", i.dli_sname);
    else if (dladdr(pc, &i) && i.dli_fname) {
        const char* s = strrchr(i.dli_fname, '/');
        snprintf(b, sizeof b, "%s+0x%lx", s ? s + 1 : i.dli_fname, (unsigned long) ((uintptr_t) pc - (uintptr_t) i.dli_fbase));
    } else snprintf(b, sizeof b, "?");
    return b;
}
static void scan_freed(const Blk& b, void* p, void* pc) {
    if (!G.scan) return;
    size_t w = 0;
    if (b.side == 1 && secret_scan(p, b.size, &w, true))
        violation("secret:client-memory", "client memory of %zu bytes freed by %s holds clear key bytes that exist only inside the TEE", b.size, where(pc).c_str());
    if (b.side != 0) return;
    // a hostile client puts key bytes it knows wherever it likes
    if (secret_scan(p, b.size, &w) && !(G.cur && raw_running(G.cur->id) && raw_sent(G.cur->id, (uint8_t*) p + w, 16)))
        violation("secret:freed-unwiped", "TEE memory of %zu bytes allocated by %s is given back by %s with clear key bytes at offset %zu",
                b.size, where(b.pc).c_str(), where(pc).c_str(), w);
}
static void sim_release(int side, void* p, void* pc) {
    sync_point(S_FREE, nullptr);
    if (!p) return;
    auto it = G.heap.find((uintptr_t) p);
    if (it == G.heap.end()) {
#ifndef VARIANT_A
        violation("memory:bad-free", "free of memory that is not allocated, by %s", where(pc).c_str());
#endif
        free(p);  // ASan reports a double or wild free; a live OpenSSL/libc block is fine
        return;
    }
    scan_freed(it->second, p, pc);
    drop_mutexes_in((uintptr_t) p, it->second.size, true);
    race_range_write(p, it->second.size, pc);
    race_clear(p, it->second.size);      // the memory may next belong to code that is not instrumented
    size_t sz = it->second.size;
    void* apc = it->second.pc;
    blk_forget(it);
    tail_free(p, sz, apc);
}
static void* sim_re(int side, void* p, size_t n, void* pc) {
    if (!p) return sim_alloc(side, n, "realloc", pc);
    auto it = G.heap.find((uintptr_t) p);
    size_t old = it == G.heap.end() ? 0 : it->second.size;
    if (it == G.heap.end()) violation("memory:bad-realloc", "realloc of memory that is not allocated, by %s", where(pc).c_str());
    void* q = sim_alloc(side, n, "realloc", pc);  // always moves: the hardest legal behaviour of realloc
    if (!q) return nullptr;
    memcpy(q, p, std::min(old, n));
    sim_release(side, p, pc);
    return q;
}
#define RA __builtin_return_address(0)
#define LIBSIDE(pre, side)                                                                                      \
    extern "C" {                                                                                                \
    void* sim_##pre##_malloc(size_t n) { return sim_alloc(side, n, "malloc", RA); }                             \
    void* sim_##pre##_calloc(size_t a, size_t b) {                                                              \
        size_t n;                                                                                               \
        if (__builtin_mul_overflow(a, b, &n)) return nullptr;                                                   \
        void* p = sim_alloc(side, n, "calloc", RA);                                                             \
        if (p) memset(p, 0, n);                                                                                 \
        return p;                                                                                               \
    }                                                                                                           \
    void* sim_##pre##_realloc(void* p, size_t n) { return sim_re(side, p, n, RA); }                             \
    void* sim_##pre##_reallocarray(void* p, size_t a, size_t b) {                                               \
        size_t n;                                                                                               \
        if (__builtin_mul_overflow(a, b, &n)) return nullptr;                                                   \
        return sim_re(side, p, n, RA);                                                                          \
    }                                                                                                           \
    void sim_##pre##_free(void* p) { sim_release(side, p, RA); }                                                \
    char* sim_##pre##_strdup(const char* s) {                                                                   \
        size_t n = strlen(s) + 1;                                                                               \
        char* p = (char*) sim_alloc(side, n, "strdup", RA);                                                     \
        if (p) memcpy(p, s, n);                                                                                 \
        return p;                                                                                               \
    }                                                                                                           \
    char* sim_##pre##_strndup(const char* s, size_t m) {                                                        \
        size_t n = strnlen(s, m);                                                                               \
        char* p = (char*) sim_alloc(side, n + 1, "strndup", RA);                                                \
        if (p) { memcpy(p, s, n); p[n] = 0; }                                                                   \
        return p;                                                                                               \
    }                                                                                                           \
    void* sim_##pre##_aligned_alloc(size_t, size_t n) { return sim_alloc(side, n, "aligned_alloc", RA); }       \
    void* sim_##pre##_memalign(size_t, size_t n) { return sim_alloc(side, n, "memalign", RA); }                 \
    int sim_##pre##_posix_memalign(void** p, size_t, size_t n) {                                                \
        *p = sim_alloc(side, n, "posix_memalign", RA);                                                          \
        return *p ? 0 : ENOMEM;                                                                                 \
    }                                                                                                           \
    }
LIBSIDE(ta, 0)
LIBSIDE(cl, 1)
LIBSIDE(pr, 2)

// the OpenSSL provider takes its memory from OpenSSL
extern "C" {
void* sim_pr_CRYPTO_malloc(size_t n, const char*, int) { return n ? sim_alloc(2, n, "malloc", RA) : nullptr; }
void* sim_pr_CRYPTO_zalloc(size_t n, const char*, int) {
    void* p = n ? sim_alloc(2, n, "zalloc", RA) : nullptr;
    if (p) memset(p, 0, n);
    return p;
}
void sim_pr_CRYPTO_free(void* p, const char* file, int line) {
    if (G.heap.count((uintptr_t) p)) sim_release(2, p, RA);
    else CRYPTO_free(p, file, line);
}
void sim_pr_CRYPTO_clear_free(void* p, size_t n, const char* file, int line) {
    if (p) memset(p, 0, n);
    sim_pr_CRYPTO_free(p, file, line);
}
void* sim_pr_CRYPTO_realloc(void* p, size_t n, const char*, int) { return sim_re(2, p, n, RA); }
void* sim_pr_CRYPTO_memdup(const void* d, size_t n, const char*, int) {
    if (!d) return nullptr;
    void* p = sim_alloc(2, n, "memdup", RA);
    if (p) memcpy(p, d, n);
    return p;
}
char* sim_pr_CRYPTO_strdup(const char* d, const char*, int) {
    if (!d) return nullptr;
    char* p = (char*) sim_alloc(2, strlen(d) + 1, "strdup", RA);
    if (p) memcpy(p, d, strlen(d) + 1);
    return p;
}
}
uint64_t heap_seq() {
    uint64_t n = 0;
    for (auto& kv : G.heap) n = std::max(n, kv.second.seq);
    return n;
}
size_t heap_count(int side, std::string& out, uint64_t after) {
    std::vector<std::pair<uint64_t, Blk>> v;
    for (auto& kv : G.heap)
        if (kv.second.side == side && kv.second.seq > after) v.push_back({kv.second.seq, kv.second});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& x : v) {
        char b[256];
        snprintf(b, sizeof b, " %zu bytes from %s in call %llu;", x.second.size, where(x.second.pc).c_str(), (unsigned long long) x.second.op);
        if (out.size() < 600) out += b;
    }
    return v.size();
}

void heap_op_leaks(uint64_t op, std::string& out, size_t& n) {
    std::vector<std::pair<uint64_t, Blk>> v;
    for (auto& kv : G.heap)
        if (kv.second.op == op && kv.second.side != 2) v.push_back({kv.second.seq, kv.second});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    n = v.size();
    for (auto& x : v) {
        char b[256];
        snprintf(b, sizeof b, " %zu bytes (%s) from %s;", x.second.size, x.second.side ? "client" : "TEE", where(x.second.pc).c_str());
        if (out.size() < 600) out += b;
    }
}

// secrets: every 8-byte window of each secret, at any alignment
void secret_add(const void* p, size_t n, bool ta_only) {
    const uint8_t* b = (const uint8_t*) p;
    if (n < 16) return;
    std::set<uint8_t> s(b, b + n);
    if (s.size() < 8) return;   // skip low-entropy material
    for (size_t i = 0; i + 8 <= n; i++) {
        uint64_t w;
        memcpy(&w, b + i, 8);
        std::set<uint8_t> d(b + i, b + i + 8);
        if (d.size() < 5) continue;
        auto it = G.secret_win.find(w);
        if (it == G.secret_win.end()) G.secret_win[w] = ta_only;
        else if (!ta_only) it->second = false;
    }
}
NOSAN bool secret_scan(const void* p, size_t n, size_t* at, bool ta_only) {
    const uint8_t* b = (const uint8_t*) p;
    if (n < 16 || G.secret_win.empty()) return false;
    // two adjacent hits = 16 consecutive secret bytes
    for (size_t i = 0; i + 16 <= n; i++) {
        uint64_t w, w2;
        __builtin_memcpy(&w, b + i, 8);
        auto x = G.secret_win.find(w);
        if (x == G.secret_win.end() || (ta_only && !x->second)) continue;
        __builtin_memcpy(&w2, b + i + 8, 8);
        x = G.secret_win.find(w2);
        if (x == G.secret_win.end() || (ta_only && !x->second)) continue;
        if (at) *at = i;
        return true;
    }
    return false;
}
void secret_scan_clients() {
    for (auto& kv : G.heap)
        if (kv.second.side == 1 && secret_scan((void*) kv.first, kv.second.size, nullptr, true))
            violation("secret:client-memory", "client memory of %zu bytes allocated by %s holds clear key bytes that exist only inside the TEE",
                    kv.second.size, where(kv.second.pc).c_str());
}

// ------------------------------------------------------------------ SVP region
static uint8_t* svp_mem;
static const size_t SVP_SIZE = 256 * 1024;
struct SvpBlk { size_t off, size; };
static std::map<size_t, size_t> svp_blks;  // offset -> size
static std::map<size_t, std::pair<int, uint64_t>> svp_by;   // offset -> process, operation
static const size_t SVP_RZ = 32;
uint8_t* svp_base() {
    if (!svp_mem) {
        svp_mem = (uint8_t*) mmap((void*) 0x5f0000000000, SVP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
        if (svp_mem == MAP_FAILED) internal_error("svp mmap");
    }
    return svp_mem;
}
size_t svp_region_size() { return SVP_SIZE; }
bool in_svp(const void* p, size_t n) {
    uintptr_t a = (uintptr_t) p, b = (uintptr_t) svp_base();
    if (a + n < a) return false;
    return a >= b && a + n <= b + SVP_SIZE;
}
void svp_reset() {
    svp_blks.clear();
    svp_by.clear();
    UNPOISON(svp_base(), SVP_SIZE);
    memset(svp_base(), 0xD7, SVP_SIZE);
    POISON(svp_base(), SVP_SIZE);
}
void* svp_raw_alloc(size_t n) {
    size_t need = (n + 15) / 16 * 16 + SVP_RZ;
    size_t at = SVP_RZ;
    for (auto& b : svp_blks) {
        if (b.first >= at + need) break;
        at = std::max(at, (b.first + b.second + 15) / 16 * 16 + SVP_RZ);
    }
    if (at + need > SVP_SIZE) return nullptr;
    svp_blks[at] = n;
    svp_by[at] = {G.cur ? G.cur->proc : 0, G.cur && G.cur->op ? G.cur->op->id : 0};
    UNPOISON(svp_mem + at, n);
    memset(svp_mem + at, G.fill ^ 0x11, n);
    race_clear(svp_mem + at, n);
    return svp_mem + at;
}
NOSAN static bool canary_bad(size_t from, size_t to, size_t* at) {
    for (size_t i = from; i < to; i++)
        if (((volatile uint8_t*) svp_mem)[i] != 0xD7) { *at = i; return true; }
    return false;
}
void svp_check_canaries() {
    if (!svp_mem) return;
    size_t pos = 0, at = 0;
    size_t end = 0;
    for (auto& b : svp_blks) {
        if (canary_bad(pos, b.first, &at))
            violation("svp:out-of-bounds-write", "SVP region byte %zu outside every SVP allocation was overwritten", at);
        pos = b.first + b.second;
        end = pos;
    }
    size_t lim = std::min(SVP_SIZE, end + 4096);
    if (canary_bad(pos, lim, &at))
        violation("svp:out-of-bounds-write", "SVP region byte %zu outside every SVP allocation was overwritten", at);
}
bool svp_is_block(const void* p, size_t* size) {
    if (!in_svp(p, 1)) return false;
    auto it = svp_blks.find((uint8_t*) p - svp_mem);
    if (it == svp_blks.end()) return false;
    if (size) *size = it->second;
    return true;
}
// a TEE that knows which protected memory it gave to whom
bool svp_in_own_block(const void* p, size_t n) {
    if (!in_svp(p, n)) return false;
    size_t at = (size_t) ((const uint8_t*) p - svp_mem);
    auto it = svp_blks.upper_bound(at);
    if (it == svp_blks.begin()) return false;
    --it;
    if (at + n > it->first + it->second) return false;
    auto b = svp_by.find(it->first);
    return b != svp_by.end() && b->second.first == (G.cur ? G.cur->proc : 0);
}
size_t svp_live(int proc, uint64_t op) {
    size_t n = 0;
    for (auto& b : svp_by) n += svp_blks.count(b.first) && b.second.first == proc && (!op || b.second.second == op);
    return n;
}
void svp_drop(int proc) {
    for (auto it = svp_by.begin(); it != svp_by.end();) {
        auto x = svp_blks.find(it->first);
        if (x != svp_blks.end() && it->second.first == proc) {
            UNPOISON(svp_mem + x->first, x->second);
            memset(svp_mem + x->first, 0xD7, x->second);
            POISON(svp_mem + x->first, x->second);
            svp_blks.erase(x);
        }
        it = it->second.first == proc ? svp_by.erase(it) : std::next(it);
    }
}
extern "C" void* sim_svp_malloc(size_t n) {
    sync_point(S_ALLOC, nullptr);
    if (fault_here(FK_SVPALLOC)) return nullptr;
    if (G.svp_owned && G.cur && G.cur->proc == 0) {
        size_t sum = n;
        for (auto& b : svp_by) if (b.second.first == 0) sum += svp_blks[b.first];
        if (n > 65536 || sum > 100000) return nullptr;
    }
    void* p = svp_raw_alloc(n);
    if (p && G.cur && G.cur->op) G.cur->op->svp_mem = p;
    return p;
}
NOSAN static void raw_set(void* p, int v, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
extern "C" void sim_svp_free(void* p) {
    sync_point(S_FREE, nullptr);
    if (!p) return;
    auto it = in_svp(p, 1) ? svp_blks.find((uint8_t*) p - svp_mem) : svp_blks.end();
    if (G.svp_owned && G.cur && G.cur->proc == 0) return;    // a hostile client may have told the TA about it more than once
    if (it == svp_blks.end()) violation("memory:bad-svp-free", "SVP memory freed twice or never allocated");
    race_range_write(p, it->second, RA);
    raw_set(p, 0xD7, it->second);
    POISON(p, it->second);
    svp_by.erase(it->first);
    svp_blks.erase(it);
}

// ------------------------------------------------------------------ random source
static void entropy_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (G.entropy.next() >> 32); }
static uint8_t* rng_copy_tmp;
extern "C" {
int sim_RAND_bytes(unsigned char* buf, int n) {
    sync_point(S_RNG, nullptr);
    Fiber* f = G.cur;
    uint64_t arg = 0;
    if (n < 0) return 0;
    if (fault_here(FK_RNG, &arg)) {
        // a failing source may have produced some of the bytes, or none
        size_t part = n ? arg % (n + 1) : 0;
        if (arg & 1) part = 0;
        if (part) { memset(buf, 0x5c, part); count_fault(FK_RNGPART); }
        G.ledger.push_back({f && f->op ? f->op->id : 0, Bytes(n, 0), true, false});
        return arg & 2 ? -1 : 0;        // both mean failure
    }
    if (f && f->big) { f->big_got += (size_t) n; return 1; }
    Bytes b(n);
    entropy_fill(b.data(), n);
    if (n) memcpy(buf, b.data(), n);   // in the simulator: ASan checks the destination
    if (n) race_range_write(buf, n, RA);
    if (f && f->op) f->op->rng.push_back(b);
    if (f && f->op && f->op->secret_rng && G.scan && n >= 16) secret_add(b.data(), b.size(), true);
    G.ledger.push_back({f && f->op ? f->op->id : 0, b, false, false});
    return 1;
}
int sim_RAND_priv_bytes(unsigned char* buf, int n) { return sim_RAND_bytes(buf, n); }
int sim_CRYPTO_set_mem_functions(void*, void*, void*) { return 1; }
}
static int meth_bytes(unsigned char* buf, int n) {
    // OpenSSL's own use of randomness (key generation, nonces, blinding)
    if (n < 0) return 0;
    if (!G.cur || !G.cur->in_ta) {
        for (int i = 0; i < n; i++) buf[i] = (uint8_t) (G.drv.next() >> 32);
        return 1;
    }
    if (fault_here(FK_RNG)) return 0;
    entropy_fill(buf, n);
    if (G.cur && G.cur->op) G.cur->op->rng_internal.push_back(Bytes(buf, buf + n));
    return 1;
}
static int meth_status() { return 1; }
static RAND_METHOD sim_rand_meth = {nullptr, meth_bytes, nullptr, nullptr, meth_bytes, meth_status};

// ------------------------------------------------------------------ OpenSSL failures and object accounting
struct OBlk { const char* file; int line; size_t size; uint64_t op; };
static std::unordered_map<void*, OBlk> oblks;
static const char* const ofiles[] = {"evp/evp_enc.c", "evp/digest.c", "evp/mac_lib.c", "evp/p_lib.c", "evp/pmeth_lib.c", "bio/bio_lib.c", "ec/ecdsa_ossl.c", "pkcs12/", "pkcs7/", "evp/kdf_lib.c", "evp/signature.c", "evp/exchange.c", "evp/asymcipher.c", "crypto/params", nullptr};
static bool ofile_match_slow(const char* f) {
    for (int i = 0; ofiles[i]; i++)
        if (strstr(f, ofiles[i])) return true;
    return false;
}
static bool ofile_match(const char* f) {          // file names are literals: remember the answer per pointer
    static struct { const char* f; bool m; } seen[4096];
    if (!f) return false;
    auto& e = seen[((uintptr_t) f >> 2 ^ (uintptr_t) f >> 14) & 4095];
    if (e.f != f) { e.m = ofile_match_slow(f); e.f = f; }
    return e.m;
}
extern "C" const char* const sim_fault_names[];
// What the OpenSSL calls of the TEE read and write: OpenSSL itself is not instrumented.
static void race_range_read(const void* p, size_t n, void* pc);
static void ossl_read(const char* fn, const void* p, size_t n, void* pc) {
    if (!p || !n || n > (1u << 26)) return;
    race_range_read(p, n, pc);
#ifdef VARIANT_A
    // memory on the way in must be memory of the caller
    if (void* bad = __asan_region_is_poisoned((void*) p, n))
        violation("memory:read", "%s is given %zu bytes, of which byte %zu is not accessible memory", fn, n, (size_t) ((char*) bad - (char*) p));
#endif
    (void) fn;
}
static void ossl_write(const void* p, size_t n, void* pc) { if (p && n) race_range_write((void*) p, n, pc); }
enum { OA_NONE, OA_CTX, OA_INIT, OA_CUPD, OA_CTRL, OA_UPD, OA_DFIN, OA_SFIN, OA_SIGN, OA_MINIT, OA_MFIN, OA_DERIVE, OA_PDEC, OA_D2I, OA_BIO, OA_OCT };
static void ossl_access(int idx, const uint64_t* a) {
    static std::vector<uint8_t> kind;
    if (kind.empty()) {
        static const std::map<std::string, int> t{{"EVP_EncryptInit_ex", OA_INIT}, {"EVP_DecryptInit_ex", OA_INIT}, {"EVP_EncryptUpdate", OA_CUPD},
                {"EVP_DecryptUpdate", OA_CUPD}, {"EVP_EncryptFinal", OA_CTX}, {"EVP_EncryptFinal_ex", OA_CTX}, {"EVP_DecryptFinal", OA_CTX},
                {"EVP_DecryptFinal_ex", OA_CTX}, {"EVP_CIPHER_CTX_ctrl", OA_CTRL}, {"EVP_CIPHER_CTX_set_padding", OA_CTX},
                {"EVP_DigestInit_ex", OA_CTX}, {"EVP_DigestUpdate", OA_UPD}, {"EVP_DigestFinal_ex", OA_DFIN}, {"EVP_DigestSignInit", OA_CTX},
                {"EVP_DigestSignUpdate", OA_UPD}, {"EVP_DigestSignFinal", OA_SFIN}, {"EVP_DigestSign", OA_SIGN}, {"EVP_MAC_init", OA_MINIT},
                {"EVP_MAC_update", OA_UPD}, {"EVP_MAC_final", OA_MFIN}, {"EVP_PKEY_derive", OA_DERIVE}, {"EVP_PKEY_sign", OA_SIGN},
                {"EVP_PKEY_decrypt", OA_PDEC}, {"d2i_ECDSA_SIG", OA_D2I}, {"d2i_PUBKEY", OA_D2I}, {"BIO_new_mem_buf", OA_BIO},
                {"EC_POINT_oct2point", OA_OCT}};
        for (int i = 0; sim_fault_names[i]; i++) { auto it = t.find(sim_fault_names[i]); kind.push_back(it == t.end() ? OA_NONE : (uint8_t) it->second); }
    }
    const char* fn = sim_fault_names[idx];
    void* pc = (void*) a[1];
    auto P = [&](int i) { return (const void*) a[-i]; };
    int k = kind[(size_t) idx];
    if (k == OA_NONE) return;
    if (k != OA_D2I && k != OA_BIO && k != OA_OCT) ossl_write(P(1), 8, pc);
    switch (k) {
        case OA_INIT: {
            auto* ci = (const EVP_CIPHER*) P(2);
            if (!ci && P(1)) ci = EVP_CIPHER_CTX_get0_cipher((EVP_CIPHER_CTX*) P(1));
            if (!ci) break;
            ossl_read(fn, P(4), (size_t) EVP_CIPHER_get_key_length(ci), pc);
            ossl_read(fn, P(5), (size_t) std::min(EVP_CIPHER_get_iv_length(ci), 12), pc);
            break;
        }
        case OA_CUPD: if ((int) a[-5] > 0) ossl_read(fn, P(4), (size_t) (int) a[-5], pc); break;
        case OA_CTRL:
            if ((int) a[-2] == EVP_CTRL_AEAD_SET_TAG && (int) a[-3] > 0) ossl_read(fn, P(4), (size_t) (int) a[-3], pc);
            if ((int) a[-2] == EVP_CTRL_AEAD_GET_TAG && (int) a[-3] > 0) ossl_write(P(4), (size_t) (int) a[-3], pc);
            break;
        case OA_UPD: ossl_read(fn, P(2), a[-3], pc); break;
        case OA_DFIN: ossl_write(P(2), 16, pc); break;
        case OA_SFIN: ossl_write(P(2), 8, pc); break;
        case OA_SIGN: ossl_write(P(2), 8, pc); ossl_read(fn, P(4), a[-5], pc); break;
        case OA_MINIT: ossl_read(fn, P(2), a[-3], pc); break;
        case OA_MFIN: ossl_write(P(2), 16, pc); break;
        case OA_DERIVE: ossl_write(P(2), 8, pc); break;
        case OA_PDEC: ossl_read(fn, P(4), a[-5], pc); break;
        case OA_D2I: if (P(2) && (long) a[-3] > 0) ossl_read(fn, *(const void* const*) P(2), a[-3], pc); break;
        case OA_BIO: if ((int) a[-2] > 0) ossl_read(fn, P(1), (size_t) (int) a[-2], pc); break;
        case OA_OCT: ossl_read(fn, P(3), a[-4], pc); break;
    }
}
// args[-1..-6]: the integer arguments of the call
extern "C" int sim_ossl_fault(int idx, const uint64_t* args) {
    if (G.scan && G.cur && G.cur->in_ta) {
        // every key the TEE gives a cipher is a secret, those of its key ladder too
        static int enc = -1, dec = -1, mac = -1;
        if (enc < 0)
            for (int i = 0; sim_fault_names[i]; i++) {
                if (!strcmp(sim_fault_names[i], "EVP_EncryptInit_ex")) enc = i;
                if (!strcmp(sim_fault_names[i], "EVP_DecryptInit_ex")) dec = i;
                if (!strcmp(sim_fault_names[i], "EVP_MAC_init")) mac = i;
            }
        // but the Netflix scheme keys its MAC with SHA-384 of a key, which sa_key_digest gives to anyone who holds that key
        bool plain = G.cur->op && G.cur->op->digest_mac && args[-3] == 48;
        if (idx == mac && args[-2] && !plain) secret_add((const void*) args[-2], args[-3], false);
        if ((idx == enc || idx == dec) && args[-4]) {
            auto* ci = (const EVP_CIPHER*) args[-2];
            if (!ci) ci = EVP_CIPHER_CTX_get0_cipher((EVP_CIPHER_CTX*) args[-1]);
            if (ci) secret_add((const void*) args[-4], (size_t) EVP_CIPHER_get_key_length(ci), false);
        }
    }
    if (G.cur && G.cur->in_ta && G.cur->op && G.cur->op->wraps) {
        static int enc = -1;
        if (enc < 0)
            for (int i = 0; sim_fault_names[i]; i++)
                if (!strcmp(sim_fault_names[i], "EVP_EncryptInit_ex")) enc = i;
        if (idx == enc && args[-5]) {
            // keys are wrapped with an IV taken from the entropy source for this item and for no other
            auto* ci = (const EVP_CIPHER*) args[-2];
            if (!ci) ci = EVP_CIPHER_CTX_get0_cipher((EVP_CIPHER_CTX*) args[-1]);
            size_t n = ci ? (size_t) EVP_CIPHER_get_iv_length(ci) : 0;
            auto* iv = (const uint8_t*) args[-5];
            if (n >= 12) {
                bool fresh = false;
                for (auto& b : G.cur->op->rng)
                    if (std::search(b.begin(), b.end(), iv, iv + n) != b.end()) fresh = true;
                Bytes v(iv, iv + n);
                if (!fresh || !G.wrap_iv.insert(v).second) violation("random:wrap", "a key is wrapped with an IV that %s", fresh ? "was used before" : "is not taken from the entropy source for it");
            }
        }
    }
    if (G.cur && G.cur->in_ta) ossl_access(idx, args);
    sync_point(S_OSSL, nullptr);
    if (!fault_here(FK_OSSL)) return 0;
    note("        in %s", sim_fault_names[idx]);
    return 1;
}
static void* om(size_t n, const char* file, int line) {
    void* p = malloc(n);
    if (p) race_clear(p, n);
    if (p && G.cur && (G.cur->in_ta || G.cur->in_prov) && ofile_match(file)) oblks[p] = OBlk{file, line, n, G.cur->op ? G.cur->op->id : 0};
    return p;
}
static void of(void* p, const char*, int) {
    if (!p) return;
    if (!oblks.empty()) oblks.erase(p);
    auto it = G.heap.find((uintptr_t) p);
    if (it != G.heap.end()) {          // a block handed over to OpenSSL (OAEP label)
        size_t sz = it->second.size;
        void* pc = it->second.pc;
        blk_forget(it);
        tail_free(p, sz, pc);
        return;
    }
    free(p);
}
static void* orl(void* p, size_t n, const char* file, int line) {
    if (!p) return om(n, file, line);
    auto it = oblks.find(p);
    if (it == oblks.end()) {
        void* q = realloc(p, n);
        if (q) race_clear(q, n);
        return q;
    }
    OBlk b = it->second;
    oblks.erase(it);
    void* q = realloc(p, n);
    if (q) race_clear(q, n);
    if (q) oblks[q] = b;
    return q;
}
long ossl_live_objects() { return (long) oblks.size(); }
void ossl_report(std::string& out) {
    std::map<std::string, int> m;
    for (auto& kv : oblks) {
        char b[160];
        snprintf(b, sizeof b, "%s:%d", kv.second.file, kv.second.line);
        m[b]++;
    }
    for (auto& kv : m) out += kv.first + " x" + std::to_string(kv.second) + "; ";
}
void ossl_accounting_init() {
    if (!CRYPTO_set_mem_functions(om, orl, of)) internal_error("CRYPTO_set_mem_functions");
    RAND_set_rand_method(&sim_rand_meth);
}

// ------------------------------------------------------------------ the key store file
static Bytes keystore;
void keystore_set(const Bytes& c) { keystore = c; }
const Bytes& keystore_get() { return keystore; }
struct KF { Bytes data; size_t pos; int64_t err_at; };
static ssize_t kf_read(void* c, char* buf, size_t n) {
    KF* k = (KF*) c;
    if (k->err_at >= 0 && k->pos >= (size_t) k->err_at) { errno = EIO; return -1; }
    size_t lim = k->err_at >= 0 ? std::min((size_t) k->err_at, k->data.size()) : k->data.size();
    size_t m = std::min(n, lim > k->pos ? lim - k->pos : 0);
    memcpy(buf, k->data.data() + k->pos, m);
    k->pos += m;
    return (ssize_t) m;
}
static int kf_seek(void* c, off64_t* off, int wh) {
    KF* k = (KF*) c;
    int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (int64_t) k->pos + *off : (int64_t) k->data.size() + *off;
    if (p < 0) return -1;
    k->pos = p;
    *off = p;
    return 0;
}
static int kf_close(void* c) { G.files_open--; delete (KF*) c; return 0; }
extern "C" FILE* sim_fopen(const char* path, const char* mode) {
    sync_point(S_FILE, nullptr);
    uint64_t a = 0;
    if (fault_here(FK_FOPEN)) { errno = ENOENT; return nullptr; }
    if (G.keystore_faulty) {
        if (G.cur && G.cur->op) { G.cur->op->faults++; G.cur->op->fault_mask |= 1u << FK_FOPEN; }
        errno = ENOENT;
        return nullptr;
    }
    KF* k = new KF{keystore, 0, -1};
    if (fault_here(FK_FREAD, &a)) k->err_at = a % (keystore.size() + 1);
    else if (fault_here(FK_FTRUNC, &a)) k->data.resize(a % keystore.size());
    else if (fault_here(FK_FCORRUPT, &a)) {
        Bytes& d = k->data;
        Rng r(Rng::mix(a));
        size_t how = r.below(6), n = d.size();
        if (how < 2) {                                          // text (names, time stamps) replaced by other plausible text
            std::vector<size_t> at;
            for (size_t i = 1; i < n; i++) if (isxdigit((uint8_t) d[i]) && (!d[i - 1] || (i + 2 < n && isxdigit((uint8_t) d[i + 1]) && isxdigit((uint8_t) d[i + 2])))) at.push_back(i);
            for (size_t m = at.empty() ? 0 : 1 + r.below(3); m--;) { size_t i = at[r.below(at.size())]; char c = "0123456789abcdef"[r.below(16)]; d[i] = d[i] == c ? (c == '1' ? '2' : '1') : c; }
        } else if (how == 2) {                                  // two stretches change places
            size_t m = 1 + r.below(r.chance(1, 2) ? 8 : 64), i = r.below(n - m), j = r.below(n - m);
            if ((i < j ? j - i : i - j) < m || !memcmp(&d[i], &d[j], m)) d[i] ^= 1;
            else std::swap_ranges(d.begin() + i, d.begin() + i + m, d.begin() + j);
        } else for (size_t m = 1 + r.below(3); m--;) d[r.below(n)] ^= (char) (1 << r.below(8));
    }
    cookie_io_functions_t io = {kf_read, nullptr, kf_seek, kf_close};
    FILE* f = fopencookie(k, "rb", io);
    if (f) G.files_open++;
    return f;
}

// ------------------------------------------------------------------ instrumentation callbacks
#ifdef VARIANT_A
static uint32_t guard_n = 0;
extern "C" {
NOSAN void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) {
    if (s == e || *s) return;
    for (; s < e; s++) *s = ++guard_n;
}
NOSAN void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (G.cov && *g < G.cov_n) G.cov[*g] = 1;
    point();
}
static inline __attribute__((always_inline)) void wpoint(void* a, size_t n) {
    if ((uintptr_t) a >= G.watch_lo && (uintptr_t) a < G.watch_hi && G.cur) {
        raw_load((uintptr_t) a, n);
        G.cur->points++;
        if (G.cur->points >= G.cur->next_pp) slow_point(G.cur);
        else sync_preempt(G.cur, G.pol.watch_p);
    } else point();
}
#define LS(n)                                                   \
    NOSAN void __sanitizer_cov_load##n(void* a) { wpoint(a, n); }  \
    NOSAN void __sanitizer_cov_store##n(void* a) { (void) a; point(); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void* __asan_memcpy(void*, const void*, size_t);
void* __asan_memset(void*, int, size_t);
void* __asan_memmove(void*, const void*, size_t);
void* sim___asan_memcpy(void* d, const void* s, size_t n) {
    wpoint((void*) s, n);
    return __asan_memcpy(d, s, n);
}
void* sim___asan_memset(void* d, int c, size_t n) { point(); return __asan_memset(d, c, n); }
void* sim___asan_memmove(void* d, const void* s, size_t n) { wpoint((void*) s, n); return __asan_memmove(d, s, n); }
}
static void race_range_write(void*, size_t, void*) {}
static void race_range_read(const void*, size_t, void*) {}
static void race_clear(void*, size_t) {}
void race_reset() {}
unsigned cov_guards() { return guard_n; }
#else
// ------------------------------------------------------------------ race detector (variant T)
extern "C" {
void* sim___asan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* sim___asan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* sim___asan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
}
unsigned cov_guards() { return 0; }
struct Acc { uint32_t clk; uint8_t mask; uint8_t fib; void* pc; };
struct Cell { Acc w{0, 0, 0, nullptr}; Acc r[MAXF]; uint8_t nr = 0; };
static std::unordered_map<uintptr_t, Cell> shadow;
static std::map<uintptr_t, std::array<uint32_t, MAXF + 1>> at_vc;
void race_reset() { shadow.clear(); at_vc.clear(); }
static void race_report(uintptr_t a, const char* k1, void* pc1, int f1, const char* k2, void* pc2, int f2) {
    violation("race:data-race", "%s in %s (fiber %d) races with %s in %s (fiber %d)", k2, where(pc2).c_str(), f2, k1,
            where(pc1).c_str(), f1);
}
static inline bool ordered(const Acc& a, Fiber* f) { return a.fib == f->id || f->vc[a.fib] >= a.clk; }
static bool in_shadow;
static void race_access(uintptr_t a, uint8_t mask, bool wr, void* pc, uintptr_t granule) {
    Fiber* f = G.cur;
    in_shadow = true;
    Cell& c = shadow[granule];
    in_shadow = false;
    if ((c.w.mask & mask) && !ordered(c.w, f)) race_report(a, "write", c.w.pc, c.w.fib, wr ? "write" : "read", pc, f->id);
    if (wr) {
        for (int i = 0; i < c.nr; i++)
            if ((c.r[i].mask & mask) && !ordered(c.r[i], f)) race_report(a, "read", c.r[i].pc, c.r[i].fib, "write", pc, f->id);
        uint8_t keep = c.w.fib == f->id && c.w.clk == f->vc[f->id] ? c.w.mask : 0;
        c.w = Acc{f->vc[f->id], (uint8_t) (mask | keep), (uint8_t) f->id, pc};
        c.nr = 0;
    } else {
        for (int i = 0; i < c.nr; i++)
            if (c.r[i].fib == f->id) { c.r[i] = Acc{f->vc[f->id], (uint8_t) (mask | c.r[i].mask), (uint8_t) f->id, pc}; return; }
        if (c.nr < MAXF) c.r[c.nr++] = Acc{f->vc[f->id], mask, (uint8_t) f->id, pc};
    }
}
static void race_range(uintptr_t a, size_t n, bool wr, void* pc) {
    Fiber* f = G.cur;
    if (!f || n == 0) return;
    if (a >= (uintptr_t) f->stack && a < (uintptr_t) f->stack + f->stack_size) return;  // own stack
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ULL; g < e; g += 8) {
        uint8_t m = 0xff;
        if (g < a) m &= (uint8_t) (0xff << (a - g));
        if (g + 8 > e) m &= (uint8_t) (0xff >> (g + 8 - e));
        race_access(a, m, wr, pc, g >> 3);
    }
}
static void race_range_write(void* p, size_t n, void* pc) { race_range((uintptr_t) p, n, true, pc); }
static void race_range_read(const void* p, size_t n, void* pc) { race_range((uintptr_t) p, n, false, pc); }
static void race_clear(void* p, size_t n) {
    uintptr_t a = (uintptr_t) p, e = a + n;
    in_shadow = true;
    for (uintptr_t g = a & ~7ULL; g < e; g += 8) shadow.erase(g >> 3);
    in_shadow = false;
}
// memory of the driver: what the code under test did to it before it was freed is no concern of its next owner
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (!in_shadow && !shadow.empty()) race_clear(p, n);
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define TS(n)                                                                                                   \
    void __tsan_read##n(void* a) { race_range((uintptr_t) a, n, false, RA); point(); }                          \
    void __tsan_write##n(void* a) { point(); race_range((uintptr_t) a, n, true, RA); }                          \
    void __tsan_unaligned_read##n(void* a) { race_range((uintptr_t) a, n, false, RA); point(); }                \
    void __tsan_unaligned_write##n(void* a) { point(); race_range((uintptr_t) a, n, true, RA); }                \
    void __tsan_volatile_read##n(void* a) { race_range((uintptr_t) a, n, false, RA); point(); }                 \
    void __tsan_volatile_write##n(void* a) { point(); race_range((uintptr_t) a, n, true, RA); }                 \
    void __tsan_read_write##n(void* a) { point(); race_range((uintptr_t) a, n, true, RA); }                     \
    void __tsan_unaligned_read_write##n(void* a) { point(); race_range((uintptr_t) a, n, true, RA); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void* a, unsigned long n) { race_range((uintptr_t) a, n, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { race_range((uintptr_t) a, n, true, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    point();
    race_range((uintptr_t) s, n, false, RA);
    race_range((uintptr_t) d, n, true, RA);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    point();
    race_range((uintptr_t) s, n, false, RA);
    race_range((uintptr_t) d, n, true, RA);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    point();
    race_range((uintptr_t) d, n, true, RA);
    return memset(d, c, n);
}
// atomics synchronise through a per-address clock (acquire/release whatever the stated order: no false alarms)
static void at_sync(volatile void* a) {
    point();
    auto& v = at_vc[(uintptr_t) a];
    hb_acquire(v);
    hb_release(v);
}
#define TA(bits, T)                                                                                             \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { at_sync((volatile void*) a); return *a; }          \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { at_sync(a); *a = v; }                           \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = v; return o; }       \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = o + v; return o; }  \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = o - v; return o; }  \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = o & v; return o; }  \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = o | v; return o; }   \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = o ^ v; return o; }  \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { at_sync(a); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) {                     \
        at_sync(a);                                                                                             \
        if (*a == *e) { *a = v; return 1; }                                                                     \
        *e = *a;                                                                                                \
        return 0;                                                                                               \
    }                                                                                                           \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int x, int y) {                   \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, x, y);                                    \
    }                                                                                                           \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) {                           \
        at_sync(a);                                                                                             \
        T o = *a;                                                                                               \
        if (o == e) *a = v;                                                                                     \
        return o;                                                                                               \
    }
TA(8, uint8_t) TA(16, uint16_t) TA(32, uint32_t) TA(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif

// ------------------------------------------------------------------ libraries and their images
struct Seg { uint8_t* p; size_t n; Bytes img; };
struct Image { std::vector<Seg> segs; };
static Image img_ta, img_cl[NPROC], img_pr;
void* lib_prov;

static int seg_cb(struct dl_phdr_info* info, size_t, void* data) {
    auto* x = (std::pair<uintptr_t, Image*>*) data;
    if (info->dlpi_addr != x->first) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rlo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            rhi = (rlo + info->dlpi_phdr[i].p_memsz + 4095) & ~4095ULL;
        }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        uintptr_t a = info->dlpi_addr + ph.p_vaddr, e = a + ph.p_memsz;
        if (rhi > a && rlo <= a) a = rhi;
        if (a < e) x->second->segs.push_back({(uint8_t*) a, e - a, {}});
    }
    return 1;
}
NOSAN static void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static void snap(void* h, Image& im) {
    struct link_map* lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    std::pair<uintptr_t, Image*> x{lm->l_addr, &im};
    im.segs.clear();
    dl_iterate_phdr(seg_cb, &x);
    for (auto& s : im.segs) { s.img.resize(s.n); raw_copy(s.img.data(), s.p, s.n); }
}
static void restore(Image& im) {
    for (auto& s : im.segs) {
        raw_copy(s.p, s.img.data(), s.n);
        drop_mutexes_in((uintptr_t) s.p, s.n, false);
        auto it = onces.lower_bound((uintptr_t) s.p);
        while (it != onces.end() && it->first < (uintptr_t) s.p + s.n) it = onces.erase(it);
        race_clear(s.p, s.n);
    }
}
void libs_load(const char* dir) {
    std::string d = dir;
    lib_ta = dlopen((d + "/libta.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!lib_ta) internal_error("%s", dlerror());
    real_auth = (auth_fn) dlsym(lib_ta, "transport_authenticate_caller");
    real_valid_svp = (valid_fn) dlsym(lib_ta, "memory_is_valid_svp");
    real_valid_clear = (valid_fn) dlsym(lib_ta, "memory_is_valid_clear");
    real_open = (open_fn) dlsym(lib_ta, "ta_open_session_handler");
    real_close = (close_fn) dlsym(lib_ta, "ta_close_session_handler");
    real_invoke = (invoke_fn) dlsym(lib_ta, "ta_invoke_command_handler");
    if (!real_auth || !real_valid_svp || !real_valid_clear || !real_open || !real_close || !real_invoke)
        internal_error("missing TEE entry points");
    for (int k = 0; k < NPROC; k++) {
        lib_client[k] = dlopen((d + "/libclient" + std::to_string(k) + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!lib_client[k]) internal_error("%s", dlerror());
    }
    lib_prov = dlopen((d + "/libprov.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!lib_prov) internal_error("%s", dlerror());
}
void libs_snapshot() {
    snap(lib_prov, img_pr);
    snap(lib_ta, img_ta);
    for (int k = 0; k < NPROC; k++) snap(lib_client[k], img_cl[k]);
}
static void drop_heap(int side, int proc = -1) {
    std::vector<uintptr_t> v;
    for (auto& kv : G.heap)
        if (kv.second.side == side && (proc < 0 || kv.second.proc == proc)) v.push_back(kv.first);
    std::sort(v.begin(), v.end());
    for (auto p : v) {
        auto it = G.heap.find(p);
        drop_mutexes_in(p, it->second.size, false);
        size_t sz = it->second.size;
    void* apc = it->second.pc;
        blk_forget(it);
        tail_free((void*) p, sz, apc);
    }
}
void ta_reset() {
    ta_opened = false;
    G.ta_atexit_lost = false;
    restore(img_ta);
    drop_heap(0);
    ta_atexits.clear();
    ctxs.clear();
    oblks.clear();
    for (auto& s : sessions) s = nullptr;
}
void proc_reset(int k) {
    restore(img_cl[k]);
    if (k == 0) { restore(img_pr); drop_heap(2); }
    atexits[k].clear();
    drop_heap(1, k);
    svp_drop(k);
    sessions[k] = nullptr;
}
void all_clients_heap_drop() { drop_heap(1); }

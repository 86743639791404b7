// A client that talks to the TA without the client library's good manners: between the library and the TA it changes
// parameter types, sizes, memory, command words and command ids, and rewrites shared memory while the TA reads it.
#include "prof.h"
#include "raw.h"
#include <sys/mman.h>
#include <unistd.h>
#include "sa_ta_types.h"

namespace {
typedef sa_status (*invoke_fn)(void*, uint32_t, const uint32_t*, ta_param*);
enum { NONE = TEEC_NONE, IN = TEEC_MEMREF_TEMP_INPUT, OUT = TEEC_MEMREF_TEMP_OUTPUT, INOUT = TEEC_MEMREF_TEMP_INOUT, P_IN = TEEC_MEMREF_PARTIAL_INPUT,
    P_OUT = TEEC_MEMREF_PARTIAL_OUTPUT, P_INOUT = TEEC_MEMREF_PARTIAL_INOUT };
const uint32_t CMD_MAX = SA_KEY_PROVISION_TA;

// every parameter lies in its own pages, as close as possible to memory that must not be touched
const uintptr_t ARENA = 0x5d0000000000;
const size_t PAGE = 4096, ROOM = 32 * PAGE, SLOT = ROOM + 2 * PAGE;
bool arena_ready;
uint8_t* slot_base(int fiber, int i) { return (uint8_t*) ARENA + ((size_t) fiber * 4 + i) * SLOT + PAGE; }
void arena_init() {
    if (arena_ready) return;
    size_t n = (size_t) MAXF * 4 * SLOT;
    if (mmap((void*) ARENA, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal_error("arena");
    for (int f = 0; f < MAXF; f++)
        for (int i = 0; i < 4; i++) mprotect(slot_base(f, i), ROOM, PROT_READ | PROT_WRITE);
    arena_ready = true;
}

struct Mem {
    uint8_t* p = nullptr;
    size_t n = 0;
    Bytes shadow;         // what it holds as far as the client knows
    bool used = false;
};
struct Host {
    Rng r{1};
    bool on = false;
    bool busy = false;    // a changed command is running
    unsigned accepted = 0, sent = 0;
    unsigned flip_p = 0;  // per 1000 loads of shared memory
    int flip_mode = 0;    // 0 random words, 1 between two contents
    int flip_param = -1;
    Bytes alt;
    size_t alt_at = 0;
    bool alt_in = false;
    uint64_t flips = 0;
    Mem m[4];
};
Host hosts[MAXF];

const uint64_t odd[] = {0, 1, 2, 3, 7, 8, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 64, 127, 128, 255, 256, 257, 512, 1024, 4096, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff,
    0x100000000ULL, 0x100000001ULL, 0x2000000000000000ULL, 0x4000000000000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffff00ULL, 0xfffffffffffffff0ULL, 0xffffffffffffffffULL};
uint64_t odd_value(Rng& r) {
    uint64_t v = odd[r.below(sizeof odd / sizeof *odd)];
    if (r.chance(1, 4)) v += r.below(5) - 2;
    return v;
}
void mangle(Rng& r, uint8_t* b, size_t n) {
    if (!n) return;
    switch (r.below(6)) {
        case 0: b[r.below(n)] ^= (uint8_t) (1u << r.below(8)); return;
        case 1: b[r.below(n)] = (uint8_t) r.next(); return;
        case 2: case 3: if (n >= 8) { uint64_t v = odd_value(r); memcpy(b + r.below(n / 8) * 8, &v, 8); return; }   // fallthrough
        case 4: if (n >= 4) { uint32_t v = (uint32_t) odd_value(r); memcpy(b + r.below(n / 4) * 4, &v, 4); return; }  // fallthrough
        default: { size_t at = r.below(n), k = std::min<size_t>(n - at, 1 + r.below(32)); for (size_t i = 0; i < k; i++) b[at + i] = (uint8_t) r.next(); }
    }
}
// runs of the pattern fresh memory is filled with must not be there before the TA runs
void unfill(Bytes& b) {
    size_t run = 0;
    for (auto& x : b) {
        if (x == G.fill) run++; else run = 0;
        if (run >= 4) { x ^= 0x40; run = 0; }
    }
}
uint8_t guard_byte(const uint8_t* p) { return (uint8_t) (0xC5 ^ ((uintptr_t) p & 0x3f)); }
void place(Host& h, int fiber, int i, const Bytes& v) {
    Mem& m = h.m[i];
    uint8_t* base = slot_base(fiber, i);
    m.n = v.size();
    m.shadow = v;
    m.used = true;
    m.p = h.r.chance(1, 4) ? base : base + ROOM - m.n;
    for (uint8_t* q = m.p - 64; q < m.p; q++) if (q >= base) *q = guard_byte(q);
    for (uint8_t* q = m.p + m.n; q < m.p + m.n + 64; q++) if (q < base + ROOM) *q = guard_byte(q);
    if (m.n) memcpy(m.p, v.data(), m.n);
}
const char* words[] = {"none", "value-in", "value-out", "value-inout", "4", "in", "out", "inout", "8", "9", "10", "11", "whole", "p-in", "p-out", "p-inout"};
bool readonly(uint32_t t) { return t != OUT && t != INOUT && t != P_OUT && t != P_INOUT; }

void check_mem(Host& h, int fiber, uint32_t id, const uint32_t* types, sa_status st) {
    for (int i = 0; i < 4; i++) {
        Mem& m = h.m[i];
        if (!m.used) continue;
        uint8_t* base = slot_base(fiber, i);
        for (uint8_t* q = m.p - 64; q < m.p + m.n + 64; q++)
            if ((q < m.p || q >= m.p + m.n) && q >= base && q < base + ROOM && *q != guard_byte(q))
                violation("hostile:outside-parameter", "command %u wrote outside parameter %d (%zu bytes, at %+ld)", id, i, m.n, (long) (q - m.p));
        bool same = !m.n || memcmp(m.p, m.shadow.data(), m.n) == 0;
        if (same) continue;
        if (readonly(types[i]))
            violation("hostile:input-written", "command %u (status %d) wrote to parameter %d, which is declared type %u", id, st, i, types[i]);
        size_t run = 0;
        for (size_t k = 0; k < m.n; k++) {
            if (m.p[k] == G.fill && m.shadow[k] != G.fill) run++; else run = 0;
            if (run >= 16) violation("hostile:uninitialised-output", "command %u (status %d) put uninitialised TEE memory into parameter %d at byte %zu", id, st, i, k + 1 - run);
        }
        size_t at = 0;
        if (secret_scan(m.p, m.n, &at, true))
            violation("secret:hostile-output", "command %u (status %d) put clear key bytes into parameter %d at byte %zu", id, st, i, at);
    }
}
}

bool raw_active(int fiber) { return hosts[fiber].on; }
bool raw_sent(int fiber, const uint8_t* b, size_t n) {  // the hostile client itself put these bytes into the command
    for (auto& m : hosts[fiber].m)
        if (m.used && m.n >= n && memmem(m.p, m.n, b, n)) return true;
    return false;
}
bool raw_running(int fiber) { return hosts[fiber].busy; }
unsigned raw_accepted(int fiber) { return hosts[fiber].accepted; }
void raw_begin(int fiber, uint64_t seed) {
    arena_init();
    Host& h = hosts[fiber];
    h = Host();
    h.r = Rng(seed);
    h.on = true;
    G.watch_lo = ARENA;
    G.watch_hi = ARENA + (size_t) MAXF * 4 * SLOT;
}
void raw_end(int fiber) { hosts[fiber].on = false; }

// the TA is about to read n bytes at a: the client's other thread may get in first
void raw_load(uintptr_t a, size_t n) {
    if (!G.cur || a < ARENA) return;
    Host& h = hosts[G.cur->id];
    if (!h.busy || !h.flip_p || !h.r.chance(h.flip_p, 1000)) return;
    int i = (int) ((a - ARENA) / SLOT) - G.cur->id * 4;
    if (i < 0 || i > 3) return;
    Mem& m = h.m[i];
    if (!m.used || !m.n || a < (uintptr_t) m.p || a >= (uintptr_t) m.p + m.n) return;
    if (h.flip_mode == 1) {
        if (i != h.flip_param) return;
        for (size_t k = 0; k < h.alt.size(); k++) { std::swap(h.alt[k], m.p[h.alt_at + k]); m.shadow[h.alt_at + k] = m.p[h.alt_at + k]; }
        h.alt_in = !h.alt_in;
    } else {
        size_t off = a - (uintptr_t) m.p, len = std::min(n, m.n - off);
        if (len > 8) { off += h.r.below(len - 7); len = 8; }
        Bytes v(m.p + off, m.p + off + len);
        if (!h.r.chance(1, 3)) mangle(h.r, v.data(), len);
        else for (auto& x : v) x = (uint8_t) h.r.next();
        for (size_t k = 0; k < len; k++) if (v[k] == G.fill) v[k] ^= 1;
        memcpy(m.p + off, v.data(), len);
        memcpy(m.shadow.data() + off, v.data(), len);
    }
    if (!h.flips++) count_fault(FK_MUTATE);
}

static sa_status send(Host& h, int fiber, invoke_fn fn, void* ctx, uint32_t id, const uint32_t* types, ta_param* p) {
    uint32_t t[4];
    memcpy(t, types, sizeof t);
    stack_scrub();
    h.busy = true;
    h.flips = 0;
    sa_status st = fn(ctx, id, t, p);
    h.busy = false;
    h.sent++;
    if (st == SA_STATUS_OK) h.accepted++;
    if (memcmp(t, types, sizeof t) != 0) violation("hostile:types-written", "command %u changed the parameter types", id);
    check_mem(h, fiber, id, types, st);
    op_progress();
    return st;
}

template <class T> static Bytes as_bytes(const T& v) { return Bytes((const uint8_t*) &v, (const uint8_t*) &v + sizeof v); }
// key properties as the TA reports them: header and digest
static bool key_facts(Host& h, int fiber, invoke_fn fn, void* ctx, uint64_t key, Bytes& facts) {
    for (auto& m : h.m) m.used = false;
    h.flip_p = 0;
    sa_key_header_s kh{};
    kh.api_version = API_VERSION;
    kh.key = key;
    place(h, fiber, 0, as_bytes(kh));
    place(h, fiber, 1, Bytes(sizeof(sa_header_s), 0));
    uint32_t t[4] = {P_INOUT, P_OUT, NONE, NONE};
    ta_param p[4] = {{h.m[0].p, h.m[0].n}, {h.m[1].p, h.m[1].n}, {nullptr, 0}, {nullptr, 0}};
    if (send(h, fiber, fn, ctx, SA_KEY_HEADER, t, p) != SA_STATUS_OK) return false;
    facts.assign(h.m[1].p, h.m[1].p + h.m[1].n);
    for (auto& m : h.m) m.used = false;
    sa_key_digest_s kd{};
    kd.api_version = API_VERSION;
    kd.out_length = 32;
    kd.key = key;
    kd.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
    place(h, fiber, 0, as_bytes(kd));
    place(h, fiber, 1, Bytes(32, 0));
    ta_param q[4] = {{h.m[0].p, h.m[0].n}, {h.m[1].p, h.m[1].n}, {nullptr, 0}, {nullptr, 0}};
    if (send(h, fiber, fn, ctx, SA_KEY_DIGEST, t, q) == SA_STATUS_OK) facts.insert(facts.end(), h.m[1].p, h.m[1].p + 32);
    return true;
}
static void key_drop(Host& h, int fiber, invoke_fn fn, void* ctx, uint64_t key) {
    for (auto& m : h.m) m.used = false;
    sa_key_release_s kr{};
    kr.api_version = API_VERSION;
    kr.key = key;
    place(h, fiber, 0, as_bytes(kr));
    uint32_t t[4] = {P_IN, NONE, NONE, NONE};
    ta_param p[4] = {{h.m[0].p, h.m[0].n}, {nullptr, 0}, {nullptr, 0}, {nullptr, 0}};
    send(h, fiber, fn, ctx, SA_KEY_RELEASE, t, p);
}

// a container whose text changes while the TA imports it gives the key of one of the two texts, or none
static void torn_import(Host& h, int fiber, invoke_fn fn, void* ctx, uint32_t id, const uint32_t* types, const Bytes* v, const ta_param* params) {
    Rng& r = h.r;
    Bytes a = v[1], b = a;
    if (a.size() < 8) return;
    size_t at, n;
    for (int k = 0;; k++) {
        at = r.below(a.size());
        n = 1 + r.below(std::min<size_t>(a.size() - at, r.chance(1, 2) ? 1 : 8));
        static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        bool text = isalnum(a[a.size() / 2]) && isalnum(a[a.size() / 3]);
        for (size_t i = 0; i < n; i++) b[at + i] = text ? (uint8_t) b64[r.below(64)] : (uint8_t) (a[at + i] ^ (1u << r.below(8)));
        if (a != b) break;
        if (k > 20) return;
    }
    Bytes want[2];
    bool ok[2];
    auto run = [&](const Bytes& text, bool flip, Bytes& facts) {
        for (auto& m : h.m) m.used = false;
        ta_param p[4] = {};
        for (int i = 0; i < 4; i++) {
            if (!params[i].mem_ref) { p[i].mem_ref_size = params[i].mem_ref_size; continue; }
            place(h, fiber, i, i == 1 ? text : v[i]);
            p[i] = {h.m[i].p, h.m[i].n};
        }
        h.flip_p = 0;
        if (flip) {
            h.flip_mode = 1;
            h.flip_param = 1;
            h.alt_at = at;
            h.alt.assign((&text == &a ? b : a).begin() + (long) at, (&text == &a ? b : a).begin() + (long) (at + n));
            static const unsigned ps[] = {5, 20, 100, 300, 500};
            h.flip_p = ps[r.below(5)];
        }
        sa_status st = send(h, fiber, fn, ctx, id, types, p);
        h.flip_p = 0;
        if (st != SA_STATUS_OK) return false;
        sa_key_import_s ki;
        memcpy(&ki, h.m[0].p, sizeof ki);
        uint64_t key = ki.key;
        bool known = key_facts(h, fiber, fn, ctx, key, facts);
        key_drop(h, fiber, fn, ctx, key);
        return known;
    };
    ok[0] = run(a, false, want[0]);
    ok[1] = run(b, false, want[1]);
    if (!ok[0] && !ok[1] && !r.chance(1, 8)) return;
    for (int k = 0; k < 6; k++) {
        Bytes got;
        uint64_t f0 = G.sh->faults[FK_MUTATE];
        bool won = run(k % 2 ? a : b, true, got);
        (void) f0;
        if (!won) continue;
        if ((ok[0] && got == want[0]) || (ok[1] && got == want[1])) continue;
        // another thread of this process may have replaced the wrapping keys meanwhile: then this decides nothing
        Bytes again[2];
        bool ok2[2] = {run(a, false, again[0]), run(b, false, again[1])};
        if (ok2[0] != ok[0] || ok2[1] != ok[1] || again[0] != want[0] || again[1] != want[1]) return;
        std::string how;
        for (int t = 0; t < 2; t++) {
            if (!ok[t]) { how += " none;"; continue; }
            size_t d = 0;
            while (d < got.size() && d < want[t].size() && got[d] == want[t][d]) d++;
            how += " byte " + std::to_string(d) + " of " + std::to_string(got.size()) + "/" + std::to_string(want[t].size()) + " " + hex(Bytes(got.begin() + (long) d, got.end())) + " for " + hex(Bytes(want[t].begin() + (long) d, want[t].end())) + ";";
        }
        violation("hostile:torn-import", "a container that changes while it is imported (%zu bytes at %zu of %zu) gave a key that neither text gives:%s", n, at, a.size(), how.c_str());
    }
}

sa_status raw_invoke(void* fnp, void* ctx, uint32_t id, const uint32_t* types, void* params_) {
    invoke_fn fn = (invoke_fn) fnp;
    ta_param* params = (ta_param*) params_;
    Fiber* f = G.cur;
    Host& h = hosts[f->id];
    Rng& r = h.r;
    bool fits = true;
    for (int i = 0; i < 4; i++) if (params[i].mem_ref && params[i].mem_ref_size > ROOM - 2048) fits = false;
    int n = !fits ? 0 : r.chance(1, 3) ? 0 : 1 + (int) r.below(4);
    Bytes v[4];
    if (n)
        for (int i = 0; i < 4; i++)
            if (params[i].mem_ref) { v[i].assign((uint8_t*) params[i].mem_ref, (uint8_t*) params[i].mem_ref + params[i].mem_ref_size); unfill(v[i]); }
    if (n && id == (uint32_t) SA_KEY_IMPORT && params[1].mem_ref && params[1].mem_ref_size > 64 && v[0].size() == sizeof(sa_key_import_s)) {
        sa_key_import_s ki;
        memcpy(&ki, v[0].data(), sizeof ki);
        if (ki.key_format >= SA_KEY_FORMAT_EXPORTED && r.chance(1, 2)) { torn_import(h, f->id, fn, ctx, id, types, v, params); n = 0; }
    }
    for (int k = 0; k < n; k++) {
        if (f->kill) break;
        uint32_t t[4], cmd = id;
        ta_param p[4];
        Bytes w[4];
        bool have[4];
        memcpy(t, types, sizeof t);
        for (int i = 0; i < 4; i++) { w[i] = v[i]; have[i] = params[i].mem_ref != nullptr; p[i] = {nullptr, params[i].mem_ref_size}; }
        std::string what;
        h.flip_p = 0;
        h.flip_mode = 0;
        int edits = 1 + (int) r.below(3);
        for (int e = 0; e < edits; e++) {
            int i = (int) r.below(4);
            char b[80];
            switch (r.below(12)) {
                case 0: {
                    static const uint32_t ts[] = {NONE, IN, OUT, INOUT, P_IN, P_OUT, P_INOUT, P_IN, P_OUT, P_INOUT, NONE, 1, 3, 12, 8, 0xffffffff};
                    t[i] = ts[r.below(16)];
                    snprintf(b, sizeof b, " type[%d]=%s", i, t[i] < 16 ? words[t[i]] : "-1");
                    break;
                }
                case 1:
                    have[i] = false;
                    p[i].mem_ref_size = r.chance(2, 3) ? 0 : params[i].mem_ref_size;
                    if (r.chance(1, 2)) t[i] = NONE;
                    snprintf(b, sizeof b, " null[%d] size %llu", i, (unsigned long long) p[i].mem_ref_size);
                    break;
                case 2:
                    if (!have[i]) { have[i] = true; w[i] = r.bytes(1 + r.below(64)); unfill(w[i]); if (r.chance(3, 4)) t[i] = r.chance(1, 2) ? P_IN : P_OUT; }
                    snprintf(b, sizeof b, " memory[%d] %zu", i, w[i].size());
                    break;
                case 3: case 4: case 5: {
                    if (!have[i]) i = 0;
                    size_t n0 = w[i].size(), nn;
                    switch (r.below(5)) {
                        case 0: nn = n0 ? n0 - 1 : 1; break;
                        case 1: nn = n0 + 1; break;
                        case 2: nn = r.below(n0 + 1); break;
                        case 3: nn = n0 + r.below(r.chance(1, 4) ? 1024 : 64); break;
                        default: nn = n0 / 2; break;
                    }
                    size_t old = w[i].size();
                    w[i].resize(nn);
                    for (size_t q = old; q < nn; q++) w[i][q] = (uint8_t) r.next();
                    unfill(w[i]);
                    snprintf(b, sizeof b, " size[%d] %zu->%zu", i, n0, nn);
                    break;
                }
                case 6: case 7: case 8:
                    i = 0;     // fallthrough
                case 9: {
                    if (!have[i] || (id == (uint32_t) SA_KEY_PROVISION_TA && i == 1)) i = 0;
                    for (int q = 1 + (int) r.below(3); q; q--) mangle(r, w[i].data(), w[i].size());
                    unfill(w[i]);
                    snprintf(b, sizeof b, " words[%d]", i);
                    break;
                }
                case 10:
                    if (r.chance(1, 3)) {
                        cmd = r.chance(1, 4) ? (uint32_t) odd_value(r) : 1 + (uint32_t) r.below(CMD_MAX);
                        if (cmd == (uint32_t) SA_KEY_PROVISION_TA) cmd = id;
                        snprintf(b, sizeof b, " command %u", cmd);
                    } else {
                        int j = (int) r.below(4);
                        std::swap(w[i], w[j]);
                        std::swap(have[i], have[j]);
                        std::swap(p[i], p[j]);
                        if (r.chance(1, 2)) std::swap(t[i], t[j]);
                        if (id == (uint32_t) SA_KEY_PROVISION_TA) { w[1] = v[1]; have[1] = params[1].mem_ref != nullptr; }
                        snprintf(b, sizeof b, " swap %d %d", i, j);
                    }
                    break;
                default: {
                    if (id == (uint32_t) SA_KEY_PROVISION_TA) { b[0] = 0; break; }
                    static const unsigned ps[] = {10, 50, 200, 500, 900};
                    h.flip_p = ps[r.below(5)];
                    snprintf(b, sizeof b, " rewriting %u", h.flip_p);
                }
            }
            what += b;
        }
        for (auto& m : h.m) m.used = false;
        for (int i = 0; i < 4; i++)
            if (have[i] && !(w[i].empty() && r.chance(1, 2))) { place(h, f->id, i, w[i]); p[i] = {h.m[i].p, h.m[i].n}; }
            else if (have[i]) p[i] = {nullptr, 0};
        count_fault(FK_CORRUPT);
        note("   hostile command %u:%s", id, what.c_str());
        sa_status st = send(h, f->id, fn, ctx, cmd, t, p);
        feature(hcomb(hcomb(id, cmd), hcomb((uint64_t) st, (uint64_t) fnv(what.data(), what.find_first_of("0123456789[") == std::string::npos ? what.size() : what.find_first_of("0123456789[")))));
    }
    h.flip_p = 0;
    for (auto& m : h.m) m.used = false;
    return fn(ctx, id, types, params);
}

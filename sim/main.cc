// Worker: forks one child per simulated run from a prepared process, and reports.
#include "prof.h"
#include <openssl/encoder.h>
#include <openssl/kdf.h>
#include <openssl/decoder.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <unordered_set>
#ifdef VARIANT_A
#include <sanitizer/asan_interface.h>
#endif
void finish_run();
unsigned cov_guards();

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

#ifdef VARIANT_A
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:symbolize=0:abort_on_error=0:exitcode=79:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "quarantine_size_mb=16:malloc_context_size=3:print_summary=0:color=never:handle_segv=1:handle_sigfpe=1:handle_sigill=1:use_sigaltstack=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:symbolize=0"; }
static void asan_report(const char* text) {
    if (!G.sh || G.sh->state) return;
    std::string t = text, type = "error";
    size_t a = t.find("AddressSanitizer: ");
    if (a != std::string::npos) {
        size_t b = t.find_first_of(" \n", a + 18);
        type = t.substr(a + 18, b - a - 18);
    } else if (t.find("UndefinedBehavior") != std::string::npos || t.find("runtime error") != std::string::npos) type = "index-out-of-bounds";
    while (!type.empty() && (type.back() == ':' || type.back() == ',')) type.pop_back();
    snprintf(G.sh->cls, sizeof G.sh->cls, "asan:%s", type.c_str());
    std::string running_ops;
    for (auto* o : running) if (running_ops.size() < 400) running_ops += "  running: " + o->str() + "\n";
    snprintf(G.sh->msg, sizeof G.sh->msg, "%s%.3300s", running_ops.c_str(), text);
    G.sh->state = 2;
    finish_run();
}
static void asan_death() { _exit(77); }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

static Shared* sh;
static volatile sig_atomic_t stop_now;
static std::string esc(const std::string& s) {
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

struct Result { int state; std::string cls, msg, trace; };

static Result run_child(const char* prop, uint64_t seed, double limit) {
    Result res;
    sh->state = 0;
    memset(sh, 0, offsetof(Shared, trace));
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed\n"); exit(2); }
    if (pid == 0) {
        G.sh = sh;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        if (!G.verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        alarm((unsigned) limit);
        run_begin(prop, seed);
        run_body(prop, seed);
        finish_run();
        sh->state = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (sh->state == 0 || sh->state == 1) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 1) { res.state = 1; return res; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            sh->state = 3;
            snprintf(sh->msg, sizeof sh->msg, "run took over %.0f s of real time", limit);
        } else {
            sh->state = 2;
            snprintf(sh->cls, sizeof sh->cls, "crash:%s-%d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            snprintf(sh->msg, sizeof sh->msg, "the process running the TEE ended with %s %d", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            sh->trace_len = 0;
        }
    }
    res.state = sh->state;
    res.cls = sh->cls;
    res.msg = sh->msg;
    res.trace.assign(sh->trace, sh->trace_len);
    return res;
}

static void prepare(const char* dir) {
    ossl_accounting_init();
    libs_load(dir);
    FILE* f = fopen((std::string(dir) + "/root_keystore.p12").c_str(), "rb");
    if (!f) internal_error("root_keystore.p12");
    Bytes b;
    uint8_t t[4096];
    size_t n;
    while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
    fclose(f);
    keystore_set(b);
    keystore_prepare();
    svp_reset();
    api_load();
    libs_snapshot();
    mat_init();
    G.cov_n = cov_guards() + 1;
    G.cov = (uint8_t*) mmap(nullptr, G.cov_n + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef VARIANT_A
    __asan_set_error_report_callback(asan_report);
    __sanitizer_set_death_callback(asan_death);
#endif
}
// fill OpenSSL's method caches, so that every run starts from the same library state
// OpenSSL sets up an algorithm at its first use and keeps it: have that behind us
template <class T> static void fetched(T*, void*) {}
static void warm_openssl() {
    EVP_MD_do_all_provided(nullptr, fetched<EVP_MD>, nullptr);
    EVP_CIPHER_do_all_provided(nullptr, fetched<EVP_CIPHER>, nullptr);
    EVP_MAC_do_all_provided(nullptr, fetched<EVP_MAC>, nullptr);
    EVP_KDF_do_all_provided(nullptr, fetched<EVP_KDF>, nullptr);
    EVP_RAND_do_all_provided(nullptr, fetched<EVP_RAND>, nullptr);
    EVP_KEYMGMT_do_all_provided(nullptr, fetched<EVP_KEYMGMT>, nullptr);
    EVP_KEYEXCH_do_all_provided(nullptr, fetched<EVP_KEYEXCH>, nullptr);
    EVP_SIGNATURE_do_all_provided(nullptr, fetched<EVP_SIGNATURE>, nullptr);
    EVP_ASYM_CIPHER_do_all_provided(nullptr, fetched<EVP_ASYM_CIPHER>, nullptr);
    EVP_KEM_do_all_provided(nullptr, fetched<EVP_KEM>, nullptr);
    OSSL_ENCODER_do_all_provided(nullptr, fetched<OSSL_ENCODER>, nullptr);
    OSSL_DECODER_do_all_provided(nullptr, fetched<OSSL_DECODER>, nullptr);
    ERR_clear_error();
}
static void warm(const char* what = "WARM") {
    static bool once;
    if (!once) { once = true; warm_openssl(); }
    for (int i = 0; i < 3; i++) {
        uint64_t seed = 0x3a3a + i;
        Result r = run_child(what, seed, 60);
        if (r.state != 1) { if (G.verbose) printf("warm-up run failed: %s %s\n", r.cls.c_str(), r.msg.c_str()); continue; }
        static Shared dummy;
        G.sh = &dummy;
        uint8_t* cov = G.cov;
        G.cov = nullptr;
        run_begin(what, seed);
        run_body(what, seed);
        run_clear();
        G.cov = cov;
        G.sh = nullptr;
    }
}

static int replay(const char* dir, const char* file, bool verbose) {
    FILE* f = fopen(file, "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", file); return 2; }
    char line[8192];
    std::string prop;
    uint64_t seed = 0;
    bool trace = true;
    while (fgets(line, sizeof line, f)) {
        char w[64];
        int a, c;
        unsigned long long b, d;
        if (sscanf(line, "property %63s", w) == 1) prop = w;
        else if (!strncmp(line, "schedule from-seed", 18)) trace = false;
        else if (sscanf(line, "seed %llu", &b) == 1) seed = b;
        else if (sscanf(line, "p %d %llu %d", &a, &b, &c) == 3) G.over[{a, b}] = c;
        else if (sscanf(line, "f %d %llu %d %llu", &a, &b, &c, &d) == 4) G.fover[{a, b}] = {c, d};
        else {
            int x, y, z;
            if (sscanf(line, "s %d %d %d", &x, &y, &z) == 3) skip_ops.insert({x, y, z});
        }
    }
    fclose(f);
    prepare(dir);
    warm();
    if (prop == "C20") warm("WARM20");
    G.replay = trace;
    G.verbose = verbose;
    Result r = run_child(prop.c_str(), seed, 600);
    printf("{\"state\":%d,\"class\":\"%s\",\"msg\":\"%s\",\"hist\":%llu,\"sched\":%llu,\"points\":%llu}\n", r.state, esc(r.cls).c_str(), esc(r.msg).c_str(),
            (unsigned long long) sh->hist_hash, (unsigned long long) sh->sched_hash, (unsigned long long) sh->points);
    return 0;
}

// reads one request per line: "<seed>" then skip/p/f lines up to "run"; used to minimise
static int serve(const char* dir) {
    prepare(dir);
    warm();
    bool warm20 = false;
    char line[8192], prop[64];
    uint64_t seed = 0;
    while (fgets(line, sizeof line, stdin)) {
        int a, c;
        unsigned long long b, d;
        if (sscanf(line, "property %63s", prop) == 1) {}
        else if (sscanf(line, "seed %llu", &b) == 1) { seed = b; G.over.clear(); G.fover.clear(); skip_ops.clear(); }
        else if (sscanf(line, "p %d %llu %d", &a, &b, &c) == 3) G.over[{a, b}] = c;
        else if (sscanf(line, "f %d %llu %d %llu", &a, &b, &c, &d) == 4) G.fover[{a, b}] = {c, d};
        else if (!strncmp(line, "run", 3)) {
            if (!strcmp(prop, "C20") && !warm20) {
                auto over = G.over; auto fover = G.fover; auto skip = skip_ops;
                G.over.clear(); G.fover.clear(); skip_ops.clear(); G.replay = false;
                warm("WARM20");
                G.over = over; G.fover = fover; skip_ops = skip; warm20 = true;
            }
            G.replay = true;
            Result r = run_child(prop, seed, 60);
            printf("{\"state\":%d,\"class\":\"%s\",\"msg\":\"%s\",\"hist\":%llu,\"trace\":\"%s\"}\n", r.state, esc(r.cls).c_str(), esc(r.msg).c_str(),
                    (unsigned long long) sh->hist_hash, esc(r.trace).c_str());
            fflush(stdout);
        } else {
            int x, y, z;
            if (sscanf(line, "s %d %d %d", &x, &y, &z) == 3) skip_ops.insert({x, y, z});
        }
    }
    return 0;
}

int main(int argc, char** argv) {
    if (!getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string dir = argv[0];
    dir = dir.substr(0, dir.rfind('/'));
    std::string prop = "C01", mode = "worker";
    uint64_t seed = 1, first = 0, step = 1;
    double secs = 10, limit = 30;
    uint64_t max_runs = ~0ULL;
    bool verbose = false, twice = false;
    std::string file;
    size_t maxviol = 6;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = next();
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--step") step = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--seconds") secs = strtod(next().c_str(), nullptr);
        else if (a == "--runs") max_runs = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--maxviol") maxviol = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--replay") { mode = "replay"; file = next(); }
        else if (a == "--serve") mode = "serve";
        else if (a == "--one") mode = "one";
        else if (a == "--twice") twice = true;
        else if (a == "-v") verbose = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (mode == "replay") return replay(dir.c_str(), file.c_str(), verbose);
    if (mode == "serve") return serve(dir.c_str());
    double t0 = now();
    prepare(dir.c_str());
    G.verbose = verbose && mode == "one";
    warm();
    if (prop == "C20") warm("WARM20");
    double t1 = now();
    if (mode == "one") {
        G.verbose = verbose; if (verbose) printf("== run %s %llu\n", prop.c_str(), (unsigned long long) seed), fflush(stdout);
        Result r = run_child(prop.c_str(), seed, 600);
        printf("state %d class %s hist %016llx sched %016llx points %llu ops %llu ok %llu refused %llu faulted %llu\n%s\n", r.state, r.cls.c_str(),
                (unsigned long long) sh->hist_hash, (unsigned long long) sh->sched_hash, (unsigned long long) sh->points,
                (unsigned long long) sh->ops, (unsigned long long) sh->ops_ok, (unsigned long long) sh->ops_refused, (unsigned long long) sh->ops_faulted, r.msg.c_str());
        return 0;
    }
    // worker
    signal(SIGTERM, [](int) { stop_now = 1; });
    uint64_t runs = 0, ops = 0, ok = 0, refused = 0, faulted = 0, points = 0, switches = 0, sims = 0, lin = 0, internal = 0, mismatched = 0;
    uint64_t faults[FK_MAX] = {0}, aux[16] = {0};
    std::unordered_set<uint64_t> scheds, hists, feats, nontriv;
    std::vector<std::string> samples;
    std::map<std::string, int> classes;
    std::string ierr;
    size_t nviol = 0;
    for (uint64_t i = first; runs < max_runs && now() - t1 < secs; i += step) {
        if (stop_now) break;
        uint64_t s = hcomb(hcomb(seed, fnv(prop.data(), prop.size())), i) >> 1;
        Result r = run_child(prop.c_str(), s, limit);
        runs++;
        ops += sh->ops;
        ok += sh->ops_ok;
        refused += sh->ops_refused;
        faulted += sh->ops_faulted;
        points += sh->points;
        switches += sh->switches;
        sims += sh->sim_seconds;
        lin += sh->lin_states;
        for (int k = 0; k < FK_MAX; k++) faults[k] += sh->faults[k];
        for (int k = 0; k < 16; k++) aux[k] += sh->aux[k];
        scheds.insert(sh->sched_hash);
        hists.insert(sh->hist_hash);
        if (sh->ops_ok >= 3 && sh->points > 100) nontriv.insert(hcomb(sh->hist_hash, sh->sched_hash));
        for (uint32_t k = 0; k < sh->nfeat; k++) feats.insert(sh->feat[k]);
        if (twice || runs % 97 == 1) {
            uint64_t h = sh->hist_hash, c = sh->sched_hash;
            int st = r.state;
            Result r2 = run_child(prop.c_str(), s, limit);
            if (r2.state != st || (st == 1 && (sh->hist_hash != h || sh->sched_hash != c))) {
                mismatched++;
                if (ierr.empty()) ierr = "seed " + std::to_string(s) + " did not repeat";
            }
        }
        if (r.state == 3) { internal++; if (ierr.empty()) ierr = "seed " + std::to_string(s) + ": " + r.msg; }
        if (r.state == 2) {
            int& n = classes[r.cls];
            n++;
            if (n <= 3) {
                printf("{\"viol\":1,\"seed\":%llu,\"class\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n", (unsigned long long) s, esc(r.cls).c_str(), esc(r.msg).c_str(), esc(r.trace).c_str());
                fflush(stdout);
            }
            if (++nviol >= maxviol) break;
        }
    }
    (void) t0;
    size_t edges = 0;
    for (size_t i = 0; i < G.cov_n; i++) edges += G.cov[i] != 0;
    printf("{\"summary\":1,\"runs\":%llu,\"ops\":%llu,\"ok\":%llu,\"refused\":%llu,\"faulted\":%llu,\"points\":%llu,\"switches\":%llu,\"sim_seconds\":%llu,"
           "\"lin_states\":%llu,\"internal\":%llu,\"mismatched\":%llu,\"edges\":%zu,\"edges_total\":%zu,\"wall\":%.2f,\"ierr\":\"%s\",\"scheds\":%zu,\"hists\":%zu,\"feats\":%zu,\"faults\":{",
            (unsigned long long) runs, (unsigned long long) ops, (unsigned long long) ok, (unsigned long long) refused, (unsigned long long) faulted,
            (unsigned long long) points, (unsigned long long) switches, (unsigned long long) sims, (unsigned long long) lin, (unsigned long long) internal,
            (unsigned long long) mismatched, edges, G.cov_n - 1, now() - t1, esc(ierr).c_str(), scheds.size(), hists.size(), feats.size());
    bool sep = false;
    for (int k = 1; k < FK_MAX; k++)
        if (faults[k]) { printf("%s\"%s\":%llu", sep ? "," : "", fault_kind_names[k], (unsigned long long) faults[k]); sep = true; }
    printf("},\"aux\":[");
    for (int k = 0; k < 16; k++) printf("%s%llu", k ? "," : "", (unsigned long long) aux[k]);
    printf("],\"classes\":{");
    sep = false;
    for (auto& c : classes) { printf("%s\"%s\":%d", sep ? "," : "", esc(c.first).c_str(), c.second); sep = true; }
    printf("}");
    auto dump = [](const char* name, const std::unordered_set<uint64_t>& v) {
        printf(",\"%s\":\"", name);
        for (auto x : v) printf("%010llx", (unsigned long long) (x & 0xffffffffffULL));
        printf("\"");
    };
    dump("h_scheds", scheds);
    dump("h_nontriv", nontriv);
    dump("h_feats", feats);
    printf(",\"cov\":\"");
    for (size_t i = 0; i < G.cov_n; i += 4) {
        int n = 0;
        for (size_t k = 0; k < 4 && i + k < G.cov_n; k++) n |= (G.cov[i + k] != 0) << k;
        printf("%x", n);
    }
    printf("\"}\n");
    return 0;
}

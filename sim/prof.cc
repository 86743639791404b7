// Profiles and the life cycle of one simulated run.
#include "raw.h"
#include "prof.h"
#include "prov.h"
#include <algorithm>
#include <openssl/pkcs12.h>
#include <openssl/err.h>
#define DEFAULT_ROOT_KEYSTORE_PASSWORD "password01234567"
#define COMMON_ROOT_NAME "commonroot"
extern "C" sa_status sim_ta_open_session_handler(void** ctx);
extern "C" void sim_ta_close_session_handler(void* ctx);

std::set<std::array<int, 3>> skip_ops;

// ------------------------------------------------------------------ key store files
static bool bag_secret(const PKCS12_SAFEBAG* b, std::string& name, Bytes& key) {
    char* fn = PKCS12_get_friendlyname((PKCS12_SAFEBAG*) b);
    if (!fn) return false;
    name = fn;
    OPENSSL_free(fn);
    if (PKCS12_SAFEBAG_get_nid(b) != NID_secretBag) return false;
    const ASN1_TYPE* t = PKCS12_SAFEBAG_get0_bag_obj(b);
    if (!t || t->type != V_ASN1_OCTET_STRING) return false;
    const unsigned char* q = t->value.octet_string->data;
    X509_SIG* sig = d2i_X509_SIG(nullptr, &q, t->value.octet_string->length);
    if (!sig) return false;
    PKCS8_PRIV_KEY_INFO* pk = PKCS8_decrypt(sig, DEFAULT_ROOT_KEYSTORE_PASSWORD, -1);
    X509_SIG_free(sig);
    if (!pk) return false;
    const unsigned char* kd = nullptr;
    int kl = 0;
    bool ok = PKCS8_pkey_get0(nullptr, &kd, &kl, nullptr, pk) == 1;
    if (ok) key.assign(kd, kd + kl);
    PKCS8_PRIV_KEY_INFO_free(pk);
    return ok;
}
bool keystore_extract(const Bytes& p12, Bytes& root, Bytes& common, uint64_t& id) {
    const unsigned char* q = p12.data();
    PKCS12* p = d2i_PKCS12(nullptr, &q, (long) p12.size());
    if (!p) return false;
    STACK_OF(PKCS7)* safes = PKCS12_unpack_authsafes(p);
    bool r = false, c = false;
    for (int i = 0; i < sk_PKCS7_num(safes); i++) {
        PKCS7* s = sk_PKCS7_value(safes, i);
        STACK_OF(PKCS12_SAFEBAG)* bags = OBJ_obj2nid(s->type) == NID_pkcs7_data ? PKCS12_unpack_p7data(s)
                                                                                 : PKCS12_unpack_p7encdata(s, DEFAULT_ROOT_KEYSTORE_PASSWORD, -1);
        for (int j = 0; j < sk_PKCS12_SAFEBAG_num(bags); j++) {
            std::string name;
            Bytes key;
            if (!bag_secret(sk_PKCS12_SAFEBAG_value(bags, j), name, key)) continue;
            if (name == COMMON_ROOT_NAME) { common = key; c = true; }
            else { root = key; id = strtoull(name.c_str(), nullptr, 16); r = true; }
        }
        sk_PKCS12_SAFEBAG_pop_free(bags, PKCS12_SAFEBAG_free);
    }
    sk_PKCS7_pop_free(safes, PKCS7_free);
    PKCS12_free(p);
    ERR_clear_error();
    return r && c;
}
static PKCS12_SAFEBAG* make_bag(const Bytes& key, const char* name) {
    PKCS8_PRIV_KEY_INFO* pk = PKCS8_PRIV_KEY_INFO_new();
    unsigned char* d = (unsigned char*) OPENSSL_malloc(key.size());
    memcpy(d, key.data(), key.size());
    PKCS8_pkey_set0(pk, OBJ_nid2obj(NID_aes_128_ecb), 0, V_ASN1_UNDEF, nullptr, d, (int) key.size());
    X509_SIG* sig = PKCS8_encrypt(-1, EVP_aes_128_cbc(), DEFAULT_ROOT_KEYSTORE_PASSWORD, -1, nullptr, 0, 1, pk);
    PKCS8_PRIV_KEY_INFO_free(pk);
    unsigned char* der = nullptr;
    int n = i2d_X509_SIG(sig, &der);
    X509_SIG_free(sig);
    PKCS12_SAFEBAG* b = PKCS12_SAFEBAG_create_secret(NID_pkcs8ShroudedKeyBag, V_ASN1_OCTET_STRING, der, n);
    OPENSSL_free(der);
    PKCS12_add_friendlyname_utf8(b, name, -1);
    return b;
}
Bytes keystore_make(const Bytes& root, const Bytes& common, uint64_t id, int order) {
    char name[32];
    snprintf(name, sizeof name, "%016llx", (unsigned long long) id);
    STACK_OF(PKCS7)* safes = sk_PKCS7_new_null();
    auto add_safe = [&](std::vector<PKCS12_SAFEBAG*> v, bool enc) {
        STACK_OF(PKCS12_SAFEBAG)* bags = sk_PKCS12_SAFEBAG_new_null();
        for (auto* b : v) sk_PKCS12_SAFEBAG_push(bags, b);
        PKCS7* s = enc ? PKCS12_pack_p7encdata(NID_aes_128_cbc, DEFAULT_ROOT_KEYSTORE_PASSWORD, -1, nullptr, 0, 1, bags) : PKCS12_pack_p7data(bags);
        sk_PKCS7_push(safes, s);
        sk_PKCS12_SAFEBAG_pop_free(bags, PKCS12_SAFEBAG_free);
    };
    PKCS12_SAFEBAG *a = make_bag(root, name), *b = make_bag(common, COMMON_ROOT_NAME);
    if (order & 1) std::swap(a, b);
    add_safe({a, b}, (order & 2) != 0);
    PKCS12* p = PKCS12_init(NID_pkcs7_data);
    PKCS12_pack_authsafes(p, safes);
    sk_PKCS7_pop_free(safes, PKCS7_free);
    PKCS12_set_mac(p, DEFAULT_ROOT_KEYSTORE_PASSWORD, -1, nullptr, 0, 1, EVP_sha256());
    unsigned char* der = nullptr;
    int n = i2d_PKCS12(p, &der);
    Bytes out(der, der + n);
    OPENSSL_free(der);
    PKCS12_free(p);
    ERR_clear_error();
    return out;
}

static Bytes ks_shipped, ks_light, ks_root, ks_common;
static uint64_t ks_id;
void keystore_prepare() {
    ks_shipped = keystore_get();
    if (!keystore_extract(ks_shipped, ks_root, ks_common, ks_id)) internal_error("key store");
    ks_light = keystore_make(ks_root, ks_common, ks_id, 0);
}

// ------------------------------------------------------------------ profiles
static void base(Prof& p) {
    static const unsigned w[O_MAX] = {
            0, /*KGEN*/ 30, /*KIMPORT*/ 70, /*KUNWRAP*/ 25, /*KDERIVE*/ 30, /*KEXCH*/ 10, /*KEXPORT*/ 25, /*KHEADER*/ 35, /*KDIGEST*/ 35,
            /*KPUBLIC*/ 10, /*KRELEASE*/ 30, /*CINIT*/ 60, /*CIV*/ 15, /*CPROC*/ 100, /*CLAST*/ 35, /*CREL*/ 30, /*MINIT*/ 30, /*MPROC*/ 50,
            /*MPKEY*/ 15, /*MCOMP*/ 30, /*MREL*/ 20, /*SIGN*/ 25, /*RANDOM*/ 10, /*SALLOC*/ 30, /*SWRITE*/ 30, /*SCOPY*/ 25, /*SKCHECK*/ 15,
            /*SBCHECK*/ 15, /*SREL*/ 15, /*SFREE*/ 10, /*CENC*/ 25, /*INFO*/ 8, /*KPROV*/ 8, 0};
    for (int i = 0; i < O_MAX; i++) p.w[i] = w[i];
}
static void boost(Prof& p, std::initializer_list<int> ks, unsigned by) { for (int k : ks) p.w[k] *= by; }
static void only(Prof& p, std::initializer_list<std::pair<int, unsigned>> ks) {
    for (auto& x : p.w) x = 0;
    for (auto& k : ks) p.w[k.first] = k.second;
}
static Policy pick_policy(Rng& r) {
    Policy q;
    switch (r.below(10)) {
        case 0: case 1: case 2: q.kind = P_GEO; q.mean = 8ULL << r.below(9); break;
        case 3: case 4: case 5: q.kind = P_SYNC; q.sync_p = 30 << r.below(4); break;
        case 6: case 7: q.kind = P_PCT; q.pct_depth = 1 + (unsigned) r.below(5); q.pct_len = 512ULL << r.below(9); break;
        default: q.kind = P_MIX; q.mean = 64ULL << r.below(8); q.sync_p = 20 << r.below(4);
    }
    return q;
}
static const unsigned F_MEM = 1u << FK_ALLOC, F_CL = 1u << FK_CLALLOC, F_MTX = 1u << FK_MTXINIT, F_RNG = 1u << FK_RNG | 1u << FK_RNGPART, F_OSSL = 1u << FK_OSSL,
                      F_SVP = 1u << FK_SVPALLOC, F_UUID = 1u << FK_UUID, F_VIDEO = 1u << FK_VIDEO, F_ATEXIT = 1u << FK_ATEXIT;

bool prof_make(const char* prop, uint64_t, Rng& r, Cfg& c) {
    std::string n = prop;
    Prof& p = c.p;
    p.name = n;
    base(p);
    auto faults = [&](unsigned mask, unsigned den, unsigned max) { c.fmask = mask; c.fnum = 1; c.fden = den; c.fmax = max; };
    const unsigned F_ALL = F_MEM | F_CL | F_MTX | F_RNG | F_OSSL | F_SVP | F_UUID | F_VIDEO;
    if (n == "WARM") {
        c.fill = 1;
        p.procs = 1;
        p.fibers = 1;
        p.ops = 60;
        p.setup = 30;
        p.slow = 300;
    } else if (n == "C01") {
        c.fill = 60;
        c.crowd = 50;
        p.fibers = 2 + (int) r.below(3);
        p.ops = 4 + (int) r.below(8);
        p.setup = 8 + (int) r.below(10);
        p.pool = 1 + (int) r.below(4);
        p.dead = 40;
        if (r.chance(1, 4)) boost(p, {O_KEXCH, O_KDERIVE, O_KUNWRAP, O_SIGN, O_SKCHECK, O_CENC, O_MPKEY}, 5);
        boost(p, {O_KRELEASE, O_CREL, O_MREL, O_SREL, O_SFREE}, 2);
        if (r.chance(1, 2)) boost(p, {O_CINIT, O_CIV, O_CPROC, O_CLAST, O_SALLOC, O_SWRITE, O_SCOPY, O_MPROC, O_MCOMP}, 2);
        if (r.chance(1, 8)) faults(F_ALL, 60, 2);
        c.cold = r.chance(1, 8);
    } else if (n == "C02") {
        p.procs = 2 + (int) r.below(3);
        p.fibers = p.procs + (int) r.below(3);
        p.ops = 6 + (int) r.below(10);
        p.foreign = 250;
        p.ta_rights = 400;
        p.unusual_rights = 100;
        c.alt_fibers = (unsigned) r.below(3);
        c.seq_only = r.chance(1, 3);
        if (r.chance(1, 2)) { c.exits = c.rename = true; c.phases = 2 + (int) r.below(2); p.ops = 4 + (int) r.below(6); }
        p.dead = 30;
    } else if (n == "C03") {
        c.fill = 100;
        c.crowd = 50;
        p.procs = 2 + (int) r.below(3);
        p.fibers = p.procs + 1 + (int) r.below(4);
        p.ops = 4 + (int) r.below(8);
        p.setup = 6 + (int) r.below(8);
        c.phases = 1 + (int) r.below(3);
        c.exits = true;
        c.cold = r.chance(1, 3);
        c.capacity = r.chance(1, 6);
        p.pool = r.chance(1, 2) ? 2 : 0;
        boost(p, {O_KRELEASE, O_SALLOC, O_CINIT, O_MINIT}, 2);
        if (r.chance(1, 6)) faults(F_ALL | F_ATEXIT, 40, 3);
    } else if (n == "C04") {
        c.fill = 40;
        c.crowd = 30;
        p.fibers = 2 + (int) r.below(4);
        p.ops = 5 + (int) r.below(8);
        p.setup = 14;
        p.pool = 2;
        p.bad = 120;
        boost(p, {O_SCOPY, O_SALLOC, O_SREL, O_SFREE, O_CENC, O_CPROC, O_SKCHECK}, 3);
        boost(p, {O_CREL, O_KRELEASE, O_MREL}, 2);
        p.in_svp = p.out_svp = 800;
        if (r.chance(1, 3)) faults(F_ALL, 40, 4);
        if (r.chance(1, 4)) { p.procs = 2; c.exits = true; }
        p.dead = 60;
    } else if (n == "C05") {
        c.crowd = 40;
        p.procs = 1 + (int) r.below(3);
        p.fibers = p.procs + 1 + (int) r.below(4);
        p.ops = 4 + (int) r.below(8);
        p.setup = (int) r.below(12);
        p.pool = 1 + (int) r.below(3);
        p.dead = 40;
        c.cold = r.chance(1, 2);
        c.exits = r.chance(1, 3);
        boost(p, {O_KRELEASE, O_CREL, O_MREL, O_SREL, O_SFREE}, 2);
        boost(p, {O_INFO}, 3);
        if (r.chance(1, 8)) faults(F_ALL, 40, 3);
    } else if (n == "C06") {
        p.unusual_rights = 900;
        p.fibers = 1 + (int) r.below(2);
        p.ops = 20 + (int) r.below(20);
        p.setup = 14;
        p.bad = 20;
        c.alt_fibers = (unsigned) r.below(2);
        p.ta_rights = 150;
        if (r.chance(1, 8)) faults(F_ALL, 40, 3);
    } else if (n == "C07") {
        p.windows = 400;
        p.output_rights = 500;
        p.unusual_rights = 30;
        p.ta_rights = 30;
        p.fibers = 1 + (int) r.below(2);
        p.ops = 18 + (int) r.below(16);
        p.setup = 14;
        p.env_change = 300;
        p.env_fiber = (int) r.below(12);
        p.bad = 10;
        boost(p, {O_CPROC, O_CLAST, O_CENC, O_SKCHECK, O_MPROC}, 2);
        if (r.chance(1, 6)) faults(F_VIDEO, 10, 3);
    } else if (n == "C08") {
        p.no_svp_opt = 600;
        p.unusual_rights = 100;
        p.fibers = 1 + (int) r.below(3);
        p.ops = 10 + (int) r.below(12);
        p.setup = 16;
        p.bad = 200;
        p.pool = r.chance(1, 2) ? 3 : 0;
        p.procs = 1 + (int) r.below(2);
        p.fibers += p.procs - 1;
        p.foreign = 60;
        only(p, {{O_KIMPORT, 40}, {O_KDERIVE, 5}, {O_KGEN, 5}, {O_CINIT, 60}, {O_CIV, 10}, {O_CPROC, 130}, {O_CLAST, 40}, {O_CREL, 15}, {O_SALLOC, 60},
                {O_SWRITE, 60}, {O_SCOPY, 60}, {O_SKCHECK, 25}, {O_SBCHECK, 25}, {O_SREL, 20}, {O_SFREE, 20}, {O_CENC, 80}, {O_KRELEASE, 8}});
        if (r.chance(1, 6)) faults(F_ALL, 40, 3);
    } else if (n == "C09") {
        c.epochs = 2 + (int) r.below(3);
        c.power = r.chance(2, 3);
        p.procs = 1 + (int) r.below(2);
        p.fibers = p.procs + (int) r.below(2);
        p.ops = 10 + (int) r.below(12);
        p.setup = 10;
        p.tamper = 350;
        boost(p, {O_KEXPORT}, 8);
        boost(p, {O_KIMPORT}, 6);
        boost(p, {O_KDIGEST, O_KHEADER, O_KGEN}, 2);
        p.dead = 40;
        if (r.chance(1, 5)) faults(F_ALL, 60, 2);
    } else if (n == "C10") {
        p.unusual_rights = 800;
        p.output_rights = 700;
        p.ta_rights = 50;
        p.fibers = 1 + (int) r.below(2);
        p.ops = 20 + (int) r.below(20);
        p.setup = 10;
        c.epochs = 1 + (int) r.below(2);
        p.bad = 20;
        p.no_svp_opt = 300;
        only(p, {{O_KGEN, 20}, {O_KIMPORT, 40}, {O_KUNWRAP, 70}, {O_KDERIVE, 70}, {O_KEXCH, 40}, {O_KEXPORT, 20}, {O_KHEADER, 40}, {O_KDIGEST, 10},
                {O_KRELEASE, 15}, {O_CINIT, 25}, {O_CPROC, 15}, {O_MINIT, 10}, {O_SIGN, 8}});
    } else if (n == "C11") {
        c.fill = 120;
        p.fibers = 1;
        p.ops = 5 + (int) r.below(6);
        p.setup = 14;
        c.sweep = true;
        p.bad = 20;
        c.cold = r.chance(1, 6);
        if (c.cold) p.setup = 4;
        c.fmask = F_ALL | F_ATEXIT;
        p.unusual_rights = 50;
        p.ta_rights = 30;
    } else if (n == "C12") {
        c.scan = true;
        p.fibers = 1 + (int) r.below(2);
        p.ops = 8 + (int) r.below(12);
        p.setup = 12;
        p.tamper = 150;
        p.bad = 80;
        p.unusual_rights = 100;
        c.phases = 1 + (int) r.below(2);
        c.exits = r.chance(1, 3);
        boost(p, {O_KUNWRAP, O_KDERIVE, O_KEXCH, O_KEXPORT, O_KRELEASE}, 2);
        if (r.chance(1, 2)) faults(F_ALL, 25, 6);
        else if (r.chance(1, 2)) { c.sweep = true; c.fmask = F_ALL; p.fibers = 1; p.ops = 4; }
    } else if (n == "C13") {
        c.raw = true;
        c.scan = true;
        p.procs = 2 + (int) r.below(2);
        p.fibers = p.procs + (int) r.below(2);
        p.ops = 16 + (int) r.below(16);
        p.setup = 10;
        p.bad = 20;
        p.big = 30;
        p.sealed = true;
        p.unusual_rights = 50;
        c.phases = 1 + (int) r.below(2);
        boost(p, {O_KIMPORT, O_KUNWRAP, O_CENC}, 2);
        if (r.chance(1, 4)) faults(F_ALL, 8, 6);
    } else if (n == "C14") {
        p.fibers = 1 + (int) r.below(3);
        p.procs = 1 + (int) r.below(2);
        p.fibers = std::max(p.fibers, p.procs);
        p.ops = 16 + (int) r.below(20);
        p.setup = 14;
        p.unusual_rights = 40;
        p.ta_rights = 20;
        p.big = 60;
        only(p, {{O_KIMPORT, 25}, {O_KGEN, 5}, {O_CINIT, 60}, {O_CIV, 25}, {O_CPROC, 200}, {O_CLAST, 70}, {O_CREL, 15}, {O_SALLOC, 20}, {O_SWRITE, 12},
                {O_SCOPY, 5}, {O_SBCHECK, 3}, {O_SFREE, 5}, {O_KRELEASE, 12}, {O_CENC, 12}, {O_MPROC, 4}, {O_MINIT, 3}});
        if (r.chance(1, 5)) faults(F_ALL, 40, 3);
    } else if (n == "C15") {
        p.fibers = 1 + (int) r.below(3);
        p.ops = 16 + (int) r.below(20);
        p.setup = 12;
        p.unusual_rights = 100;
        p.ta_rights = 20;
        p.big = 60;
        only(p, {{O_KIMPORT, 35}, {O_KGEN, 5}, {O_MINIT, 60}, {O_MPROC, 170}, {O_MPKEY, 60}, {O_MCOMP, 70}, {O_MREL, 25}, {O_KRELEASE, 25}, {O_KDERIVE, 5}, {O_RANDOM, 2}});
        if (r.chance(1, 5)) faults(F_ALL, 40, 3);
    } else if (n == "C16") {
        p.fibers = 1 + (int) r.below(3);
        p.ops = 12 + (int) r.below(16);
        p.setup = 14;
        p.pool = r.chance(1, 2) ? 3 : 0;
        p.bad = 150;
        p.unusual_rights = 40;
        p.no_svp_opt = 350;
        p.env_fiber = r.chance(1, 4) ? 4 : 0;
        if (p.env_fiber) { p.windows = 200; p.output_rights = 200; }
        only(p, {{O_KIMPORT, 30}, {O_CINIT, 60}, {O_CIV, 10}, {O_CPROC, 25}, {O_CREL, 15}, {O_SALLOC, 45}, {O_SWRITE, 40}, {O_SCOPY, 10}, {O_SFREE, 12},
                {O_SREL, 8}, {O_SBCHECK, 15}, {O_CENC, 220}, {O_KRELEASE, 12}});
        if (r.chance(1, 5)) faults(F_ALL, 40, 3);
    } else if (n == "C17") {
        p.fibers = 1 + (int) r.below(2);
        p.ops = 16 + (int) r.below(16);
        p.setup = 10;
        p.tamper = 450;
        p.bad = 20;
        p.unusual_rights = 100;
        p.sealed = true;
        only(p, {{O_KGEN, 10}, {O_KIMPORT, 160}, {O_KUNWRAP, 100}, {O_CINIT, 40}, {O_CPROC, 60}, {O_CLAST, 80}, {O_KEXPORT, 20}, {O_KHEADER, 20},
                {O_KDIGEST, 30}, {O_KRELEASE, 15}, {O_CREL, 10}, {O_KDERIVE, 4}, {O_KPROV, 30}});
        if (r.chance(1, 5)) faults(F_ALL, 40, 3);
    } else if (n == "C18") {
        p.fibers = 1 + (int) r.below(4);
        p.procs = 1 + (int) r.below(2);
        p.fibers = std::max(p.fibers, p.procs);
        p.ops = 12 + (int) r.below(12);
        p.setup = 4;
        p.unusual_rights = 50;
        p.big = 100;
        only(p, {{O_KGEN, 120}, {O_RANDOM, 120}, {O_KDIGEST, 60}, {O_KEXPORT, 50}, {O_KIMPORT, 20}, {O_KRELEASE, 30}, {O_SIGN, 10}, {O_KPUBLIC, 5}, {O_KHEADER, 5}});
        if (r.chance(2, 3)) faults(F_RNG, 6, 8);
        else if (r.chance(1, 2)) faults(F_ALL, 30, 4);
    } else if (n == "C19") {
        c.keystore = 1;
        c.epochs = 1 + (int) r.below(3);
        c.cold = true;
        p.procs = 1 + (int) r.below(2);
        p.fibers = p.procs + (int) r.below(3);
        p.ops = 4 + (int) r.below(8);
        p.setup = 0;
        p.unusual_rights = 50;
        only(p, {{O_KDERIVE, 100}, {O_INFO, 80}, {O_KGEN, 10}, {O_KEXPORT, 40}, {O_KIMPORT, 30}, {O_KDIGEST, 80}, {O_KHEADER, 5}, {O_KRELEASE, 5}});
        if (r.chance(2, 3)) faults(1u << FK_FOPEN | 1u << FK_FREAD | 1u << FK_FTRUNC | 1u << FK_FCORRUPT | F_MEM | F_OSSL, 5, 6);
    } else return false;
    if (c.seq_only) p.fibers = p.procs;
    // the key it makes on the way is visible to other threads of the process
    if (p.fibers > p.procs || c.raw) p.w[O_KPROV] = 0;
    return true;
}

// ------------------------------------------------------------------ run plumbing
std::string prop_name;
static uint64_t run_seed;
static Cfg C;
static int phase_no;
static bool phase_hot;                       // not the setup
static int idx_base;
static Rng R{1};
static long ossl_base;
static std::array<bool, NPROC> gone;         // processes that exited or crashed in this phase
static uint64_t pend_t0[NPROC];
static uint64_t cap_sessions;
static int filled[NPROC][4];                 // -1: not looked
static const char* const store_names[4] = {"keys", "ciphers", "macs", "svps"};

static void run_seq(int proc, const std::function<void()>& fn) {
    fibers_reset();
    Policy keep = G.pol;
    bool fo = G.faults_on;
    G.pol = Policy();
    G.faults_on = false;
    uint64_t crash = G.crash_at;
    G.crash_at = 0;
    fiber_spawn(proc, fn);
    run_fibers();
    G.pol = keep;
    G.faults_on = fo;
    G.crash_at = crash;
    fibers_reset();
}

static bool hostile(int proc) { return C.raw && proc == 0; }
static bool leaves_nothing(const Op& o) {
    if (o.status != SA_STATUS_OK) return true;
    switch (o.kind) {
        case O_KGEN: case O_KIMPORT: case O_KUNWRAP: case O_KDERIVE: case O_KEXCH: case O_CINIT: case O_MINIT: case O_SALLOC: case O_CIV: case O_CPROC:
        case O_CLAST: case O_MPROC: case O_MPKEY: case O_MCOMP: return false;
    }
    return true;
}
static void after_op(const Op& o) {
    if (o.lenient || !V[o.proc].open) return;
    if (leaves_nothing(o)) {
        std::string s;
        size_t n = 0;
        heap_op_leaks(o.id, s, n);
        if (o.status != SA_STATUS_OK && o.kind == O_SALLOC && !hostile(o.proc) && svp_live(o.proc, o.id)) violation("leak:failed-call", "%s left protected memory allocated", o.str().c_str());
        if (n) violation(o.status == SA_STATUS_OK ? "leak:call" : "leak:failed-call", "%s left %zu blocks allocated:%s", o.str().c_str(), n, s.c_str());
    }
}
static Op do_op(Op o, int slot) {
    op_rebase((uint64_t) (idx_base + slot) << 26, (uint64_t) (idx_base + slot) << 20);
    o.index = idx_base + slot;
    exec_op(o);
    if (!raw_active(G.cur->id) || !raw_accepted(G.cur->id)) after_op(o);
    return o;
}
// public halves of generated keys are needed to check what is done with them later
static void learn_public(const Op& o, int slot) {
    if (o.kind != O_KGEN || o.status != SA_STATUS_OK || o.type == SA_KEY_TYPE_SYMMETRIC) return;
    Op q;
    q.proc = o.proc;
    q.kind = O_KPUBLIC;
    q.h = o.rh;
    do_op(q, slot);
}

static bool stateful(int k) { return k == O_CPROC || k == O_CLAST || k == O_CENC || k == O_MPROC || k == O_MPKEY || k == O_MCOMP || k == O_CIV; }

static void sweep_op(Rng& r, const Op& tmpl, int slot0, int slots) {
    unsigned keep = G.fp.max;
    uint64_t k = 1, step = r.chance(1, 3) ? 1 + r.below(4) : 1;
    if (stateful(tmpl.kind)) k = 1 + r.below(12);
    int used = 0;
    while (used < slots - 2) {
        G.fp.nth = true;
        G.fp.nth_left = k;
        G.fp.max = 1000000;
        Op o = do_op(tmpl, slot0 + used++);
        bool hit = o.faults > 0;
        G.fp.nth_left = 0;
        if (!hit) break;
        if (G.sh) G.sh->aux[0]++;
        k += step;
        if (o.status == SA_STATUS_OK && tmpl.kind == O_KRELEASE) break;
        if (stateful(tmpl.kind)) {
            if (r.chance(1, 2)) break;
            k = 1 + r.below(12);
        }
        if (V[tmpl.proc].st.keys.size() > 100 || V[tmpl.proc].st.ciphers.size() > 100 || V[tmpl.proc].st.svps.size() > 80) break;
    }
    G.fp.nth_left = 0;
    G.fp.max = keep;
    do_op(tmpl, slot0 + used);      // undisturbed
}

static void worker(int proc, int ordinal, int nops, bool may_exit) {
    Fiber* f = G.cur;
    (void) f;
    Rng er(hcomb(hcomb(run_seed, 0xe717 + phase_no), (uint64_t) ordinal));
    int exit_at = may_exit && er.chance(1, 2) ? (int) er.below((uint64_t) nops + 1) : -1;
    bool crash = er.chance(1, 2);
    const int W1 = C.sweep ? 200 : 4;
    for (int i = 0; i < nops; i++) {
        if (!V[proc].open || gone[proc]) return;
        if (i == exit_at) {
            V[proc].open = false;
            gone[proc] = true;
            if (crash) {
                count_fault(FK_PROCCRASH);
                note("process %d crashes", proc);
                for (auto& x : G.fib) if (x.st != F_DONE && x.proc == proc && &x != G.cur) x.kill = true;
                reap_killed();
            } else {
                count_fault(FK_PROCEXIT);
                note("process %d exits", proc);
                op_rebase((uint64_t) (idx_base + i * W1) << 26, (uint64_t) (idx_base + i * W1) << 20);
                proc_run_atexit(proc);
            }
            return;
        }
        std::array<int, 3> id{phase_no, ordinal, i};
        if (skip_ops.count(id)) continue;
        G.slots.push_back(id);
        Rng r(hcomb(hcomb(run_seed, (uint64_t) phase_no * 100 + ordinal), (uint64_t) i));
        if (r.chance(C.p.env_change, 1000)) env_step(r, C.p);
        if (C.keystore && r.chance(1, 6)) G.keystore_faulty = r.chance(1, 3);
        Op o;
        gen_op(r, C.p, proc, o);
        if (C.sweep && G.faults_on && o.kind != O_OBS) { sweep_op(r, o, i * W1, W1); continue; }
        if (hostile(proc) && phase_hot && r.chance(1, 2)) {
            raw_begin(f->id, r.next());
            do_op(o, i * W1);
            raw_end(f->id);
            continue;
        }
        o = do_op(o, i * W1);
        learn_public(o, i * W1 + 1);
    }
}

static void env_worker(int n) {
    Rng r(hcomb(run_seed, 0xe17 + phase_no));
    for (int i = 0; i < n; i++) {
        for (uint64_t k = r.below(1ULL << (4 + r.below(9))); k; k--) sched_yield_point();
        env_step(r, C.p);
    }
}

static void close_by_framework(int k) {
    run_seq(k, [k] {
        void* s = proc_session(k);
        if (s) sim_ta_close_session_handler(s);
    });
    proc_forget_session(k);
}

// the words of a message, without the values in it
static std::string class_words(const std::string& why) {
    std::string s = why.substr(0, 90), r;
    for (const char* c : {" got ", " at byte", ": got"}) { size_t p = s.find(c); if (p != std::string::npos) s.resize(p); }
    for (char ch : s) {
        if (isdigit((unsigned char) ch)) { if (r.empty() || r.back() != '#') r += '#'; }
        else r += ch;
    }
    return r;
}

// what happened in this life of this process must be one sequential story
static void check_life(int k) {
    if (hostile(k)) return;          // nobody knows what it did
    std::vector<Op> ops;
    int life = V[k].life;
    // calls cut off by a power cut or the death of the process may have taken effect or not: judge what finished before
    // the first of them, and before any call that overlapped that point, started
    uint64_t bound = pend_t0[k];
    // an exchange that makes several keys makes them one after the other: a call that guesses a handle which has not been
    // returned yet and releases that key sees the exchange half done
    for (auto& o : H)
        if (o.kind == O_KEXCH && o.proc == k && o.life == life && o.status == SA_STATUS_OK && o.rh2 != INVALID_HANDLE && o.t0 < bound)
            for (auto& r : H)
                if (r.kind == O_KRELEASE && r.proc == k && r.life == life && r.status == SA_STATUS_OK && r.t0 < o.t1 && r.t1 > o.t0 &&
                        (r.h == o.rh || r.h == o.rh2 || r.h == o.rh3))
                    bound = std::min(bound, o.t0);
    for (bool again = true; again;) {
        again = false;
        for (auto& o : H)
            if (o.proc == k && o.life == life && o.t0 < bound && o.t1 >= bound) { bound = o.t0; again = true; }
    }
    for (auto& o : H)
        if (o.proc == k && o.life == life && o.t1 < bound) ops.push_back(o);
    State st;
    st.blobs = std::make_shared<std::map<Bytes, Blob>>(W.blobs);
    std::string why;
    State end;
    uint64_t nodes = 0;
    const Op* culprit = nullptr;
    bool inconclusive = false;
    if (!session_consistent(ops, st, why, &end, &nodes, &culprit, &inconclusive)) {
        std::string cls = "model:";
        if (culprit) cls += op_names[culprit->kind];
        cls += ":" + class_words(why.substr(0, why.find(", expected")));
        // the calls that name a handle of the offending call, and its neighbours
        std::set<uint64_t> hs;
        size_t at = 0;
        auto names = [](const Op& o) {
            std::vector<uint64_t> v{o.h, o.h2, o.h3, o.rh, o.rh2, o.rh3};
            if (o.kind == O_CPROC || o.kind == O_CLAST || o.kind == O_SKCHECK) { v.push_back(o.bi.type == SA_BUFFER_TYPE_SVP ? o.bi.h : INVALID_HANDLE); v.push_back(o.bo.type == SA_BUFFER_TYPE_SVP ? o.bo.h : INVALID_HANDLE); }
            for (auto& x : o.samples) {
                v.push_back(x.ctx);
                if (x.in.type == SA_BUFFER_TYPE_SVP) v.push_back(x.in.h);
                if (x.out.type == SA_BUFFER_TYPE_SVP) v.push_back(x.out.h);
            }
            return v;
        };
        for (size_t i = 0; i < ops.size(); i++)
            if (culprit && ops[i].id == culprit->id) { at = i; for (auto h : names(ops[i])) if (h != INVALID_HANDLE) hs.insert(h); }
        std::vector<std::string> lines;
        for (size_t i = 0; i < ops.size(); i++) {
            if (ops[i].t0 > ops[at].t1) break;
            bool rel = i + 4 > at;
            for (auto h : names(ops[i])) if (hs.count(h)) rel = true;
            if (!rel) continue;
            lines.push_back("\n  [" + std::to_string(ops[i].t0) + ".." + std::to_string(ops[i].t1) + "] " + ops[i].str() + (i == at ? "   <== " + why : ""));
        }
        std::string hist;
        size_t from = 0, tot = 0;
        for (size_t i = lines.size(); i-- > 0;) { tot += lines[i].size(); if (tot > 6000) { from = i + 1; break; } }
        for (size_t i = from; i < lines.size(); i++) hist += lines[i];
        violation(cls.c_str(), "no sequential order of the calls explains the results: %s%s", why.c_str(), hist.c_str());
    }
    if (G.sh) G.sh->lin_states += nodes;
    if (bound == ~0ULL && !inconclusive) {
        bool exact = true;
        size_t want = 0;
        for (auto& o : ops) if (o.lenient) exact = false;
        for (auto& v : end.svps) { if (!v.second->mem) exact = false; want++; }
        size_t have = svp_live(k);
        size_t live[4] = {end.keys.size(), end.ciphers.size(), end.macs.size(), end.svps.size()};
        for (int st = 0; st < 4; st++) {
            bool sure = filled[k][st] >= 0;
            for (auto& o : ops) if (o.lenient) sure = false;
            if (sure && live[st] + (size_t) filled[k][st] != W.slots[st])
                violation((std::string("capacity:") + store_names[st]).c_str(), "with %zu %s live there is room for %d more, but a fresh session holds %zu", live[st], store_names[st], filled[k][st], W.slots[st]);
        }
        if (exact && have != want)
            violation("leak:svp-memory", "%zu blocks of protected memory are allocated for process %d, which has %zu SVP buffers", have, k, want);
    }
    // a container exported while its handle changed hands may hold the one key or the other: only this life could tell
    auto unsure = [&](const Blob& b) {
        for (auto& x : ops) {
            if (x.id != (decltype(x.id)) b.id || x.kind != O_KEXPORT) continue;
            for (auto& y : ops)
                if (&y != &x && y.t0 < x.t1 && x.t0 < y.t1 && y.status == SA_STATUS_OK && ((y.kind == O_KRELEASE && y.h == x.h) || y.rh == x.h || y.rh2 == x.h || y.rh3 == x.h)) return true;
        }
        return false;
    };
    if (end.blobs) for (auto& b : *end.blobs) if (W.blobs.count(b.first) || !unsure(b.second)) W.blobs.insert(b);
}

static void drop_pending() {
    for (auto* o : running) pend_t0[o->proc] = std::min(pend_t0[o->proc], o->t0);
    running.clear();
}

static void observe() {
    for (int k = 0; k < C.p.procs; k++) {
        if (!V[k].open) continue;
        for (auto& kv : V[k].st.svps) {
            size_t sz = 0;
            if (!kv.second->mem || !svp_is_block(kv.second->mem, &sz)) continue;
            Op o;
            o.kind = O_OBS;
            o.proc = k;
            o.life = V[k].life;
            o.id = G.next_op++;
            o.h = kv.first;
            o.mem = kv.second->mem;
            size_t n = std::min(sz, kv.second->c.size());
            o.in.resize(n);
            if (n) memcpy(o.in.data(), kv.second->mem, n);
            o.t0 = ++G.stamp;
            o.t1 = ++G.stamp;
            o.status = SA_STATUS_OK;
            o.finished = true;
            H.push_back(o);
        }
    }
}

// use every object that should still exist, then release it, then use it again
static void probe(int k) {
    View snap = V[k];
    int slot = 0;
    Fiber* f = G.cur;
    auto as = [&](const sa_uuid& u) {
        sa_uuid own = proc_uuid(k);
        f->alt = memcmp(&u, &own, 16) != 0;
        f->alt_uuid = u;
    };
    auto one = [&](int kind, uint64_t h, const std::function<void(Op&)>& set = nullptr) {
        Op o;
        o.proc = k;
        o.kind = kind;
        o.h = h;
        if (set) set(o);
        return do_op(o, slot++);
    };
    for (auto& kv : snap.st.keys) {
        as(kv.second->owner);
        one(O_KHEADER, kv.first);
        if (kv.second->type == SA_KEY_TYPE_SYMMETRIC) one(O_KDIGEST, kv.first, [&](Op& o) { o.dig = SA_DIGEST_ALGORITHM_SHA256; o.cap = 32; });
        else one(O_KPUBLIC, kv.first);
    }
    for (auto& kv : snap.st.macs) {
        as(kv.second->owner);
        one(O_MCOMP, kv.first, [&](Op& o) { o.cap = 64; });
        one(O_MREL, kv.first);
        if (slot % 3 == 0) one(O_MREL, kv.first);
    }
    for (auto& kv : snap.st.ciphers) {
        as(kv.second->owner);
        one(O_CREL, kv.first);
        if (slot % 3 == 0) one(O_CREL, kv.first);
    }
    bool leave = R.chance(1, 3);     // leave them to the end of the session
    for (auto& kv : snap.st.svps) {
        as(kv.second->owner);
        if (leave && slot % 2) continue;
        one(O_SREL, kv.first);
        if (slot % 3 == 0) one(O_SREL, kv.first);
    }
    for (auto& kv : snap.st.keys) {
        as(kv.second->owner);
        if (leave && slot % 2) continue;
        one(O_KRELEASE, kv.first);
        if (slot % 3 == 0) one(O_KRELEASE, kv.first);
        if (slot % 5 == 0) one(O_KHEADER, kv.first);
    }
    f->alt = false;
    idx_base += slot + 8;
}

// how many more handles each store has room for; everything else is quiet
static void fill(int k, unsigned keep_mode, std::array<size_t, 4>& got, bool learn) {
    static const Bytes key(16, 0x5c);
    Api& a = api[k];
    std::vector<uint64_t> hs[4];
    sa_rights all = rights_all(nullptr);
    sa_import_parameters_symmetric ip{&all};
    auto make = [&](int st, uint64_t* h) -> sa_status {
        *h = INVALID_HANDLE;
        switch (st) {
            case 0: return a.sa_key_import(h, SA_KEY_FORMAT_SYMMETRIC_BYTES, key.data(), key.size(), &ip);
            case 1: return a.sa_crypto_cipher_init(h, SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_MODE_ENCRYPT, hs[0][0], nullptr);
            case 2: return a.sa_crypto_mac_init(h, SA_MAC_ALGORITHM_CMAC, hs[0][0], nullptr);
            default: return a.sa_svp_buffer_alloc(h, 16);
        }
    };
    auto drop = [&](int st, uint64_t h) -> sa_status {
        switch (st) {
            case 0: return a.sa_key_release(h);
            case 1: return a.sa_crypto_cipher_release(h);
            case 2: return a.sa_crypto_mac_release(h);
            default: return a.sa_svp_buffer_free(h);
        }
    };
    for (int st = 0; st < 4; st++) {
        if (st && hs[0].empty()) break;
        got[st] = 0;
        std::set<uint64_t> seen;
        sa_status r;
        for (;;) {
            uint64_t h;
            r = make(st, &h);
            if (r != SA_STATUS_OK) break;
            if (h == INVALID_HANDLE || !seen.insert(h).second) violation("capacity:handle", "creating %s one after the other gave the handle %llx twice", store_names[st], (unsigned long long) h);
            hs[st].push_back(h);
            if (hs[st].size() > 5000) internal_error("no end of %s", store_names[st]);
        }
        got[st] = hs[st].size();
        if (r != SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT && !(st == 3 && r == SA_STATUS_INTERNAL_ERROR))
            violation("capacity:status", "creating one more of %zu %s is refused with status %d", got[st], store_names[st], r);
        if (st == 3 && r == SA_STATUS_INTERNAL_ERROR) got[st] = SIZE_MAX;      // no protected memory left to ask with
        if (!learn && !hs[st].empty()) {      // a slot given back can be had again, whichever it is
            for (int i = 0; i < 4; i++) {
                size_t at = i == 0 ? hs[st].size() - 1 : i == 1 ? 0 : R.below(hs[st].size());
                sa_status d = drop(st, hs[st][at]);
                uint64_t h;
                sa_status m = d == SA_STATUS_OK ? make(st, &h) : d;
                if (st == 0 && m == SA_STATUS_OK && a.sa_key_header != nullptr) {
                    sa_header hd;
                    if (a.sa_key_header(&hd, h) != SA_STATUS_OK) violation("capacity:reuse", "a key made in the slot of a released one cannot be used");
                }
                if (d != SA_STATUS_OK || m != SA_STATUS_OK)
                    violation("capacity:reuse", "with every slot for %s taken, releasing one and creating another gave %d and %d", store_names[st], d, m);
                hs[st][at] = h;
            }
        }
    }
    for (int st = 3; st >= 0; st--)
        for (size_t i = 0; i < hs[st].size(); i++) {
            if (st < 3 && (keep_mode == 0 || (keep_mode == 1 && R.chance(1, 2)))) continue;
            if (drop(st, hs[st][i]) != SA_STATUS_OK) violation("capacity:release", "one of %zu %s cannot be released", hs[st].size(), store_names[st]);
        }
}

// leave room for a handful of further handles only
static void crowd(int k) {
    int st = (int) R.below(4);
    size_t cap = W.slots[st] ? W.slots[st] : 250, leave = R.below(7);
    int slot = 0;
    Rng r(hcomb(run_seed, 0xc401d));
    Op q;
    q.proc = k;
    q.kind = O_KIMPORT;
    q.fmt = SA_KEY_FORMAT_SYMMETRIC_BYTES;
    q.rights = rights_all(nullptr);
    q.in = r.bytes(16);
    uint64_t h = do_op(q, slot++).rh;
    for (size_t i = st ? 0 : 1; i + leave < cap; i++) {
        Op o;
        o.proc = k;
        switch (st) {
            case 0: o = q; break;
            case 1: o.kind = O_CINIT; o.alg = SA_CIPHER_ALGORITHM_AES_ECB; o.mode = SA_CIPHER_MODE_ENCRYPT; o.h = h; break;
            case 2: o.kind = O_MINIT; o.alg = SA_MAC_ALGORITHM_CMAC; o.h = h; break;
            default: o.kind = O_SALLOC; o.n = 16;
        }
        if (do_op(o, slot++).status != SA_STATUS_OK) break;
    }
    idx_base += slot + 8;
}

static void quiet_checks(const char* when) {
    std::string s;
    if (locks_held(s)) violation("lock:held", "%s: no call is running, but %s", when, s.c_str());
    svp_check_canaries();
    heap_check_tails();
    if (G.scan) secret_scan_clients();
    if (G.files_open) violation("leak:file", "%s: %d files left open", when, G.files_open);
}

static void end_life(int k) {
    if (V[k].open) {
        V[k].open = false;
        run_seq(k, [k] { proc_run_atexit(k); });
    }
    if (proc_session(k)) close_by_framework(k);
    check_life(k);
    V[k].st = State();
    V[k].life++;
    proc_reset(k);
    pend_t0[k] = ~0ULL;
    for (auto& x : filled[k]) x = -1;
}

static uint64_t count_sessions() {
    uint64_t n = 0;
    run_seq(0, [&] {
        std::vector<void*> v;
        void* keep = proc_session(0);
        for (;;) {
            void* c = nullptr;
            if (v.size() > 5000 || sim_ta_open_session_handler(&c) != SA_STATUS_OK) break;
            v.push_back(c);
        }
        n = v.size();
        for (auto* c : v) sim_ta_close_session_handler(c);
        (void) keep;
    });
    proc_forget_session(0);
    return n;
}

static void ta_end() {
    quiet_checks("all sessions closed");
    if (C.capacity) {
        uint64_t n = count_sessions();
        if (n != cap_sessions) violation("capacity:sessions", "the TA can open %llu sessions, a fresh one %llu", (unsigned long long) n, (unsigned long long) cap_sessions);
    }
    run_seq(0, [] {
        G.cur->in_ta++;
        ta_run_atexit();
        G.cur->in_ta--;
    });
    if (G.ta_atexit_lost) { ta_reset(); return; }      // nobody asked the TA to clean up
    if (G.cnt_ta) {
        std::vector<std::pair<uint64_t, std::string>> v;
        for (auto& kv : G.heap)
            if (kv.second.side == 0) {
                std::string s;
                size_t n = 0;
                heap_op_leaks(kv.second.op, s, n);
                v.push_back({kv.second.seq, s});
            }
        std::sort(v.begin(), v.end());
        violation("leak:ta-memory", "after every session is closed and the TA has shut down %zu blocks (%zu bytes) of TEE memory are still allocated: %s",
                G.cnt_ta, G.live_ta, v[0].second.c_str());
    }
    std::string s;
    if (prop_name.compare(0, 4, "WARM") && ossl_live_objects() != ossl_base) {
        ossl_report(s);
        violation("leak:crypto-object", "cryptographic library objects left behind: %ld, expected %ld: %s", ossl_live_objects(), ossl_base, s.c_str());
    }
    ta_reset();
}

void run_clear() {
    H.clear();
    running.clear();
    for (auto& v : V) v = View();
    W = World();
    G.trace.clear();
    G.faults.clear();
    G.gpoints = G.last_progress = G.sleep_run = G.switches = G.main_points = G.stamp = 0;
    G.next_op = 1;
    G.seq = 0;
    G.ledger.clear();
    G.secret_win.clear();
    G.wrap_iv.clear();
    G.sched_hash = 1469598103934665603ULL;
    G.env.clear();
    G.fp = FaultPlan();
    G.pol = Policy();
    G.faults_on = false;
    G.crash_at = 0;
    G.ctx_rejected = 0;
    G.slots.clear();
    fibers_reset();
    for (auto& f : G.fib) f.points = f.sites = 0;
    race_reset();
    fibers_reset();
}

void run_begin(const char* prop, uint64_t seed) {
    run_clear();
    prop_name = prop;
    run_seed = seed;
    G.seed = seed;
    R = Rng(hcomb(seed, 1));
    G.srng = Rng(hcomb(seed, 2));
    G.frng = Rng(hcomb(seed, 3));
    G.entropy = Rng(hcomb(seed, 4));
    G.drv = Rng(hcomb(seed, 5));
    G.fill = (uint8_t) (hcomb(seed, 6) | 1);
    if (G.fill == 0xff) G.fill = 0xa5;  // what every bit set says is ordinary data
    svp_reset();
    phase_no = 0;
    idx_base = 1;
    for (auto& x : pend_t0) x = ~0ULL;
    gone.fill(false);
}

static void phase(bool concurrent) {
    Prof& p = C.p;
    gone.fill(false);
    fibers_reset();
    phase_hot = concurrent;
    for (int i = 0; i < MAXF; i++) raw_end(i);
    G.pol = concurrent && !C.seq_only ? pick_policy(R) : Policy();
    G.faults_on = concurrent && C.fmask;
    G.fp = FaultPlan();
    if (G.faults_on) { G.fp.mask = C.fmask; G.fp.num = C.fnum; G.fp.den = C.fden; G.fp.max = C.fmax; }
    if (concurrent && C.sweep) { G.fp.nth = true; G.fp.nth_left = 0; G.fp.max = 0; }
    G.crash_at = concurrent && C.power && R.chance(2, 3) ? 1 + R.below(1ULL << (6 + R.below(11))) : 0;
    int n = concurrent ? p.fibers : p.procs;
    for (int i = 0; i < n; i++) {
        int proc = i % p.procs;
        int ops = concurrent ? p.ops : p.setup;
        bool ex = concurrent && C.exits;
        int ord = i;
        int fb = fiber_spawn(proc, [proc, ord, ops, ex] { worker(proc, ord, ops, ex); });
        if (concurrent && (unsigned) (n - 1 - i) < C.alt_fibers) {
            G.fib[fb].alt = true;
            G.fib[fb].alt_uuid = uuid_alt(1 + i % 2);
        }
    }
    if (concurrent && p.env_fiber) fiber_spawn(0, [] { env_worker(C.p.env_fiber); });
    run_fibers();
    G.faults_on = false;
    G.crash_at = 0;
    G.fp = FaultPlan();
    phase_no++;
    idx_base += 8 + (C.sweep ? 200 : 4) * (std::max(p.ops, p.setup) + 1);
}

// threads of one process using the OpenSSL provider
static void prov_body(uint64_t seed) {
    Rng cr(hcomb(seed, 7));
    bool warm = prop_name == "WARM20";
    C = Cfg();
    C.p.procs = 1;
    proc_set_uuid(0, nullptr);
    uuid_setup(cr);
    keystore_set(ks_light);
    W.device_id = ks_id;
    W.device_id_known = true;
    W.root_seed = ks_root;
    W.asym[Bytes{}].first = ks_common;
    env_init(R, C.p);
    prov_begin();
    ossl_base = ossl_live_objects();
    int n = warm ? 1 : 1 + (int) cr.below(5), ops = warm ? 60 : 4 + (int) cr.below(12), phases = warm ? 1 : 1 + (int) cr.below(2);
    bool cold = cr.chance(1, 4);
    unsigned mask = 0, den = 1, max = 0;
    if (!warm && cr.chance(1, 2)) {
        const unsigned all[] = {1u << FK_CLALLOC, 1u << FK_OSSL, F_MEM, F_MTX, F_RNG, F_ATEXIT};
        for (unsigned m : all) if (cr.chance(1, 2)) mask |= m;
        if (!mask) mask = 1u << FK_CLALLOC | 1u << FK_OSSL;
        den = 15u << cr.below(6);
        max = 1 + (unsigned) cr.below(6);
    }
    if (cr.chance(1, 6) && mask) { cold = true; den = 8; }        // failures while the provider is loaded
    G.pol = Policy();
    G.faults_on = false;
    auto worker20 = [&](int w, int count, bool keys) {
        for (int i = 0; i < count; i++) {
            std::array<int, 3> id{phase_no, w, i};
            if (skip_ops.count(id)) continue;
            G.slots.push_back(id);
            uint64_t s = hcomb(hcomb(run_seed, (uint64_t) phase_no * 100 + (uint64_t) w), (uint64_t) i);
            Rng r(s);
            int kind = keys ? 0 : prov_kind(r);
            prov_step(kind, (uint64_t) (idx_base + i), r.next());
        }
    };
    if (!cold) run_seq(0, [&] { prov_get((uint64_t) idx_base); });
    if (!cold) run_seq(0, [&] { worker20(0, 2 + (int) cr.below(5), true); });
    phase_no++;
    idx_base += 16;
    for (int q = 0; q < phases; q++) {
        fibers_reset();
        G.pol = warm ? Policy() : pick_policy(R);
        G.faults_on = mask != 0;
        G.fp = FaultPlan();
        if (mask) { G.fp.mask = mask; G.fp.num = 1; G.fp.den = den; G.fp.max = max; }
        for (int i = 0; i < n; i++) fiber_spawn(0, [&, i] { worker20(i, ops, false); });
        run_fibers();
        G.faults_on = false;
        G.fp = FaultPlan();
        phase_no++;
        idx_base += ops + 8;
        quiet_checks("after a phase");
    }
    run_seq(0, [] { prov_drop_keys(); });
    prov_end_checks();
    run_seq(0, [] { proc_run_atexit(0); });
    if (proc_session(0)) close_by_framework(0);
    quiet_checks("the process has ended");
    if (G.sh->faults[FK_ATEXIT] == 0) {
        std::string s;
        size_t k = prov_may_stay() ? 0 : heap_count(2, s);
        if (k) violation("leak:provider-memory", "after the process has ended the provider holds %zu blocks of memory:%s", k, s.c_str());
        ta_end();
    } else ta_reset();
    proc_reset(0);
}

static std::array<size_t, 4> cap_slots{};
static void learn_slots() {
    run_seq(0, [] { fill(0, 2, cap_slots, true); });
    run_seq(0, [] { proc_run_atexit(0); });
    if (proc_session(0)) close_by_framework(0);
    proc_reset(0);
    run_seq(0, [] { ta_run_atexit(); });
    ta_reset();
    for (auto x : cap_slots) if (x < 8 || x == SIZE_MAX) internal_error("handle stores of %zu %zu %zu %zu", cap_slots[0], cap_slots[1], cap_slots[2], cap_slots[3]);
}

void run_body(const char* prop, uint64_t seed) {
    if (!strcmp(prop, "C20") || !strcmp(prop, "WARM20")) return prov_body(seed);
    C = Cfg();
    Rng cr(hcomb(seed, 7));
    if (!prof_make(prop, seed, cr, C)) internal_error("unknown profile %s", prop);
    Prof& p = C.p;
    uuid_setup(cr);
    for (int k = 0; k < NPROC; k++) {
        sa_uuid u = uuid_of(k);
        bool ree = cr.chance(1, 4);
        proc_set_uuid(k, ree ? nullptr : &u);
    }
    G.scan = C.scan;
    G.svp_owned = C.raw;
    Bytes root, common;
    if (C.keystore) {
        root = cr.bytes(16);
        common = cr.bytes(16);
        W.device_id = cr.next() | 1;
        keystore_set(keystore_make(root, common, W.device_id, (int) cr.below(4)));
    } else {
        // the shipped file, or (its password hashing takes most of a run) the same keys with a single hashing round
        keystore_set(cr.chance(1, 25) ? ks_shipped : ks_light);
        root = ks_root;
        common = ks_common;
        W.device_id = ks_id;
    }
    W.device_id_known = true;
    W.root_seed = root;
    W.asym[Bytes{}].first = common;
    for (auto& kp : M.known_peers) W.sealed[kp.first] = kp.second;
    if (C.scan) { secret_add(root.data(), root.size(), true); secret_add(common.data(), common.size(), true); }
    env_init(R, p);
    ossl_base = ossl_live_objects();
    if (C.capacity && !cap_sessions) {
        cap_sessions = count_sessions();
        run_seq(0, [] { ta_run_atexit(); });
        ta_reset();
    }
    if ((C.fill || C.crowd) && !cap_slots[0]) learn_slots();
    std::copy(cap_slots.begin(), cap_slots.end(), W.slots);
    for (auto& x : filled) for (auto& y : x) y = -1;
    bool crowded = cr.chance(C.crowd, 1000), fills = cr.chance(C.fill, 1000);
    for (int e = 0; e < C.epochs; e++) {
        G.keystore_faulty = false;
        for (int k = 0; k < p.procs; k++) V[k].open = true;
        if (crowded) run_seq(0, [] { crowd(0); });
        if (!C.cold) phase(false);
        bool cut = false;
        for (int q = 0; q < C.phases && !cut; q++) {
            phase(true);
            if (G.crashed) {
                cut = true;
                count_fault(FK_TACRASH);
                drop_pending();
                break;
            }
            drop_pending();
            for (int k = 0; k < p.procs; k++)
                if (!V[k].open) {
                    end_life(k);
                    V[k].open = true;
                    if (C.rename && R.chance(1, 3)) {       // another application takes its place
                        sa_uuid u = uuid_of((int) R.below(12));
                        proc_set_uuid(k, R.chance(1, 5) ? nullptr : &u);
                    }
                }
            quiet_checks("after a phase");
        }
        if (cut) {
            // power is gone: nothing in the TEE survives; what the clients hold in storage does
            fibers_reset();
            for (int k = 0; k < p.procs; k++) {
                V[k].open = false;
                check_life(k);
                V[k].st = State();
                V[k].life++;
                pend_t0[k] = ~0ULL;
            }
            ta_reset();
            svp_reset();
            for (int k = 0; k < NPROC; k++) proc_reset(k);
            G.files_open = 0;
            continue;
        }
        G.keystore_faulty = false;
        observe();
        for (int i = 0; i < MAXF; i++) raw_end(i);
        for (int k = 0; k < p.procs; k++) run_seq(k, [k] { probe(k); });
        if (fills)
            for (int k = 0; k < p.procs; k++)
                if (!hostile(k) && R.chance(2, 3)) run_seq(k, [k] {
                    std::array<size_t, 4> got;
                    got.fill(SIZE_MAX);
                    fill(k, (unsigned) R.below(3), got, false);
                    for (int st = 0; st < 4; st++) filled[k][st] = got[st] == SIZE_MAX ? -1 : (int) got[st];
                });
        for (int k = 0; k < p.procs; k++) end_life(k);
        ta_end();
    }
}

// The OpenSSL provider under simulation: threads of one client process use keys, ciphers, MACs, digests, signatures, key
// derivations and exchanges through OpenSSL, over the real provider, client library and TA.
#include "prof.h"
#include "prov.h"
extern std::string prop_name;
#include <algorithm>
#include <dlfcn.h>
#include <openssl/core_names.h>
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <openssl/kdf.h>
#include <openssl/param_build.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>

// ------------------------------------------------------------------ who owns which handle
enum { PK_KEY, PK_CIPHER, PK_MAC };
static const char* const kinds[] = {"key", "cipher context", "MAC context"};
static std::map<uint64_t, uint64_t> prov_live[3];     // made by the provider, not yet released -> call that made it
static std::map<uint64_t, std::pair<bool, uint64_t>> offered; static uint64_t offer_seq;             // SA_KEY handles given to the provider -> it was told to delete it
static uint64_t last_key[MAXF];

static void made(int kind, uint64_t h) {
    prov_live[kind][h] = G.cur->op ? G.cur->op->id : 0;
    if (kind == PK_KEY) last_key[G.cur->id] = h;
}
static sa_status released(int kind, uint64_t h, const std::function<sa_status()>& fn) {
    Fiber* f = G.cur;
    if (kind == PK_KEY && last_key[f->id] == h) last_key[f->id] = INVALID_HANDLE;
    auto it = prov_live[kind].find(h);
    if (it != prov_live[kind].end()) prov_live[kind].erase(it);
    else {
        auto o = offered.find(h);
        if (kind != PK_KEY || o == offered.end()) violation("provider:foreign-release", "the provider releases %s handle %llu, which it does not hold", kinds[kind], (unsigned long long) h);
        if (!o->second.first) violation("provider:foreign-release", "the provider releases key handle %llu, which still belongs to the application", (unsigned long long) h);
        offered.erase(o);
    }
    f->nofault++;
    sa_status s = fn();
    f->nofault--;
    if (s != SA_STATUS_OK) violation("provider:release-failed", "the provider's release of %s handle %llu failed with %d", kinds[kind], (unsigned long long) h, s);
    return s;
}
extern "C" {
sa_status sim_pr_sa_key_release(sa_key h) { return released(PK_KEY, h, [&] { return api[0].sa_key_release(h); }); }
sa_status sim_pr_sa_crypto_cipher_release(sa_crypto_cipher_context h) { return released(PK_CIPHER, h, [&] { return api[0].sa_crypto_cipher_release(h); }); }
sa_status sim_pr_sa_crypto_mac_release(sa_crypto_mac_context h) { return released(PK_MAC, h, [&] { return api[0].sa_crypto_mac_release(h); }); }
sa_status sim_pr_sa_key_import(sa_key* k, sa_key_format f, const void* in, size_t n, void* p) {
    sa_status s = api[0].sa_key_import(k, f, in, n, p);
    if (s == SA_STATUS_OK) made(PK_KEY, *k);
    return s;
}
sa_status sim_pr_sa_key_generate(sa_key* k, const sa_rights* r, sa_key_type t, void* p) {
    sa_status s = api[0].sa_key_generate(k, r, t, p);
    if (s == SA_STATUS_OK) made(PK_KEY, *k);
    return s;
}
sa_status sim_pr_sa_key_derive(sa_key* k, const sa_rights* r, sa_kdf_algorithm a, void* p) {
    sa_status s = api[0].sa_key_derive(k, r, a, p);
    if (s == SA_STATUS_OK) made(PK_KEY, *k);
    return s;
}
sa_status sim_pr_sa_key_exchange(sa_key* k, const sa_rights* r, sa_key_exchange_algorithm a, sa_key priv, const void* o, size_t n, void* p) {
    sa_key out = INVALID_HANDLE;          // where the application asked for it need not be aligned
    sa_status s = api[0].sa_key_exchange(&out, r, a, priv, o, n, p);
    memcpy(k, &out, sizeof out);
    if (s == SA_STATUS_OK) made(PK_KEY, out);
    return s;
}
sa_status sim_pr_sa_key_unwrap(sa_key* k, const sa_rights* r, sa_key_type t, void* tp, sa_cipher_algorithm a, void* ap, sa_key w, const void* in, size_t n) {
    sa_status s = api[0].sa_key_unwrap(k, r, t, tp, a, ap, w, in, n);
    if (s == SA_STATUS_OK) made(PK_KEY, *k);
    return s;
}
sa_status sim_pr_sa_crypto_cipher_init(sa_crypto_cipher_context* c, sa_cipher_algorithm a, sa_cipher_mode m, sa_key k, void* p) {
    sa_status s = api[0].sa_crypto_cipher_init(c, a, m, k, p);
    if (s == SA_STATUS_OK) made(PK_CIPHER, *c);
    return s;
}
sa_status sim_pr_sa_crypto_mac_init(sa_crypto_mac_context* c, sa_mac_algorithm a, sa_key k, void* p) {
    sa_status s = api[0].sa_crypto_mac_init(c, a, k, p);
    if (s == SA_STATUS_OK) made(PK_MAC, *c);
    return s;
}
}

// ------------------------------------------------------------------ calling OpenSSL with the provider
struct InProv { InProv() { G.cur->in_prov++; } ~InProv() { G.cur->in_prov--; } };
#define P(...) ([&] { InProv in_; return __VA_ARGS__; }())
struct NoFault { NoFault() { G.cur->nofault++; } ~NoFault() { G.cur->nofault--; } };
template <class T> using Own = std::unique_ptr<T, std::function<void(T*)>>;
template <class T> static Own<T> own(T* p, void (*fn)(T*)) { return Own<T>(p, [fn](T* q) { InProv in; fn(q); }); }

static OSSL_LIB_CTX* lib;
static bool no_provider;
static const char* const md_names[] = {"SHA1", "SHA256", "SHA384", "SHA512"};

// a step of an operation did (not) work; without an injected failure it has to
static bool must(bool ok, const char* what) {
    OpCtx* c = G.cur->op;
    if (ok) return true;
    if (!c || !c->faults) {
        char e[300] = "";
        for (unsigned long x; (x = ERR_get_error());) { snprintf(e, sizeof e, "%s", ERR_reason_error_string(x) ? ERR_reason_error_string(x) : "?"); }
        violation(("provider:failed:" + std::string(what)).c_str(), "%s fails although the direct calls it stands for succeed (%s)", what, e);
    }
    note("   %s failed after an injected failure", what);
    return false;
}
static void right(bool ok, const char* what, const std::string& more = "") {
    if (!ok) violation(("provider:wrong:" + std::string(what)).c_str(), "%s %s", what, more.c_str());
}
struct Buf {                     // an exactly sized output buffer
    uint8_t* p;
    size_t n;
    explicit Buf(size_t k) : p((uint8_t*) malloc(k ? k : 1)), n(k) { mem_fresh(p, k); memset(p, 0x5c, k); }
    ~Buf() { free(p); }
    Bytes b(size_t k) const { return Bytes(p, p + std::min(k, n)); }
    Buf(const Buf&) = delete;
};
static std::vector<size_t> chunks(Rng& r, size_t n) {
    std::vector<size_t> v;
    int style = (int) r.below(4);
    while (n) {
        size_t k = style == 0 ? n : style == 1 ? 1 + r.below(5) : style == 2 ? 1 + r.below(40) : 1 + r.below(n);
        if (r.chance(1, 6)) k = 16;
        if (v.size() > 24) k = n;
        k = std::min(k, n);
        v.push_back(k);
        n -= k;
    }
    return v;
}
static size_t some_len(Rng& r) { return r.chance(1, 4) ? r.below(6) * 16 : r.chance(1, 8) ? r.below(2000) : r.below(100); }

// the bytes of a key are those: asked of the TA directly
static void key_is(uint64_t h, const Bytes& want, const char* what) {
    NoFault nf;
    Bytes got(32);
    size_t n = 32;
    sa_status s = api[0].sa_key_digest(got.data(), &n, h, SA_DIGEST_ALGORITHM_SHA256);
    if (s != SA_STATUS_OK) violation("provider:bad-handle", "%s gave key handle %llu, which cannot be used: %d", what, (unsigned long long) h, s);
    Bytes w;
    { NoPreempt np; w = r_digest(SA_DIGEST_ALGORITHM_SHA256, want); }
    right(got == w, what, "gave a key other than the direct call gives");
}
// a handle the provider handed over to the application
static void take(uint64_t h, const char* what) {
    if (!prov_live[PK_KEY].erase(h)) violation("provider:bad-handle", "%s gave handle %llu, which is not a key it made for the caller", what, (unsigned long long) h);
}
static void drop(uint64_t h) {
    NoFault nf;
    sa_status s = api[0].sa_key_release(h);
    if (s != SA_STATUS_OK) violation("provider:lost-key", "key handle %llu of the application is no longer usable: %d", (unsigned long long) h, s);
}
// a symmetric key of the application's own
static uint64_t sym(const Bytes& k) {
    NoFault nf;
    sa_rights r;
    r = rights_all("prov");
    sa_import_parameters_symmetric p{&r};
    sa_key h = INVALID_HANDLE;
    sa_status s = api[0].sa_key_import(&h, SA_KEY_FORMAT_SYMMETRIC_BYTES, k.data(), k.size(), &p);
    if (s != SA_STATUS_OK) internal_error("import %d", s);
    return h;
}
// give a handle to the provider; when the objects using it are gone, settle() takes back what is left
static const char* op_now[MAXF];
struct Offer {
    uint64_t h;
    bool del;
    uint64_t seq;
    Offer(uint64_t h_, bool del_) : h(h_), del(del_) { seq = ++offer_seq; offered[h] = {del, seq}; note("      offering key %llu, delete %d", (unsigned long long) h, del); }
    bool settled = false;
    void settle() {
        if (settled) return;
        settled = true;
        note("      settling key %llu", (unsigned long long) h);
        auto it = offered.find(h);
        if (it != offered.end() && it->second.second == seq) {
            offered.erase(it);
            if (del && !G.cur->op->faults) violation("leak:provider-key", "the provider was told to delete key %llu and did not (in: %s)", (unsigned long long) h, op_now[G.cur->id]);
            drop(h);
        } else if (!del) violation("provider:lost-key", "key %llu is gone", (unsigned long long) h);
    }
    ~Offer() { settle(); }
};

// ------------------------------------------------------------------ asymmetric keys shared by the threads
enum { K_RSA, K_EC, K_ED, K_X, K_DH };
struct PKey {
    EVP_PKEY* pk = nullptr;
    int kind = 0, curve = 0;
    Pk pub, priv;             // reference
    uint64_t h = INVALID_HANDLE;
    std::unique_ptr<Offer> offer;
    ~PKey() {
        { InProv in; EVP_PKEY_free(pk); }
        offer.reset();
    }
};
typedef std::shared_ptr<PKey> Key;
static std::vector<Key> pool;
static const char* curve_name(int c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_NIST_P256: return "P-256";
        case SA_ELLIPTIC_CURVE_NIST_P384: return "P-384";
        case SA_ELLIPTIC_CURVE_NIST_P521: return "P-521";
        case SA_ELLIPTIC_CURVE_NIST_P192: return "P-192";
        case SA_ELLIPTIC_CURVE_NIST_P224: return "P-224";
        case SA_ELLIPTIC_CURVE_ED25519: return "ED25519";
        case SA_ELLIPTIC_CURVE_X25519: return "X25519";
        case SA_ELLIPTIC_CURVE_ED448: return "ED448";
        default: return "X448";
    }
}
static int curve_kind(int c) { return curve_ed(c) ? K_ED : curve_x(c) ? K_X : K_EC; }
static const char* key_name(const PKey& k) {
    return k.kind == K_RSA ? "RSA" : k.kind == K_DH ? "DH" : k.kind == K_EC ? "EC" : curve_name(k.curve);
}
static Pk public_of(uint64_t h) {
    NoFault nf;
    size_t n = 0;
    if (api[0].sa_key_get_public(nullptr, &n, h) != SA_STATUS_OK) violation("provider:bad-handle", "the key %llu has no public half", (unsigned long long) h);
    Bytes b(n);
    if (api[0].sa_key_get_public(b.data(), &n, h) != SA_STATUS_OK) violation("provider:bad-handle", "the key %llu has no public half", (unsigned long long) h);
    b.resize(n);
    NoPreempt np;
    return pk_from_spki(b);
}
static Bytes pub_params(EVP_PKEY* pk, bool inp) {
    Bytes out;
    OSSL_PARAM* ps = nullptr;
    if (inp) G.cur->in_prov++;
    bool ok = EVP_PKEY_todata(pk, EVP_PKEY_PUBLIC_KEY, &ps) == 1;
    if (inp) G.cur->in_prov--;
    if (!ok) return out;
    for (const char* n : {"n", "e", "pub", "p", "g"}) {
        const OSSL_PARAM* q = OSSL_PARAM_locate(ps, n);
        if (!q) continue;
        Bytes v((uint8_t*) q->data, (uint8_t*) q->data + q->data_size);
        if (q->data_type == OSSL_PARAM_UNSIGNED_INTEGER) while (!v.empty() && !v.back()) v.pop_back();
        out.insert(out.end(), n, n + strlen(n));
        out.insert(out.end(), v.begin(), v.end());
    }
    if (inp) G.cur->in_prov++;
    OSSL_PARAM_free(ps);
    if (inp) G.cur->in_prov--;
    return out;
}
static Pk fresh_ref(Rng& r, PKey& k) {
    NoPreempt np;
    if (k.kind == K_RSA) return M.rsa[r.chance(3, 4) ? 0 : 1];
    return pk_ec_from_pkcs8(k.curve, M.ec_raw[k.curve][r.below(M.ec_raw[k.curve].size())]);
}
static int some_curve(Rng& r) {
    std::vector<int> v;
    for (auto& x : M.ec_raw) if (!x.second.empty()) { v.push_back(x.first); if (x.first < 5) v.push_back(x.first); }
    return r.pick(v);
}
static void op_newkey(Rng& r) {
    Key k = std::make_shared<PKey>();
    int how = (int) r.below(5);       // 0,1 text, 2 parameters, 3 handle, 4 generated
    if (r.chance(1, 3)) k->kind = K_RSA;
    else { k->curve = some_curve(r); k->kind = curve_kind(k->curve); }
    if (how < 2 && k->kind == K_ED && k->curve == SA_ELLIPTIC_CURVE_ED448) how += 2;        // needs SHAKE256 from the same context: not on offer
    if (r.chance(1, 8)) { how = 4; k->kind = K_DH; }
    last_key[G.cur->id] = INVALID_HANDLE;
    if (how < 4) k->priv = k->pub = fresh_ref(r, *k);
    if (how < 2) {
        Bytes der;
        { NoPreempt np; der = pk_pkcs8(k->priv); }
        const unsigned char* q = der.data();
        k->pk = P(d2i_AutoPrivateKey_ex(nullptr, &q, (long) der.size(), lib, nullptr));
        if (!must(k->pk, "d2i_AutoPrivateKey")) return;
    } else if (how == 2 || how == 3) {
        OSSL_PARAM* ps = nullptr;
        OSSL_PARAM own_ps[3];
        OSSL_PARAM* use = own_ps;
        uint64_t h = INVALID_HANDLE;
        int del = (int) r.below(3);          // 2: not said
        int delv = del == 1;
        if (how == 2) {
            NoPreempt np;
            if (EVP_PKEY_todata(k->priv.get(), EVP_PKEY_KEYPAIR, &ps) != 1) internal_error("todata");
            use = ps;
        } else {
            Bytes der;
            { NoPreempt np; der = pk_pkcs8(k->priv); }
            NoFault nf;
            sa_rights rt = rights_all("prov");
            sa_import_parameters_rsa_private_key_info pr{&rt};
            sa_import_parameters_ec_private_bytes pe{&rt, (sa_elliptic_curve) k->curve};
            sa_status s = api[0].sa_key_import(&h, k->kind == K_RSA ? SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO : SA_KEY_FORMAT_EC_PRIVATE_BYTES, der.data(), der.size(),
                    k->kind == K_RSA ? (void*) &pr : &pe);
            if (s != SA_STATUS_OK) internal_error("import %d", s);
            k->offer.reset(new Offer(h, del == 1));
            int i = 0;
            own_ps[i++] = OSSL_PARAM_construct_uint64("sa_key", &h);
            if (del < 2) own_ps[i++] = OSSL_PARAM_construct_int("sa_key_delete", &delv);
            own_ps[i] = OSSL_PARAM_construct_end();
        }
        auto x = own(P(EVP_PKEY_CTX_new_from_name(lib, key_name(*k), nullptr)), EVP_PKEY_CTX_free);
        bool ok = must(x.get(), "EVP_PKEY_CTX_new_from_name") && must(P(EVP_PKEY_fromdata_init(x.get())) == 1, "EVP_PKEY_fromdata_init") &&
                  must(P(EVP_PKEY_fromdata(x.get(), &k->pk, EVP_PKEY_KEYPAIR, use)) == 1, how == 2 ? "EVP_PKEY_fromdata of a clear key" : "EVP_PKEY_fromdata of a handle");
        if (ps) OSSL_PARAM_free(ps);
        if (!ok) return;
        if (how == 3) k->h = h;
    } else {
        Own<EVP_PKEY_CTX> x;
        Own<EVP_PKEY> tmpl;
        if (k->kind == K_DH && prop_name != "WARM20" && r.chance(1, 100)) {
            auto y = own(P(EVP_PKEY_CTX_new_from_name(lib, "DH", nullptr)), EVP_PKEY_CTX_free);
            if (!must(y.get(), "EVP_PKEY_CTX_new_from_name") || !must(P(EVP_PKEY_fromdata_init(y.get())) == 1, "EVP_PKEY_fromdata_init")) return;
            OSSL_PARAM_BLD* b;
            OSSL_PARAM* ps;
            BIGNUM *bp, *bg;
            {
                NoPreempt np;
                int i = (int) r.below(2);
                b = OSSL_PARAM_BLD_new();
                bp = BN_bin2bn(M.dh_p[i].data(), (int) M.dh_p[i].size(), nullptr);
                bg = BN_bin2bn(M.dh_g[i].data(), (int) M.dh_g[i].size(), nullptr);
                OSSL_PARAM_BLD_push_BN(b, "p", bp);
                OSSL_PARAM_BLD_push_BN(b, "g", bg);
                ps = OSSL_PARAM_BLD_to_param(b);
            }
            EVP_PKEY* t = nullptr;
            bool ok = must(P(EVP_PKEY_fromdata(y.get(), &t, EVP_PKEY_KEY_PARAMETERS, ps)) == 1, "EVP_PKEY_fromdata of DH parameters");
            OSSL_PARAM_free(ps);
            OSSL_PARAM_BLD_free(b);
            BN_free(bp);
            BN_free(bg);
            tmpl = own(t, EVP_PKEY_free);
            if (!ok) return;
            x = own(P(EVP_PKEY_CTX_new_from_pkey(lib, t, nullptr)), EVP_PKEY_CTX_free);
        } else x = own(P(EVP_PKEY_CTX_new_from_name(lib, key_name(*k), nullptr)), EVP_PKEY_CTX_free);
        if (!must(x.get(), "EVP_PKEY_CTX_new") || !must(P(EVP_PKEY_keygen_init(x.get())) == 1, "EVP_PKEY_keygen_init")) return;
        if (k->kind == K_RSA && !must(P(EVP_PKEY_CTX_set_rsa_keygen_bits(x.get(), 1024)) == 1, "EVP_PKEY_CTX_set_rsa_keygen_bits")) return;
        if (k->kind == K_EC && !must(P(EVP_PKEY_CTX_set_group_name(x.get(), curve_name(k->curve))) == 1, "EVP_PKEY_CTX_set_group_name")) return;
        if (!must(P(EVP_PKEY_generate(x.get(), &k->pk)) == 1, tmpl ? "EVP_PKEY_generate with parameters" : "EVP_PKEY_generate")) return;
        k->h = last_key[G.cur->id];
        k->pub = public_of(k->h);
        if (!k->pub) violation("provider:bad-handle", "a generated %s key has no public half", key_name(*k));
        if (k->kind == K_RSA) { NoPreempt np; right(EVP_PKEY_get_bits(k->pub.get()) == 1024, "EVP_PKEY_generate", "gave an RSA key of another size"); }
        if (k->kind == K_EC) {
            NoPreempt np;
            char a[80] = "", b[80] = "";
            size_t n;
            EVP_PKEY_get_group_name(k->pub.get(), a, sizeof a, &n);
            EVP_PKEY_get_group_name(M.ec_raw[k->curve].empty() ? nullptr : pk_ec_from_pkcs8(k->curve, M.ec_raw[k->curve][0]).get(), b, sizeof b, &n);
            right(!strcmp(a, b), "EVP_PKEY_generate", "gave a key on another curve");
        }
    }
    if (k->h == INVALID_HANDLE) k->h = last_key[G.cur->id];
    pool.push_back(k);
}
static Key pick(Rng& r, const std::function<bool(const PKey&)>& ok) {
    std::vector<Key> v;
    for (auto& k : pool) if (ok(*k)) v.push_back(k);
    if (v.empty()) return nullptr;
    return v[r.below(v.size())];
}
// what a thread does with a key it shares: look at it, compare, copy, drop
static void op_keymisc(Rng& r) {
    Key k = pick(r, [](const PKey&) { return true; });
    if (!k) return op_newkey(r);
    switch (r.below(6)) {
        case 0: case 1: {
            Bytes want;
            { NoPreempt np; want = pub_params(k->pub.get(), false); }
            Bytes got = pub_params(k->pk, true);
            if (!must(!got.empty(), "EVP_PKEY_todata")) return;
            right(got == want, "EVP_PKEY_todata", "gave another public key");
            int a = P(EVP_PKEY_get_bits(k->pk)), b = P(EVP_PKEY_get_size(k->pk));
            NoPreempt np;
// (OpenSSL itself gives 253 or 256 for an Ed25519 key, depending on which of its two implementations read it)
            if (a > 0 && k->kind != K_ED) right(a == EVP_PKEY_get_bits(k->pub.get()), "EVP_PKEY_get_bits", "gave another number");
            if (b > 0) right(b == EVP_PKEY_get_size(k->pub.get()), "EVP_PKEY_get_size");
            return;
        }
        case 2: {
            Key q = pick(r, [&](const PKey& o) { return o.kind == k->kind; });
            bool same;
            { NoPreempt np; same = EVP_PKEY_eq(k->pub.get(), q->pub.get()) == 1; }
            int e = P(EVP_PKEY_eq(k->pk, q->pk));
            if (q->pk == k->pk || (q->h == k->h && k->h != INVALID_HANDLE)) must(e == 1, "EVP_PKEY_eq of a key with itself");
            else if (!same) right(e != 1, "EVP_PKEY_eq", "takes two different keys for equal");
            return;
        }
        case 3: {
            auto d = own(P(EVP_PKEY_dup(k->pk)), EVP_PKEY_free);
            if (!must(d.get(), "EVP_PKEY_dup")) return;
            Bytes want;
            { NoPreempt np; want = pub_params(k->pub.get(), false); }
            Bytes got = pub_params(d.get(), true);
            if (!must(!got.empty(), "EVP_PKEY_todata of a duplicate")) return;
            right(got == want, "EVP_PKEY_dup", "gave another public key");
            if (r.chance(1, 2) && P(EVP_PKEY_eq(d.get(), k->pk)) != 1) must(false, "EVP_PKEY_eq of a duplicate");
            return;
        }
        case 4: {
            P(EVP_PKEY_up_ref(k->pk));
            sched_yield_point();
            P(EVP_PKEY_free(k->pk), 0);
            return;
        }
        default: {
            auto it = std::find(pool.begin(), pool.end(), k);
            if (it != pool.end()) pool.erase(it);
            return;      // the last user frees it
        }
    }
}

// ------------------------------------------------------------------ signatures
struct SigP { int dig = 1, mgf = 1; bool pss = false, mgf_set = false; int salt = 0; };
static SigP sig_params(Rng& r, const PKey& k) {
    SigP s;
    s.dig = (int) r.below(4);
    s.pss = k.kind == K_RSA && r.chance(1, 2);
    s.mgf_set = r.chance(1, 2);
    s.mgf = s.mgf_set ? (int) r.below(4) : s.dig;
    if (s.pss) {
        NoPreempt np;
        int room = EVP_PKEY_get_size(k.pub.get()) - (int) r_dlen(s.dig) - 2;
        s.salt = r.chance(1, 2) ? std::min(room, (int) r_dlen(s.dig)) : (int) r.below((uint64_t) room + 1);
    }
    return s;
}
static bool set_sig(EVP_PKEY_CTX* x, const PKey& k, const SigP& s, Rng& r) {
    if (k.kind != K_RSA) return true;
    if (!s.pss) {
        if (r.chance(1, 2)) return must(P(EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING)) == 1, "EVP_PKEY_CTX_set_rsa_padding");
        return true;
    }
    if (!must(P(EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING)) == 1, "EVP_PKEY_CTX_set_rsa_padding")) return false;
    if (s.mgf_set && !must(P(EVP_PKEY_CTX_set_rsa_mgf1_md(x, r_md(s.mgf))) == 1, "EVP_PKEY_CTX_set_rsa_mgf1_md")) return false;
    return must(P(EVP_PKEY_CTX_set_rsa_pss_saltlen(x, s.salt)) == 1, "EVP_PKEY_CTX_set_rsa_pss_saltlen");
}
static void ref_params(EVP_PKEY_CTX* x, const PKey& k, const SigP& s) {
    if (k.kind != K_RSA) return;
    EVP_PKEY_CTX_set_rsa_padding(x, s.pss ? RSA_PKCS1_PSS_PADDING : RSA_PKCS1_PADDING);
    if (!s.pss) return;
    EVP_PKEY_CTX_set_rsa_mgf1_md(x, r_md(s.mgf));
    EVP_PKEY_CTX_set_rsa_pss_saltlen(x, s.salt);
}
static bool ref_verify(const PKey& k, const SigP& s, const Bytes& msg, const Bytes& sig) {
    NoPreempt np;
    EVP_MD_CTX* m = EVP_MD_CTX_new();
    EVP_PKEY_CTX* x = nullptr;
    bool ok = EVP_DigestVerifyInit(m, &x, k.kind == K_ED ? nullptr : r_md(s.dig), nullptr, k.pub.get()) == 1;
    if (ok) ref_params(x, k, s);
    ok = ok && EVP_DigestVerify(m, sig.data(), sig.size(), msg.data(), msg.size()) == 1;
    EVP_MD_CTX_free(m);
    ERR_clear_error();
    return ok;
}
static Bytes ref_sign(const PKey& k, const SigP& s, const Bytes& msg) {
    NoPreempt np;
    EVP_MD_CTX* m = EVP_MD_CTX_new();
    EVP_PKEY_CTX* x = nullptr;
    Bytes out(1024);
    size_t n = out.size();
    bool ok = EVP_DigestSignInit(m, &x, k.kind == K_ED ? nullptr : r_md(s.dig), nullptr, k.priv.get()) == 1;
    if (ok) ref_params(x, k, s);
    ok = ok && EVP_DigestSign(m, out.data(), &n, msg.data(), msg.size()) == 1;
    EVP_MD_CTX_free(m);
    ERR_clear_error();
    out.resize(ok ? n : 0);
    return out;
}
static bool can_sign(const PKey& k) { return k.kind == K_RSA || k.kind == K_EC || k.kind == K_ED; }

// the last step of a signature: how much room, then the signature, sometimes into too little room
static bool finish_sign(Rng& r, const PKey& k, const SigP& s, const Bytes& msg, const char* what, const std::function<int(uint8_t*, size_t*)>& fn, bool again) {
    size_t n = 0;
    if (!must(fn(nullptr, &n) == 1, what)) return false;
    size_t want;
    { NoPreempt np; want = (size_t) EVP_PKEY_get_size(k.pub.get()); }
    if (k.kind != K_EC) right(n == want, what, "says another signature length");
    else right(n >= want - 10 && n <= want + 10, what, "says another signature length");
    if (again && r.chance(1, 6)) {
        size_t room = r.below(n / 2);
        Buf b(room);
        size_t m = room;
        right(fn(b.p, &m) != 1, what, "says it put a signature into a buffer that has no room for it");
        return false;
    }
    Buf b(n + r.below(3) * 7);
    size_t m = b.n;
    if (!must(fn(b.p, &m) == 1, what)) return false;
    right(m <= n, what, "gave a signature longer than it said");
    right(ref_verify(k, s, msg, b.b(m)), what, "gave a wrong signature");
    return true;
}
static void op_sign(Rng& r) {
    Key k = pick(r, can_sign);
    if (!k) return op_newkey(r);
    SigP s = sig_params(r, *k);
    Bytes msg = r.bytes(some_len(r));
    if (k->kind == K_ED || r.chance(1, 2)) {
        auto m = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
        EVP_PKEY_CTX* x = nullptr;
        if (!must(m.get(), "EVP_MD_CTX_new")) return;
        const char* md = k->kind == K_ED ? nullptr : md_names[s.dig];
        if (r.chance(1, 8)) {     // a context that was set up for something else before
            Key o = pick(r, can_sign);
            if (!must(P(EVP_DigestSignInit_ex(m.get(), nullptr, o->kind == K_ED ? nullptr : md_names[r.below(4)], lib, nullptr, o->pk, nullptr)) == 1, "EVP_DigestSignInit")) return;
            if (o->kind != K_ED && r.chance(1, 2) && !must(P(EVP_DigestSignUpdate(m.get(), msg.data(), msg.size())) == 1, "EVP_DigestSignUpdate")) return;
            P(EVP_MD_CTX_reset(m.get()));
        }
        if (!must(P(EVP_DigestSignInit_ex(m.get(), &x, md, lib, nullptr, k->pk, nullptr)) == 1, "EVP_DigestSignInit")) return;
        if (!set_sig(x, *k, s, r)) return;
        if (k->kind == K_ED || r.chance(1, 4)) {
            finish_sign(r, *k, s, msg, "EVP_DigestSign", [&](uint8_t* o, size_t* n) { return P(EVP_DigestSign(m.get(), o, n, msg.data(), msg.size())); }, true);
            return;
        }
        auto cs = chunks(r, msg.size());
        size_t at = 0, cut = r.chance(1, 3) ? r.below(cs.size() + 1) : ~0ULL;
        Own<EVP_MD_CTX> twin;
        Bytes twin_msg;
        for (size_t i = 0; i <= cs.size(); i++) {
            if (i == cut) {
                twin = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
                if (!must(twin.get(), "EVP_MD_CTX_new") || !must(P(EVP_MD_CTX_copy_ex(twin.get(), m.get())) == 1, "EVP_MD_CTX_copy of a signing context")) return;
                twin_msg = Bytes(msg.begin(), msg.begin() + (long) at);
            }
            if (i == cs.size()) break;
            if (!must(P(EVP_DigestSignUpdate(m.get(), msg.data() + at, cs[i])) == 1, "EVP_DigestSignUpdate")) return;
            at += cs[i];
        }
        if (twin) {
            Bytes more = r.bytes(r.below(40));
            if (!more.empty() && !must(P(EVP_DigestSignUpdate(twin.get(), more.data(), more.size())) == 1, "EVP_DigestSignUpdate of a copy")) return;
            twin_msg.insert(twin_msg.end(), more.begin(), more.end());
        }
        if (twin && r.chance(1, 2)) finish_sign(r, *k, s, twin_msg, "EVP_DigestSignFinal of a copy", [&](uint8_t* o, size_t* n) { return P(EVP_DigestSignFinal(twin.get(), o, n)); }, false);
        finish_sign(r, *k, s, msg, "EVP_DigestSignFinal", [&](uint8_t* o, size_t* n) { return P(EVP_DigestSignFinal(m.get(), o, n)); }, true);
    } else {
        Bytes d;
        { NoPreempt np; d = r_digest(s.dig, msg); }
        auto x = own(P(EVP_PKEY_CTX_new_from_pkey(lib, k->pk, nullptr)), EVP_PKEY_CTX_free);
        if (!must(x.get(), "EVP_PKEY_CTX_new") || !must(P(EVP_PKEY_sign_init(x.get())) == 1, "EVP_PKEY_sign_init")) return;
        if (r.chance(1, 8) && !must(P(EVP_PKEY_sign_init(x.get())) == 1, "EVP_PKEY_sign_init again")) return;
        bool md_first = r.chance(1, 2);
        if (md_first && !must(P(EVP_PKEY_CTX_set_signature_md(x.get(), r_md(s.dig))) == 1, "EVP_PKEY_CTX_set_signature_md")) return;
        if (!set_sig(x.get(), *k, s, r)) return;
        if (!md_first && !must(P(EVP_PKEY_CTX_set_signature_md(x.get(), r_md(s.dig))) == 1, "EVP_PKEY_CTX_set_signature_md")) return;
        if (r.chance(1, 4)) {
            auto y = own(P(EVP_PKEY_CTX_dup(x.get())), EVP_PKEY_CTX_free);
            if (!must(y.get(), "EVP_PKEY_CTX_dup of a signing context")) return;
            if (r.chance(1, 2)) x.swap(y);
        }
        finish_sign(r, *k, s, msg, "EVP_PKEY_sign", [&](uint8_t* o, size_t* n) { return P(EVP_PKEY_sign(x.get(), o, n, d.data(), d.size())); }, true);
    }
}
static void op_verify(Rng& r) {
    Key k = pick(r, [](const PKey& q) { return can_sign(q) && q.priv; });
    if (!k) return op_newkey(r);
    SigP s = sig_params(r, *k);
    Bytes msg = r.bytes(1 + some_len(r));
    Bytes sig = ref_sign(*k, s, msg);
    if (sig.empty()) internal_error("reference signature");
    bool bad = r.chance(1, 2);
    Bytes m2 = msg;
    if (bad) { if (r.chance(1, 2)) m2[r.below(m2.size())] ^= (uint8_t) (1 << r.below(8)); else sig[sig.size() - 1 - r.below(8)] ^= (uint8_t) (1 << r.below(8)); }
    int res = -99;
    const char* what = "EVP_DigestVerify";
    if (k->kind == K_ED || r.chance(2, 3)) {
        auto m = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
        EVP_PKEY_CTX* x = nullptr;
        if (!must(m.get(), "EVP_MD_CTX_new")) return;
        if (!must(P(EVP_DigestVerifyInit_ex(m.get(), &x, k->kind == K_ED ? nullptr : md_names[s.dig], lib, nullptr, k->pk, nullptr)) == 1, "EVP_DigestVerifyInit")) return;
        if (!set_sig(x, *k, s, r)) return;
        if (k->kind == K_ED || r.chance(1, 4)) res = P(EVP_DigestVerify(m.get(), sig.data(), sig.size(), m2.data(), m2.size()));
        else {
            what = "EVP_DigestVerifyFinal";
            size_t at = 0;
            for (size_t c : chunks(r, m2.size())) {
                if (!must(P(EVP_DigestVerifyUpdate(m.get(), m2.data() + at, c)) == 1, "EVP_DigestVerifyUpdate")) return;
                at += c;
            }
            Own<EVP_MD_CTX> twin;
            if (r.chance(1, 4)) {
                twin = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
                if (!must(twin.get(), "EVP_MD_CTX_new") || !must(P(EVP_MD_CTX_copy_ex(twin.get(), m.get())) == 1, "EVP_MD_CTX_copy of a verifying context")) return;
            }
            res = P(EVP_DigestVerifyFinal(twin ? twin.get() : m.get(), sig.data(), sig.size()));
        }
    } else {
        what = "EVP_PKEY_verify";
        Bytes d;
        { NoPreempt np; d = r_digest(s.dig, m2); }
        auto x = own(P(EVP_PKEY_CTX_new_from_pkey(lib, k->pk, nullptr)), EVP_PKEY_CTX_free);
        if (!must(x.get(), "EVP_PKEY_CTX_new") || !must(P(EVP_PKEY_verify_init(x.get())) == 1, "EVP_PKEY_verify_init")) return;
        if (!must(P(EVP_PKEY_CTX_set_signature_md(x.get(), r_md(s.dig))) == 1, "EVP_PKEY_CTX_set_signature_md")) return;
        if (!set_sig(x.get(), *k, s, r)) return;
        res = P(EVP_PKEY_verify(x.get(), sig.data(), sig.size(), d.data(), d.size()));
    }
    if (bad) right(res != 1, what, "accepts a wrong signature");
    else must(res == 1, what);
}

// ------------------------------------------------------------------ RSA encryption
static void op_rsa(Rng& r) {
    Key k = pick(r, [](const PKey& q) { return q.kind == K_RSA && q.priv; });
    if (!k) return op_newkey(r);
    bool oaep = r.chance(2, 3), enc = r.chance(1, 2), dig_set = r.chance(2, 3), mgf_set = r.chance(1, 2);
    size_t ks;
    { NoPreempt np; ks = (size_t) EVP_PKEY_get_size(k->pub.get()); }
    int dig = dig_set ? (int) r.below(ks < 200 ? 3 : 4) : 0, mgf = mgf_set ? (int) r.below(4) : dig;
    Bytes label = oaep && r.chance(1, 3) ? r.bytes(1 + r.below(40)) : Bytes();
    size_t max = oaep ? ks - 2 * r_dlen(dig) - 2 : ks - 11;
    Bytes pt = r.bytes(r.chance(1, 4) ? max : 1 + r.below(max));
    int alg = oaep ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
    Bytes in = pt;
    bool bad = false;
    if (!enc) {
        NoPreempt np;
        in = rsa_encrypt(k->pub, alg, dig, mgf, label, pt);
        if (oaep && r.chance(1, 6)) { bad = true; in[in.size() - 1 - r.below(20)] ^= 1; }
    }
    auto x = own(P(EVP_PKEY_CTX_new_from_pkey(lib, k->pk, nullptr)), EVP_PKEY_CTX_free);
    const char* what = enc ? "EVP_PKEY_encrypt" : "EVP_PKEY_decrypt";
    auto init = [&] { return enc ? P(EVP_PKEY_encrypt_init(x.get())) : P(EVP_PKEY_decrypt_init(x.get())); };
    if (!must(x.get(), "EVP_PKEY_CTX_new") || !must(init() == 1, "EVP_PKEY_encrypt_init")) return;
    if (r.chance(1, 8) && !must(init() == 1, "EVP_PKEY_encrypt_init again")) return;
    if (!must(P(EVP_PKEY_CTX_set_rsa_padding(x.get(), oaep ? RSA_PKCS1_OAEP_PADDING : RSA_PKCS1_PADDING)) == 1, "EVP_PKEY_CTX_set_rsa_padding")) return;
    if (oaep) {
        if (dig_set && !must(P(EVP_PKEY_CTX_set_rsa_oaep_md(x.get(), r_md(dig))) == 1, "EVP_PKEY_CTX_set_rsa_oaep_md")) return;
        if (mgf_set && !must(P(EVP_PKEY_CTX_set_rsa_mgf1_md(x.get(), r_md(mgf))) == 1, "EVP_PKEY_CTX_set_rsa_mgf1_md")) return;
        if (!label.empty()) {
            void* l = OPENSSL_memdup(label.data(), label.size());
            bool ok = P(EVP_PKEY_CTX_set0_rsa_oaep_label(x.get(), l, (int) label.size())) == 1;
            if (!ok) OPENSSL_free(l);
            if (!must(ok, "EVP_PKEY_CTX_set0_rsa_oaep_label")) return;
        }
    }
    if (r.chance(1, 3)) {
        auto y = own(P(EVP_PKEY_CTX_dup(x.get())), EVP_PKEY_CTX_free);
        if (!must(y.get(), "EVP_PKEY_CTX_dup of an encryption context")) return;
        if (r.chance(2, 3)) x.swap(y);
        if (r.chance(1, 2)) y.reset();
    }
    auto fn = [&](uint8_t* o, size_t* n) { return enc ? P(EVP_PKEY_encrypt(x.get(), o, n, in.data(), in.size())) : P(EVP_PKEY_decrypt(x.get(), o, n, in.data(), in.size())); };
    size_t n = 0;
    if (!must(fn(nullptr, &n) == 1, enc ? "EVP_PKEY_encrypt (length)" : "EVP_PKEY_decrypt (length)")) return;
    right(n >= (enc ? ks : pt.size()) && n <= ks, what, "says another length");
    Buf b(n);
    size_t m = n;
    int res = fn(b.p, &m);
    if (bad) { right(res != 1, what, "accepts a tampered ciphertext"); return; }
    if (!must(res == 1, what)) return;
    right(m <= n, what, "gave more than it said");
    Bytes got = b.b(m);
    if (enc) {
        NoPreempt np;
        Bytes back;
        right(rsa_decrypt(k->priv, alg, dig, mgf, label, got, back) && back == pt, what, "gave a ciphertext that does not decrypt to the plaintext");
    } else right(got == pt, what, "gave another plaintext");
}

// ------------------------------------------------------------------ key exchange
static void op_derive(Rng& r) {
    Key k = pick(r, [](const PKey& q) { return q.kind == K_EC || q.kind == K_X || q.kind == K_DH; });
    if (!k) return op_newkey(r);
    struct Peer { Pk priv, pub; };
    auto peer_of = [&]() -> Peer {
        NoPreempt np;
        if (k->kind == K_DH) {
            BIGNUM *p = nullptr, *g = nullptr;
            EVP_PKEY_get_bn_param(k->pub.get(), "p", &p);
            EVP_PKEY_get_bn_param(k->pub.get(), "g", &g);
            Bytes bp((size_t) BN_num_bytes(p)), bg((size_t) BN_num_bytes(g));
            BN_bn2bin(p, bp.data());
            BN_bn2bin(g, bg.data());
            BN_free(p);
            BN_free(g);
            Pk q = pk_generate_dh(bp, bg);
            return {q, q ? pk_from_spki(pk_spki(q)) : nullptr};
        }
        auto& v = M.peers[k->curve];
        const Bytes& spki = v[r.below(v.size())];
        auto it = M.known_peers.find(spki);
        return {it->second->priv, pk_from_spki(spki)};
    };
    Peer pe = peer_of();
    if (!pe.priv || !pe.pub) internal_error("peer");
    auto x = own(P(EVP_PKEY_CTX_new_from_pkey(lib, k->pk, nullptr)), EVP_PKEY_CTX_free);
    if (!must(x.get(), "EVP_PKEY_CTX_new") || !must(P(EVP_PKEY_derive_init(x.get())) == 1, "EVP_PKEY_derive_init")) return;
    if (r.chance(1, 8) && !must(P(EVP_PKEY_derive_init(x.get())) == 1, "EVP_PKEY_derive_init again")) return;
    Pk first;
    if (r.chance(1, 6)) {
        Peer p1 = peer_of();
        first = p1.pub;
        if (!must(P(EVP_PKEY_derive_set_peer(x.get(), p1.pub.get())) == 1, "EVP_PKEY_derive_set_peer")) return;
    }
    Own<EVP_PKEY_CTX> early;
    if (r.chance(1, 6)) {
        early = own(P(EVP_PKEY_CTX_dup(x.get())), EVP_PKEY_CTX_free);
        if (!must(early.get(), "EVP_PKEY_CTX_dup of an exchange context")) return;
    }
    if (!first && r.chance(1, 10)) {         // no peer yet
        size_t n = 8;
        Buf b(8);
        right(P(EVP_PKEY_derive(x.get(), b.p, &n)) != 1, "EVP_PKEY_derive", "works without a peer");
    }
    if (!must(P(EVP_PKEY_derive_set_peer(x.get(), pe.pub.get())) == 1, "EVP_PKEY_derive_set_peer")) return;
    if (r.chance(1, 4)) {
        auto y = own(P(EVP_PKEY_CTX_dup(x.get())), EVP_PKEY_CTX_free);
        if (!must(y.get(), "EVP_PKEY_CTX_dup of an exchange context")) return;
        if (r.chance(2, 3)) x.swap(y);
        if (r.chance(1, 2)) y.reset();
    }
    size_t n = 0;
    if (!must(P(EVP_PKEY_derive(x.get(), nullptr, &n)) == 1, "EVP_PKEY_derive (length)")) return;
    right(n == sizeof(sa_key), "EVP_PKEY_derive", "says another length");
    if (r.chance(1, 10)) {
        Buf b(5);
        size_t m = 5;
        right(P(EVP_PKEY_derive(x.get(), b.p, &m)) != 1, "EVP_PKEY_derive", "says it put a handle into a buffer that has no room for it");
        return;
    }
    Buf b(n + 1);
    int off = (int) r.below(2);
    size_t m = b.n - (size_t) off;
    if (!must(P(EVP_PKEY_derive(x.get(), b.p + off, &m)) == 1, "EVP_PKEY_derive")) return;
    right(m == 8, "EVP_PKEY_derive", "gave another length");
    uint64_t h;
    memcpy(&h, b.p + off, 8);
    take(h, "EVP_PKEY_derive");
    Bytes want;
    { NoPreempt np; want = pk_ecdh(pe.priv, k->pub); }
    key_is(h, want, "EVP_PKEY_derive");
    drop(h);
}

// ------------------------------------------------------------------ key derivation
struct KdfIn { Bytes key, salt, info; int dig = 1, sep = 0, l = 0; size_t n = 16; };
static Bytes kdf_ref(int which, const KdfIn& k) {
    NoPreempt np;
    switch (which) {
        case 0: return r_hkdf(k.dig, k.key, k.salt, k.info, k.n);
        case 1: return r_concat(k.dig, k.key, k.info, k.n);
        case 2: return r_x963(k.dig, k.key, k.info, k.n);
        default: {
            Bytes o = k.salt;
            if (k.sep) o.push_back(0);
            o.insert(o.end(), k.info.begin(), k.info.end());
            if (k.l) for (int i = 3; i >= 0; i--) o.push_back((uint8_t) (k.n >> (8 * i)));
            return r_kdf_cmac(k.key, o, 1, k.n);
        }
    }
}
static KdfIn kdf_in(Rng& r, int which) {
    KdfIn k;
    k.key = r.bytes(which == 3 ? (r.chance(1, 3) ? 32 : 16) : 16 + r.below(33));
    k.salt = r.bytes(r.chance(1, 5) ? 0 : 1 + r.below(40));
    k.info = r.bytes(r.chance(1, 5) ? 0 : 1 + r.below(40));
    if (which == 3 && k.salt.empty() && k.info.empty()) k.info = r.bytes(5);
    if (which == 1 || which == 2) k.salt.clear();
    k.dig = (int) r.below(4);
    k.sep = which == 3 && r.chance(1, 2);
    k.l = which == 3 && r.chance(1, 2);
    k.n = which == 3 ? 16 + 16 * r.below(4) : 16 + r.below(49);
    return k;
}
static void op_kdf(Rng& r) {
    static const char* const names[][2] = {{"HKDF", "HKDF"}, {"SSKDF", "CONCAT"}, {"X963KDF", "ANSI_X963"}, {"KBKDF", "CMAC"}};
    int which = (int) r.below(4);
    auto kdf = own(P(EVP_KDF_fetch(lib, names[which][r.below(2)], nullptr)), EVP_KDF_free);
    if (!must(kdf.get(), "EVP_KDF_fetch")) return;
    std::vector<std::unique_ptr<Offer>> offers;       // freed after the contexts
    auto x = own(P(EVP_KDF_CTX_new(kdf.get())), EVP_KDF_CTX_free);
    if (!must(x.get(), "EVP_KDF_CTX_new")) return;
    int rounds = 1 + (int) r.below(3);
    KdfIn in;
    bool have = false;
    for (int i = 0; i < rounds; i++) {
        bool rekey = !have || r.chance(1, 2);
        if (have && r.chance(1, 3)) {
            P(EVP_KDF_CTX_reset(x.get()), 0);
            rekey = true;
            have = false;
        }
        KdfIn nw = kdf_in(r, which);
        if (!rekey) { nw.key = in.key; }
        std::vector<OSSL_PARAM> ps;
        uint64_t h = INVALID_HANDLE;
        int del = (int) r.below(3), delv = del == 1;
        bool via_octets = r.chance(1, 2);
        if (rekey) {
            h = sym(nw.key);
            offers.emplace_back(new Offer(h, del == 1));
            if (via_octets) ps.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, &h, sizeof h));
            else ps.push_back(OSSL_PARAM_construct_uint64("sa_key", &h));
            if (del < 2 || have) { if (del == 2) del = 0; ps.push_back(OSSL_PARAM_construct_int("sa_key_delete", &delv)); }
        }
        bool all = !have || r.chance(1, 2);        // else what was given before still holds
        if (all) {
            if (which != 3) ps.push_back(OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, (char*) md_names[nw.dig], 0));
            if (!nw.salt.empty() || (have && !in.salt.empty())) {
                if (nw.salt.empty()) nw.salt = r.bytes(9);
                ps.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, nw.salt.data(), nw.salt.size()));
            }
            if (!nw.info.empty() || (have && !in.info.empty())) {
                if (nw.info.empty()) nw.info = r.bytes(9);
                ps.push_back(OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, nw.info.data(), nw.info.size()));
            }
            if (which == 3) {
                ps.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR, &nw.sep));
                ps.push_back(OSSL_PARAM_construct_int(OSSL_KDF_PARAM_KBKDF_USE_L, &nw.l));
            }
        } else {
            KdfIn keep = in;
            keep.key = nw.key;
            keep.n = nw.n;
            nw = keep;
        }
        ps.push_back(OSSL_PARAM_construct_end());
        bool split = r.chance(1, 3);
        if (split && !must(P(EVP_KDF_CTX_set_params(x.get(), ps.data())) == 1, "EVP_KDF_CTX_set_params")) return;
        if (r.chance(1, 4) && split) {
            auto y = own(P(EVP_KDF_CTX_dup(x.get())), EVP_KDF_CTX_free);
            if (!must(y.get(), "EVP_KDF_CTX_dup")) return;
            if (r.chance(2, 3)) x.swap(y);
            if (r.chance(1, 2)) y.reset();
        }
        in = nw;
        have = true;
        Buf b(sizeof(sa_key));           // the result is a handle, whatever length the derived key has
        Bytes out(nw.n < 8 ? 8 : nw.n);
        (void) b;
        if (!must(P(EVP_KDF_derive(x.get(), out.data(), nw.n, split ? nullptr : ps.data())) == 1, "EVP_KDF_derive")) return;
        uint64_t got;
        memcpy(&got, out.data(), 8);
        take(got, "EVP_KDF_derive");
        key_is(got, kdf_ref(which, nw), "EVP_KDF_derive");
        drop(got);
    }
    x.reset();
    for (auto& o : offers) o->settle();
}

// ------------------------------------------------------------------ MACs
static void op_mac(Rng& r) {
    bool cmac = r.chance(1, 2);
    auto mac = own(P(EVP_MAC_fetch(lib, cmac ? "CMAC" : "HMAC", nullptr)), EVP_MAC_free);
    if (!must(mac.get(), "EVP_MAC_fetch")) return;
    std::vector<std::unique_ptr<Offer>> offers;
    auto x = own(P(EVP_MAC_CTX_new(mac.get())), EVP_MAC_CTX_free);
    if (!must(x.get(), "EVP_MAC_CTX_new")) return;
    Bytes key;
    int dig = 1;
    int rounds = 1 + (int) r.below(3);
    for (int i = 0; i < rounds; i++) {
        std::vector<OSSL_PARAM> ps;
        uint64_t h;
        int del = (int) r.below(3), delv = del == 1;
        int how = i && r.chance(1, 3) ? 2 : (int) r.below(2);       // bytes, handle, the same key again
        if (how < 2) key = r.bytes(cmac ? (r.chance(1, 3) ? 32 : 16) : 16 + r.below(100));
        if (how == 1) {
            h = sym(key);
            offers.emplace_back(new Offer(h, del == 1));
            ps.push_back(OSSL_PARAM_construct_uint64("sa_key", &h));
            if (del < 2 || i) { if (del == 2) del = 0; ps.push_back(OSSL_PARAM_construct_int("sa_key_delete", &delv)); }
        }
        if (!cmac && (!i || r.chance(1, 2))) { dig = (int) r.below(4); ps.push_back(OSSL_PARAM_construct_utf8_string(OSSL_MAC_PARAM_DIGEST, (char*) md_names[dig], 0)); }
        ps.push_back(OSSL_PARAM_construct_end());
        if (!must(P(EVP_MAC_init(x.get(), how == 0 ? key.data() : nullptr, how == 0 ? key.size() : 0, ps.data())) == 1, "EVP_MAC_init")) return;
        Bytes msg = r.bytes(some_len(r));
        size_t at = 0;
        if (i + 1 < rounds && r.chance(1, 5)) continue;        // started again before it was finished
        for (size_t c : chunks(r, msg.size())) {
            if (!must(P(EVP_MAC_update(x.get(), msg.data() + at, c)) == 1, "EVP_MAC_update")) return;
            at += c;
        }
        Bytes want;
        { NoPreempt np; want = cmac ? r_cmac(key, msg) : r_hmac(dig, key, msg); }
        right(P(EVP_MAC_CTX_get_mac_size(x.get())) == want.size(), "EVP_MAC_CTX_get_mac_size");
        if (r.chance(1, 8)) {
            Buf b(want.size() / 2);
            size_t n = 0;
            right(P(EVP_MAC_final(x.get(), b.p, &n, b.n)) != 1, "EVP_MAC_final", "says it put the MAC into a buffer that has no room for it");
            continue;
        }
        Buf b(want.size() + r.below(2) * 5);
        size_t n = 0;
        if (!must(P(EVP_MAC_final(x.get(), b.p, &n, b.n)) == 1, "EVP_MAC_final")) return;
        right(b.b(n) == want, "EVP_MAC_final", "gave another MAC than the direct call");
    }
    x.reset();
    for (auto& o : offers) o->settle();
}

// ------------------------------------------------------------------ digests
static void op_digest(Rng& r) {
    static const char* const other[] = {"SHA-1", "SHA2-256", "SHA2-384", "SHA2-512"};
    int dig = (int) r.below(4);
    auto md = own(P(EVP_MD_fetch(lib, r.chance(1, 2) ? md_names[dig] : other[dig], nullptr)), EVP_MD_free);
    if (!must(md.get(), "EVP_MD_fetch")) return;
    right((size_t) EVP_MD_get_size(md.get()) == r_dlen(dig), "EVP_MD_get_size");
    auto x = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
    if (!must(x.get(), "EVP_MD_CTX_new")) return;
    int rounds = 1 + (int) r.below(2);
    for (int i = 0; i < rounds; i++) {
        if (!must(P(EVP_DigestInit_ex2(x.get(), md.get(), nullptr)) == 1, "EVP_DigestInit_ex2")) return;
        Bytes msg = r.bytes(some_len(r)), tm;
        size_t at = 0;
        Own<EVP_MD_CTX> twin;
        auto cs = chunks(r, msg.size());
        size_t cut = r.chance(1, 2) ? r.below(cs.size() + 1) : ~0ULL;
        for (size_t j = 0; j <= cs.size(); j++) {
            if (j == cut) {
                twin = own(P(EVP_MD_CTX_new()), EVP_MD_CTX_free);
                if (!must(twin.get(), "EVP_MD_CTX_new") || !must(P(EVP_MD_CTX_copy_ex(twin.get(), x.get())) == 1, "EVP_MD_CTX_copy")) return;
                tm = Bytes(msg.begin(), msg.begin() + (long) at);
            }
            if (j == cs.size()) break;
            if (!must(P(EVP_DigestUpdate(x.get(), msg.data() + at, cs[j])) == 1, "EVP_DigestUpdate")) return;
            at += cs[j];
        }
        auto fin = [&](EVP_MD_CTX* c, const Bytes& m, const char* what) {
            Buf b(r_dlen(dig));
            unsigned n = 0;
            if (!must(P(EVP_DigestFinal_ex(c, b.p, &n)) == 1, what)) return false;
            NoPreempt np;
            right(b.b(n) == r_digest(dig, m), what, "gave another digest");
            return true;
        };
        if (twin) {
            Bytes more = r.bytes(r.below(60));
            if (!more.empty() && !must(P(EVP_DigestUpdate(twin.get(), more.data(), more.size())) == 1, "EVP_DigestUpdate of a copy")) return;
            tm.insert(tm.end(), more.begin(), more.end());
            if (!fin(twin.get(), tm, "EVP_DigestFinal of a copy")) return;
        }
        if (!fin(x.get(), msg, "EVP_DigestFinal")) return;
    }
}

// ------------------------------------------------------------------ ciphers
struct CipD { const char* name; int key, iv; int kind; };      // kind: 0 ECB 1 CBC 2 CTR 3 GCM 4 ChaCha20 5 ChaCha20-Poly1305
static const CipD cips[] = {{"AES-128-ECB", 16, 0, 0}, {"AES-256-ECB", 32, 0, 0}, {"AES-128-CBC", 16, 16, 1}, {"AES-256-CBC", 32, 16, 1}, {"AES-128-CTR", 16, 16, 2},
        {"AES-256-CTR", 32, 16, 2}, {"AES-128-GCM", 16, 12, 3}, {"AES-256-GCM", 32, 12, 3}, {"ChaCha20", 32, 16, 4}, {"ChaCha20-Poly1305", 32, 12, 5}};
static void op_cipher(Rng& r) {
    const CipD& d = cips[r.below(10)];
    bool block = d.kind < 2, aead = d.kind == 3 || d.kind == 5;
    auto ci = own(P(EVP_CIPHER_fetch(lib, d.name, nullptr)), EVP_CIPHER_free);
    if (!must(ci.get(), "EVP_CIPHER_fetch")) return;
    std::vector<std::unique_ptr<Offer>> offers;
    auto x = own(P(EVP_CIPHER_CTX_new()), EVP_CIPHER_CTX_free);
    if (!must(x.get(), "EVP_CIPHER_CTX_new")) return;
    Bytes key, iv;
    bool pad = true;
    int rounds = 1 + (int) r.below(3);
    bool enc = r.chance(1, 2);
    for (int i = 0; i < rounds; i++) {
        std::vector<OSSL_PARAM> ps;
        uint64_t h;
        int del = (int) r.below(3), delv = del == 1;
        bool all = !i;
        if (i && r.chance(1, 5)) {
            if (!must(P(EVP_CIPHER_CTX_reset(x.get())) == 1, "EVP_CIPHER_CTX_reset")) return;
            all = true;
            pad = true;
        }
        if (all || r.chance(1, 3)) enc = r.chance(1, 2);
        int how = !all && r.chance(1, 2) ? 2 : (int) r.below(2);
        if (how < 2) key = r.bytes((size_t) d.key);
        iv = r.bytes((size_t) d.iv);
        if (how == 1) {
            h = sym(key);
            offers.emplace_back(new Offer(h, del == 1));
            ps.push_back(OSSL_PARAM_construct_uint64("sa_key", &h));
            if (del < 2 || i) { if (del == 2) del = 0; ps.push_back(OSSL_PARAM_construct_int("sa_key_delete", &delv)); }
        }
        ps.push_back(OSSL_PARAM_construct_end());
        if (!must(P(EVP_CipherInit_ex2(x.get(), all ? ci.get() : nullptr, how == 0 ? key.data() : nullptr, iv.empty() ? nullptr : iv.data(), enc, ps.data())) == 1, "EVP_CipherInit")) return;
        if (block && (all || r.chance(1, 2))) {
            pad = r.chance(1, 2);
            if (!must(P(EVP_CIPHER_CTX_set_padding(x.get(), pad)) == 1, "EVP_CIPHER_CTX_set_padding")) return;
        }
        if (i + 1 < rounds && r.chance(1, 6)) continue;
        Bytes pt = r.bytes(some_len(r));
        if (block && !pad) pt.resize(pt.size() / 16 * 16);
        Bytes aad = aead && r.chance(2, 3) ? r.bytes(1 + r.below(60)) : Bytes(), tag, ct;
        {
            NoPreempt np;
            switch (d.kind) {
                case 0: ct = r_aes("ecb", true, key, iv, pad ? r_pad(pt) : pt); break;
                case 1: ct = r_aes("cbc", true, key, iv, pad ? r_pad(pt) : pt); break;
                case 2: ct = r_aes("ctr", true, key, iv, pt); break;
                case 4: ct = r_crypt(EVP_chacha20(), true, key, iv, pt); break;
                default: ct = r_aead(d.kind == 5, true, key, iv, aad, pt, &tag);
            }
        }
        const Bytes &in = enc ? pt : ct, &want = enc ? ct : pt;
        bool bad = aead && !enc && r.chance(1, 4);
        Bytes src = in;
        if (bad) {
            if (!src.empty() && r.chance(1, 2)) src[r.below(src.size())] ^= 4;
            else if (!aad.empty() && r.chance(1, 2)) aad[r.below(aad.size())] ^= 4;
            else tag[r.below(tag.size())] ^= 4;
        }
        if (aead && !enc && !must(P(EVP_CIPHER_CTX_ctrl(x.get(), EVP_CTRL_AEAD_SET_TAG, 16, tag.data())) == 1, "EVP_CTRL_AEAD_SET_TAG")) return;
        size_t at = 0;
        if (!aad.empty())
            for (size_t c : r.chance(2, 3) ? std::vector<size_t>{aad.size()} : chunks(r, aad.size())) {
                int n = 0;
                if (!must(P(EVP_CipherUpdate(x.get(), nullptr, &n, aad.data() + at, (int) c)) == 1, "EVP_CipherUpdate of associated data")) return;
                at += c;
            }
        Bytes got;
        at = 0;
        bool stop = false;
        auto cs = chunks(r, src.size());
        for (size_t c : cs) {
            Buf b(c + (block ? 16 : 0));
            int n = 0;
            if (!must(P(EVP_CipherUpdate(x.get(), b.p, &n, src.data() + at, (int) c)) == 1, "EVP_CipherUpdate")) return;
            right(n >= 0 && (size_t) n <= b.n, "EVP_CipherUpdate", "says it wrote more than fits");
            Bytes o = b.b((size_t) n);
            got.insert(got.end(), o.begin(), o.end());
            at += c;
            if (i + 1 < rounds && r.chance(1, 40)) { stop = true; break; }      // given up half way
        }
        if (stop) continue;
        Buf b(block ? 32 : 16);
        int n = 0;
        int res = P(EVP_CipherFinal_ex(x.get(), b.p, &n));
        if (bad) { right(res != 1, "EVP_CipherFinal", "accepts what was tampered with"); continue; }
        if (res != 1 && G.verbose) fprintf(stderr, "final of %s %s round %d pad %d src %zu aad %zu chunks %zu", d.name, enc ? "enc" : "dec", i, pad, src.size(), aad.size(), cs.size());
        if (!must(res == 1, "EVP_CipherFinal")) return;
        Bytes o = b.b((size_t) n);
        got.insert(got.end(), o.begin(), o.end());
        right(got == want, enc ? "EVP_EncryptUpdate" : "EVP_DecryptUpdate", std::string(d.name) + (pad && block ? " padded" : "") + ": gave " + hex(got) + " for " + hex(want) + " (" + std::to_string(got.size()) + ", " + std::to_string(want.size()) + " bytes)");
        if (aead && enc) {
            Bytes t(16);
            if (!must(P(EVP_CIPHER_CTX_ctrl(x.get(), EVP_CTRL_AEAD_GET_TAG, 16, t.data())) == 1, "EVP_CTRL_AEAD_GET_TAG")) return;
            right(t == tag, "EVP_CTRL_AEAD_GET_TAG", "gave another tag");
        }
    }
    x.reset();
    for (auto& o : offers) o->settle();
}

// OpenSSL keeps the provider when it loses count of an algorithm after an allocation failed in it: not the provider's doing.
bool prov_may_stay() { return G.sh->faults[FK_CLALLOC] || G.sh->faults[FK_OSSL]; }
// ------------------------------------------------------------------ runs
static const char* const op_title[] = {"new key", "key", "sign", "verify", "rsa", "derive", "kdf", "mac", "digest", "cipher"};
static uint64_t loaded_at;
static void get_provider() {
    static OSSL_LIB_CTX* (*fn)() = (OSSL_LIB_CTX * (*) ()) dlsym(lib_prov, "sa_get_provider");
    if (!fn) internal_error("sa_get_provider");
    OSSL_LIB_CTX* l = P(fn());
    if (!l) {
        if (!G.sh->faults[FK_CLALLOC] && !G.sh->faults[FK_OSSL] && !G.sh->faults[FK_MTXINIT] && !G.sh->faults[FK_ATEXIT]) must(false, "sa_get_provider");
        no_provider = true;
        return;
    }
    if (lib && lib != l) violation("provider:wrong:sa_get_provider", "two threads got different provider contexts");
    if (!lib) {
        // OpenSSL never tries again to set up an algorithm it once failed to set up: that is not the provider's doing.
        InProv in;
        NoFault nf;
        NoPreempt np;
        for (const char* n : md_names) EVP_MD_free(EVP_MD_fetch(l, n, nullptr));
        for (const char* n : {"AES-128-ECB", "AES-256-ECB", "AES-128-CBC", "AES-256-CBC", "AES-128-CTR", "AES-256-CTR", "AES-128-GCM", "AES-256-GCM", "ChaCha20", "ChaCha20-Poly1305"})
            EVP_CIPHER_free(EVP_CIPHER_fetch(l, n, nullptr));
        for (const char* n : {"HMAC", "CMAC"}) EVP_MAC_free(EVP_MAC_fetch(l, n, nullptr));
        for (const char* n : {"HKDF", "SSKDF", "X963KDF", "KBKDF"}) EVP_KDF_free(EVP_KDF_fetch(l, n, nullptr));
        for (const char* n : {"RSA", "EC", "DH", "X25519", "X448", "ED25519", "ED448"}) EVP_KEYMGMT_free(EVP_KEYMGMT_fetch(l, n, nullptr));
        for (const char* n : {"RSA", "ECDSA", "ED25519", "ED448"}) EVP_SIGNATURE_free(EVP_SIGNATURE_fetch(l, n, nullptr));
        for (const char* n : {"DH", "ECDH", "X25519", "X448"}) EVP_KEYEXCH_free(EVP_KEYEXCH_fetch(l, n, nullptr));
        EVP_ASYM_CIPHER_free(EVP_ASYM_CIPHER_fetch(l, "RSA", nullptr));
        ERR_clear_error();
        lib = l;
        loaded_at = heap_seq();
    }
}
static bool prov_op(int kind, uint64_t id, uint64_t rs) {
    Fiber* f = G.cur;
    OpCtx c;
    c.id = G.next_op++;
    c.fiber = f->id;
    c.index = (int) id;
    op_rebase(id << 26, id << 20);
    f->op = &c;
    c.active = true;
    sched_yield_point();
    note("%s", op_title[kind]);
    op_now[f->id] = op_title[kind];
    Rng r(rs);
    get_provider();
    if (!no_provider && lib) switch (kind) {
        case 0: op_newkey(r); break;
        case 1: op_keymisc(r); break;
        case 2: op_sign(r); break;
        case 3: op_verify(r); break;
        case 4: op_rsa(r); break;
        case 5: op_derive(r); break;
        case 6: op_kdf(r); break;
        case 7: op_mac(r); break;
        case 8: op_digest(r); break;
        default: op_cipher(r);
    }
    c.active = false;
    f->op = nullptr;
    ERR_clear_error();
    note("   %s done%s", op_title[kind], c.faults ? " (failures injected)" : "");
    G.sh->ops++;
    if (c.faults) G.sh->ops_faulted++;
    else G.sh->ops_ok++;
    feature(hcomb(hcomb(kind, 0x9911), c.fault_mask));
    G.sh->hist_hash = hcomb(G.sh->hist_hash, hcomb(kind, c.faults * 131 + prov_live[0].size()));
    op_progress();
    return c.faults == 0;
}
void prov_begin() {
    for (auto& m : prov_live) m.clear();
    offered.clear();
    pool.clear();
    lib = nullptr;
    loaded_at = 0;
    no_provider = false;
    for (auto& x : last_key) x = INVALID_HANDLE;
}
int prov_kind(Rng& r) {
    static const char* only = getenv("SIM_PROVKIND");
    if (only) return only[r.below(strlen(only))] - '0';
    static const unsigned w[] = {14, 12, 12, 8, 8, 10, 10, 12, 6, 20};
    unsigned t = 0, at;
    for (unsigned x : w) t += x;
    at = (unsigned) r.below(t);
    for (int i = 0;; i++) { if (at < w[i]) return i; at -= w[i]; }
}
void prov_step(int kind, uint64_t id, uint64_t rs) { prov_op(kind, id, rs); }
void prov_get(uint64_t id) {
    OpCtx c;
    c.id = G.next_op++;
    op_rebase(id << 26, id << 20);
    G.cur->op = &c;
    get_provider();
    G.cur->op = nullptr;
}
void prov_drop_keys() {
    OpCtx c;
    op_now[G.cur->id] = "end of the phase";
    c.id = G.next_op++;
    c.faults = 1;          // what earlier failures left of an offered key is settled here
    G.cur->op = &c;
    while (!pool.empty()) pool.pop_back();
    G.cur->op = nullptr;
}
void prov_end_checks() {
    for (int i = 0; i < 3; i++)
        for (auto& x : prov_live[i])
            violation("leak:provider-handle", "every OpenSSL object is gone, but the %s handle %llu the provider made in call %llu was not released", kinds[i],
                    (unsigned long long) x.first, (unsigned long long) x.second);
    std::string s;
    size_t n = heap_count(2, s, loaded_at);        // the provider itself stays until the process ends
    if (n) violation("leak:provider-memory", "every OpenSSL object is gone, but the provider holds %zu blocks of memory:%s", n, s.c_str());
}

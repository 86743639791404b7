// Runs operations against the real client library and TEE, and records what they did.
#include "raw.h"
#include "world.h"
#include <openssl/core_names.h>
#include <openssl/err.h>
#include <dlfcn.h>
#include <algorithm>
#ifdef VARIANT_A
#include <sanitizer/asan_interface.h>
#endif

std::vector<Op> H;
std::vector<Op*> running;
View V[NPROC];
bool G_no_probe;

sa_rights rights_all(const char* id) {
    sa_rights r;
    memset(&r, 0, sizeof r);
    snprintf(r.id, sizeof r.id, "%s", id);
    r.usage_flags = BIT(SA_USAGE_FLAG_CACHEABLE) | SA_KEY_USAGE_MASK | SA_USAGE_OUTPUT_PROTECTIONS_MASK;
    r.not_on_or_after = ~0ULL;
    memset(&r.allowed_tas[0], 0xff, 16);
    return r;
}

// ------------------------------------------------------------------ buffers with guards
static const size_t GZ = 48;
struct Buf {
    uint8_t* p = nullptr;
    size_t n = 0;
    Bytes before;
    Buf() {}
    void make(const Bytes& b) {
        n = b.size();
        p = (uint8_t*) malloc(n + GZ);
        if (!p) internal_error("out of memory");
        mem_fresh(p, n + GZ);
        if (n) memcpy(p, b.data(), n);
        memset(p + n, 0x9A, GZ);
        before = b;
#ifdef VARIANT_A
        __asan_poison_memory_region(p + n, GZ);
#endif
    }
    void fill(size_t len, uint8_t v) { make(Bytes(len, v)); }
    Bytes get() const { return Bytes(p, p + n); }
    bool changed() const { return n && memcmp(p, before.data(), n); }
    void check(const char* what) {
        if (!p) return;
#ifdef VARIANT_A
        __asan_unpoison_memory_region(p + n, GZ);
#endif
        for (size_t i = 0; i < GZ; i++)
            if (p[n + i] != 0x9A) violation("memory:caller-overflow", "a call wrote behind the caller's %s buffer of %zu bytes", what, n);
    }
    ~Buf() {
        if (!p) return;
#ifdef VARIANT_A
        __asan_unpoison_memory_region(p + n, GZ);
#endif
        free(p);
    }
};
struct Bufs {      // all memory of one call
    std::vector<std::unique_ptr<Buf>> in;
    std::vector<std::unique_ptr<Buf>> out;
    void* i(const Bytes& b) {
        in.emplace_back(new Buf);
        in.back()->make(b);
        return in.back()->p;
    }
    template <class T> T* s(const T& v) { return (T*) i(Bytes((const uint8_t*) &v, (const uint8_t*) &v + sizeof v)); }
    Buf* o(size_t n, uint8_t v) {
        out.emplace_back(new Buf);
        out.back()->fill(n, v);
        return out.back().get();
    }
    void check(const Op& op) {
        for (auto& b : in) {
            b->check("input");
            if (b->changed()) violation("memory:input-modified", "%s changed an input of the caller", op_names[op.kind]);
        }
        for (auto& b : out) b->check("output");
    }
};

// the secret part of a key: all of it, but only the private numbers where the key is a private key structure
static void secret_key(const Bytes& v, bool ta_only) {
    if (v.size() > 64 && v[0] == 0x30)
        if (auto k = pk_from_pkcs8(v)) {
            for (const char* p : {OSSL_PKEY_PARAM_PRIV_KEY, OSSL_PKEY_PARAM_RSA_D, OSSL_PKEY_PARAM_RSA_FACTOR1, OSSL_PKEY_PARAM_RSA_FACTOR2,
                     OSSL_PKEY_PARAM_RSA_EXPONENT1, OSSL_PKEY_PARAM_RSA_EXPONENT2, OSSL_PKEY_PARAM_RSA_COEFFICIENT1}) {
                BIGNUM* b = nullptr;
                if (EVP_PKEY_get_bn_param(k.get(), p, &b) == 1 && b) {
                    Bytes n(BN_num_bytes(b));
                    BN_bn2bin(b, n.data());
                    secret_add(n.data(), n.size(), ta_only);
                }
                ERR_clear_error();
                BN_clear_free(b);
            }
            return;
        }
    secret_add(v.data(), v.size(), ta_only);
}

// key values the call will give if it succeeds, where the reference can tell in advance
static void register_secrets(const Op& o) {
    if (!G.scan || raw_active(G.cur->id)) return;
    if (o.kind == O_KIMPORT && o.fmt <= SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO) { secret_key(o.in, false); return; }
    if (o.kind == O_KIMPORT && o.fmt == SA_KEY_FORMAT_EXPORTED) return;
    if (o.kind == O_KPROV)
        for (const Bytes* b : {&o.in, &o.p4}) {
            auto it = W.sealed.find(*b);
            if (it != W.sealed.end()) secret_key(it->second->val, true);
        }
    if (o.kind != O_KIMPORT && o.kind != O_KUNWRAP && o.kind != O_KDERIVE && o.kind != O_KEXCH) return;
    Op t = o;
    t.status = SA_STATUS_OK;
    t.rh = 0x7fff000000000001ULL;
    t.rh2 = t.rh + 1;
    t.rh3 = t.rh + 2;
    t.env_lo = t.env_hi = G.env.size() - 1;
    std::string why;
    for (auto& s : model_apply(V[o.proc].st, t, why))
        for (uint64_t h : {t.rh, t.rh2, t.rh3}) {
            auto it = s.keys.find(h);
            if (it != s.keys.end() && it->second->known) secret_key(it->second->val, true);
        }
}

static void set_buffer(sa_buffer& b, BufD& d, Bufs& m, Buf** keep, bool out, const Buf* share) {
    memset(&b, 0, sizeof b);
    b.buffer_type = (sa_buffer_type) (d.odd ? d.odd : (uint32_t) d.type);
    if (d.type == SA_BUFFER_TYPE_SVP) {
        b.context.svp.buffer = d.h;
        b.context.svp.offset = d.off;
        return;
    }
    if (share) b.context.clear.buffer = share->p;
    else if (out) { *keep = m.o(d.len, 0x6B); b.context.clear.buffer = (*keep)->p; }
    else b.context.clear.buffer = m.i(d.data);
    b.context.clear.length = d.len;
    b.context.clear.offset = d.off;
}
static size_t get_off(const sa_buffer& b, const BufD& d) { return d.type == SA_BUFFER_TYPE_SVP ? b.context.svp.offset : b.context.clear.offset; }

static void range_check(const Op& o, const Buf* b, size_t off, size_t len) {
    if (!b) return;
    for (size_t i = 0; i < b->n; i++) {
        if (i >= off && i - off < len) continue;
        if (b->p[i] != b->before[i])
            violation("memory:outside-output", "%s changed byte %zu of the output buffer, outside the stated output (offset %zu, %zu bytes)",
                    op_names[o.kind], i, off, len);
    }
}

static sa_status call(Op& o, Bufs& m) {
    Api& a = api[o.proc];
    sa_key key = INVALID_HANDLE;
    switch (o.kind) {
        case O_KGEN: {
            void* p = nullptr;
            if (o.type == SA_KEY_TYPE_SYMMETRIC) p = m.s(sa_generate_parameters_symmetric{o.n});
            else if (o.type == SA_KEY_TYPE_RSA) p = m.s(sa_generate_parameters_rsa{o.n});
            else if (o.type == SA_KEY_TYPE_EC) p = m.s(sa_generate_parameters_ec{(sa_elliptic_curve) o.curve});
            else p = m.s(sa_generate_parameters_dh{m.i(o.p1), o.p1.size(), m.i(o.p2), o.p2.size()});
            sa_status s = a.sa_key_generate(&key, m.s(o.rights), (sa_key_type) o.type, p);
            o.rh = key;
            return s;
        }
        case O_KIMPORT: {
            void* p = nullptr;
            switch (o.fmt) {
                case SA_KEY_FORMAT_SYMMETRIC_BYTES: p = m.s(sa_import_parameters_symmetric{m.s(o.rights)}); break;
                case SA_KEY_FORMAT_EC_PRIVATE_BYTES: {
                    sa_import_parameters_ec_private_bytes q;
                    memset(&q, 0, sizeof q);
                    q.rights = m.s(o.rights);
                    q.curve = (sa_elliptic_curve) o.curve;
                    p = m.s(q);
                    break;
                }
                case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO: p = m.s(sa_import_parameters_rsa_private_key_info{m.s(o.rights)}); break;
                case SA_KEY_FORMAT_TYPEJ: p = m.s(sa_import_parameters_typej{o.h, o.h2}); break;
                case SA_KEY_FORMAT_SOC:
                    if (o.pre) {
                        sa_import_parameters_soc q;
                        memset(&q, 0, sizeof q);
                        q.length[0] = sizeof q >> 8;
                        q.length[1] = (uint8_t) ((sizeof q & 255) - (o.null1 ? 1 : 0));
                        q.version = (uint8_t) o.n2;
                        q.default_rights = o.rights;
                        q.object_id = o.n;
                        p = m.s(q);
                    }
                    break;
            }
            sa_status s = a.sa_key_import(&key, (sa_key_format) o.fmt, m.i(o.in), o.in.size(), p);
            o.rh = key;
            return s;
        }
        case O_KPROV: {
            sa_import_parameters_soc q;
            memset(&q, 0, sizeof q);
            q.length[0] = sizeof q >> 8;
            q.length[1] = (uint8_t) ((sizeof q & 255) - (o.null1 ? 1 : 0));
            q.version = (uint8_t) o.n2;
            q.default_rights = o.rights;
            q.object_id = o.n;
            Bytes in;
            auto put = [&](auto v) { in.assign((const uint8_t*) &v, (const uint8_t*) &v + sizeof v); };
            void* k1 = m.i(o.in);
            void* crt = m.i(o.p5);
            unsigned l1 = (unsigned) o.in.size(), lc = (unsigned) o.p5.size();
            if (o.nullout) switch (o.cap % 6) {
                case 0: k1 = nullptr; break;
                case 1: l1 = 0; break;
                case 2: crt = nullptr; break;
                case 3: lc = 0; break;
            }
            if (o.type == PLAYREADY_MODEL_PROVISIONING) { PlayReadyProvisioning v; memset(&v, 0, sizeof v); v.modelType = (unsigned) o.alg; v.privateKeyLength = l1; v.privateKey = k1; v.modelCertificateLength = lc; v.modelCertificate = crt; put(v); }
            else if (o.type == NETFLIX_PROVISIONING) {
                NetflixProvisioning v;
                memset(&v, 0, sizeof v);
                v.hmacKeyLength = l1;
                v.hmacKey = k1;
                v.wrappingKeyLength = (unsigned) o.p4.size();
                v.wrappingKey = m.i(o.p4);
                v.esnContainerLength = lc;
                v.esnContainer = crt;
                put(v);
            } else { WidevineOemProvisioning v; memset(&v, 0, sizeof v); v.oemDevicePrivateKeyLength = l1; v.oemDevicePrivateKey = k1; v.oemDeviceCertificateLength = lc; v.oemDeviceCertificate = crt; put(v); }
            in.resize(in.size() + o.n3);
            void* ip = m.i(in);
            size_t n = in.size();
            if (o.nullout && o.cap % 6 == 4) ip = nullptr;
            if (o.nullout && o.cap % 6 == 5) n = 0;
            return a.sa_key_provision_ta((sa_key_type_ta) o.type, ip, n, o.pre ? m.s(q) : nullptr);
        }
        case O_KUNWRAP: {
            void *tp = nullptr, *ap = nullptr;
            if (o.type == SA_KEY_TYPE_EC) tp = m.s(sa_unwrap_type_parameters_ec{(sa_elliptic_curve) o.curve});
            auto P1 = [&] { return m.i(o.p1); };
            switch (o.alg) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: ap = m.s(sa_unwrap_parameters_aes_cbc{P1(), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_AES_CTR: ap = m.s(sa_unwrap_parameters_aes_ctr{P1(), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_AES_GCM:
                    ap = m.s(sa_unwrap_parameters_aes_gcm{P1(), o.p1.size(), o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size(), m.i(o.p3), o.p3.size()});
                    break;
                case SA_CIPHER_ALGORITHM_CHACHA20: ap = m.s(sa_unwrap_parameters_chacha20{m.i(o.p2), o.p2.size(), P1(), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                    ap = m.s(sa_unwrap_parameters_chacha20_poly1305{P1(), o.p1.size(), o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size(), m.i(o.p3), o.p3.size()});
                    break;
                case SA_CIPHER_ALGORITHM_RSA_OAEP:
                    ap = m.s(sa_unwrap_parameters_rsa_oaep{(sa_digest_algorithm) o.dig, (sa_digest_algorithm) o.dig2, o.p1.empty() ? nullptr : P1(), o.p1.size()});
                    break;
                case SA_CIPHER_ALGORITHM_EC_ELGAMAL: ap = m.s(sa_unwrap_parameters_ec_elgamal{o.n, o.n2}); break;
            }
            sa_status s = a.sa_key_unwrap(&key, m.s(o.rights), (sa_key_type) o.type, tp, (sa_cipher_algorithm) o.alg, ap, o.h, m.i(o.in), o.in.size());
            o.rh = key;
            return s;
        }
        case O_KDERIVE: {
            void* p = nullptr;
            switch (o.alg) {
                case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER:
                    p = m.s(sa_kdf_parameters_root_key_ladder{m.i(o.p1), o.p1.size(), m.i(o.p2), o.p2.size(), m.i(o.p3), o.p3.size(), m.i(o.p4), o.p4.size()});
                    break;
                case SA_KDF_ALGORITHM_HKDF:
                    p = m.s(sa_kdf_parameters_hkdf{o.n, (sa_digest_algorithm) o.dig, o.h, o.p1.empty() ? nullptr : m.i(o.p1), o.p1.size(),
                            o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size()});
                    break;
                case SA_KDF_ALGORITHM_CONCAT:
                    p = m.s(sa_kdf_parameters_concat{o.n, (sa_digest_algorithm) o.dig, o.h, o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size()});
                    break;
                case SA_KDF_ALGORITHM_ANSI_X963:
                    p = m.s(sa_kdf_parameters_ansi_x963{o.n, (sa_digest_algorithm) o.dig, o.h, o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size()});
                    break;
                case SA_KDF_ALGORITHM_CMAC: {
                    sa_kdf_parameters_cmac q;
                    memset(&q, 0, sizeof q);
                    q.key_length = o.n;
                    q.parent = o.h;
                    q.other_data = o.p2.empty() ? nullptr : m.i(o.p2);
                    q.other_data_length = o.p2.size();
                    q.counter = (uint8_t) o.n2;
                    p = m.s(q);
                    break;
                }
                default: p = m.s(sa_kdf_parameters_netflix{o.h, o.h2});
            }
            sa_status s = a.sa_key_derive(&key, m.s(o.rights), (sa_kdf_algorithm) o.alg, p);
            o.rh = key;
            return s;
        }
        case O_KEXCH: {
            sa_key ke = INVALID_HANDLE, kh = INVALID_HANDLE;
            sa_rights r2 = o.rights2, r3 = o.rights3;
            sa_key_exchange_parameters_netflix_authenticated_dh q;
            memset(&q, 0, sizeof q);
            q.in_kw = o.h2;
            q.out_ke = &ke;
            q.rights_ke = &r2;
            q.out_kh = &kh;
            q.rights_kh = &r3;
            sa_status s = a.sa_key_exchange(&key, m.s(o.rights), (sa_key_exchange_algorithm) o.alg, o.h, m.i(o.in), o.in.size(),
                    o.alg == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH ? &q : nullptr);
            o.rh = key;
            o.rh2 = ke;
            o.rh3 = kh;
            return s;
        }
        case O_KEXPORT: case O_KPUBLIC: {
            size_t len = o.cap;
            auto get = [&](void* out) {
                return o.kind == O_KPUBLIC ? a.sa_key_get_public(out, &len, o.h)
                                           : a.sa_key_export(out, &len, o.null1 ? nullptr : m.i(o.p1), o.null1 ? 0 : o.p1.size(), o.h);
            };
            if (o.nullout) { len = 0; sa_status s = get(nullptr); o.olen = len; return s; }
            if (o.cap == 0) {          // ask for the length first
                sa_status s = get(nullptr);
                if (s != SA_STATUS_OK) return s;
                if (len > 100000) violation("output:length", "%s reports length %zu", op_names[o.kind], len);
                if (o.n == 1 && len) len--;
                o.cap = len;
            }
            Buf* b = m.o(o.cap, 0x6B);
            sa_status s = get(b->p);
            o.olen = len;
            if (s == SA_STATUS_OK) {
                if (len > o.cap) violation("output:length", "%s reports %zu bytes in a buffer of %zu", op_names[o.kind], len, o.cap);
                o.out = Bytes(b->p, b->p + len);
                range_check(o, b, 0, len);
            } else o.touched = b->changed();
            return s;
        }
        case O_KHEADER: {
            memset(&o.hdr, 0x6B, sizeof o.hdr);
            return a.sa_key_header(&o.hdr, o.h);
        }
        case O_KDIGEST: {
            size_t len = o.nullout ? 0 : o.cap;
            Buf* b = o.nullout ? nullptr : m.o(o.cap, 0x6B);
            sa_status s = a.sa_key_digest(b ? b->p : nullptr, &len, o.h, (sa_digest_algorithm) o.dig);
            o.olen = len;
            if (b && s == SA_STATUS_OK) { o.out = Bytes(b->p, b->p + std::min(len, o.cap)); range_check(o, b, 0, len); }
            else if (b) o.touched = b->changed();
            return s;
        }
        case O_KRELEASE: return a.sa_key_release(o.h);
        case O_CINIT: {
            sa_crypto_cipher_context c = INVALID_HANDLE;
            void* p = nullptr;
            switch (o.alg) {
                case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: p = m.s(sa_cipher_parameters_aes_cbc{m.i(o.p1), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_AES_CTR: p = m.s(sa_cipher_parameters_aes_ctr{m.i(o.p1), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_AES_GCM:
                    p = m.s(sa_cipher_parameters_aes_gcm{m.i(o.p1), o.p1.size(), o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size()});
                    break;
                case SA_CIPHER_ALGORITHM_CHACHA20: p = m.s(sa_cipher_parameters_chacha20{m.i(o.p2), o.p2.size(), m.i(o.p1), o.p1.size()}); break;
                case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                    p = m.s(sa_cipher_parameters_chacha20_poly1305{m.i(o.p1), o.p1.size(), o.p2.empty() ? nullptr : m.i(o.p2), o.p2.size()});
                    break;
                case SA_CIPHER_ALGORITHM_RSA_OAEP:
                    p = m.s(sa_cipher_parameters_rsa_oaep{(sa_digest_algorithm) o.dig, (sa_digest_algorithm) o.dig2, o.p1.empty() ? nullptr : m.i(o.p1), o.p1.size()});
                    break;
            }
            sa_status s = a.sa_crypto_cipher_init(&c, (sa_cipher_algorithm) o.alg, (sa_cipher_mode) o.mode, o.h, p);
            o.rh = c;
            return s;
        }
        case O_CIV: return a.sa_crypto_cipher_update_iv(o.h, m.i(o.p1), o.p1.size());
        case O_CPROC: case O_CLAST: {
            sa_buffer in, out;
            Buf* ob = nullptr;
            set_buffer(in, o.bi, m, nullptr, false, nullptr);
            if (!o.bo.null) set_buffer(out, o.bo, m, &ob, true, nullptr);
            size_t n = o.n;
            sa_status s;
            if (o.kind == O_CPROC) s = a.sa_crypto_cipher_process(o.bo.null ? nullptr : &out, o.h, &in, &n);
            else {
                Buf* tag = m.o(o.p1.size(), 0x6B);
                if (!o.p1.empty()) { memcpy(tag->p, o.p1.data(), o.p1.size()); tag->before = o.p1; }
                sa_cipher_end_parameters_aes_gcm e{tag->p, o.p1.size()};
                s = a.sa_crypto_cipher_process_last(o.bo.null ? nullptr : &out, o.h, &in, &n, o.null1 ? nullptr : &e);
                o.out = tag->get();
            }
            o.olen = n;
            o.bi.off_after = get_off(in, o.bi);
            if (!o.bo.null) {
                o.bo.off_after = get_off(out, o.bo);
                if (ob) {
                    o.bo.data = ob->get();
                    if (s == SA_STATUS_OK) range_check(o, ob, o.bo.off, n);
                    else {
                        o.touched = ob->changed();
                        range_check(o, ob, o.bo.off, ob->n);
                    }
                }
            }
            return s;
        }
        case O_CREL: return a.sa_crypto_cipher_release(o.h);
        case O_MINIT: {
            sa_crypto_mac_context c = INVALID_HANDLE;
            sa_status s = a.sa_crypto_mac_init(&c, (sa_mac_algorithm) o.alg, o.h,
                    o.alg == SA_MAC_ALGORITHM_HMAC ? m.s(sa_mac_parameters_hmac{(sa_digest_algorithm) o.dig}) : nullptr);
            o.rh = c;
            return s;
        }
        case O_MPROC: return a.sa_crypto_mac_process(o.h, o.null1 ? nullptr : m.i(o.in), o.null1 ? o.n : o.in.size());
        case O_MPKEY: return a.sa_crypto_mac_process_key(o.h, o.h2);
        case O_MCOMP: {
            size_t len = o.nullout ? 0 : o.cap;
            Buf* b = o.nullout ? nullptr : m.o(o.cap, 0x6B);
            sa_status s = a.sa_crypto_mac_compute(b ? b->p : nullptr, &len, o.h);
            o.olen = len;
            if (b && s == SA_STATUS_OK) { o.out = Bytes(b->p, b->p + std::min(len, o.cap)); range_check(o, b, 0, len); }
            else if (b) o.touched = b->changed();
            return s;
        }
        case O_MREL: return a.sa_crypto_mac_release(o.h);
        case O_SIGN: {
            void* p = nullptr;
            switch (o.alg) {
                case SA_SIGNATURE_ALGORITHM_RSA_PSS: {
                    sa_sign_parameters_rsa_pss q;
                    memset(&q, 0, sizeof q);
                    q.digest_algorithm = (sa_digest_algorithm) o.dig;
                    q.mgf1_digest_algorithm = (sa_digest_algorithm) o.dig2;
                    q.precomputed_digest = o.pre;
                    q.salt_length = o.n;
                    p = m.s(q);
                    break;
                }
                case SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15: case SA_SIGNATURE_ALGORITHM_ECDSA: {
                    sa_sign_parameters_ecdsa q;
                    memset(&q, 0, sizeof q);
                    q.digest_algorithm = (sa_digest_algorithm) o.dig;
                    q.precomputed_digest = o.pre;
                    p = m.s(q);
                    break;
                }
            }
            size_t len = o.nullout ? 0 : o.cap;
            Buf* b = o.nullout ? nullptr : m.o(o.cap, 0x6B);
            sa_status s = a.sa_crypto_sign(b ? b->p : nullptr, &len, (sa_signature_algorithm) o.alg, o.h, m.i(o.in), o.in.size(), p);
            o.olen = len;
            if (b && s == SA_STATUS_OK) { o.out = Bytes(b->p, b->p + std::min(len, o.cap)); range_check(o, b, 0, len); }
            else if (b) o.touched = b->changed();
            return s;
        }
        case O_RANDOM: {
            Buf* b = m.o(o.n, 0x6B);
            G.cur->big_want = (int) o.n2;
            G.cur->big = false;
            sa_status s = a.sa_crypto_random(b->p, o.n);
            G.cur->big_want = 0;
            o.out = b->get();
            if (s != SA_STATUS_OK) o.touched = b->changed();
            return s;
        }
        case O_SALLOC: {
            sa_svp_buffer h = INVALID_HANDLE;
            sa_status s;
            void* mem = nullptr;
            Fiber* f = G.cur;
            if (o.mode == 0) {
                s = a.sa_svp_buffer_alloc(&h, o.n);
                if (s == SA_STATUS_OK && f && f->op) mem = f->op->svp_mem;
            } else if (o.mode == 1) {
                s = a.sa_svp_memory_alloc(&mem, o.n);
                if (s == SA_STATUS_OK) {
                    size_t sz = 0;
                    if (!svp_is_block(mem, &sz) || sz < o.n) violation("svp:alloc", "protected memory allocation returned memory outside the protected region");
                    s = a.sa_svp_buffer_create(&h, mem, o.n);
                    if (s != SA_STATUS_OK) a.sa_svp_memory_free(mem);
                }
            } else {
                // memory that is not (wholly) protected
                Buf* b = m.o(o.n, 0x6B);
                uint8_t* base = svp_base();
                void* p = o.mode == 2 ? (void*) b->p : o.mode == 3 ? (void*) (base + svp_region_size() - o.n / 2) : (void*) (base - o.n / 2);
                s = a.sa_svp_buffer_create(&h, p, o.n);
                mem = p;
            }
            o.rh = h;
            o.mem = s == SA_STATUS_OK ? mem : nullptr;
            return s;
        }
        case O_SREL: {
            void* mem = nullptr;
            size_t n = 0;
            sa_status s = a.sa_svp_buffer_release(&mem, &n, o.h);
            o.mem = mem;
            o.olen = n;
            return s;
        }
        case O_SFREE: return a.sa_svp_buffer_free(o.h);
        case O_SWRITE: {
            Bytes ob((const uint8_t*) o.offs.data(), (const uint8_t*) (o.offs.data() + o.offs.size()));
            return a.sa_svp_buffer_write(o.h, m.i(o.in), o.in.size(), (sa_svp_offset*) m.i(ob), o.offs.size());
        }
        case O_SCOPY: {
            Bytes ob((const uint8_t*) o.offs.data(), (const uint8_t*) (o.offs.data() + o.offs.size()));
            return a.sa_svp_buffer_copy(o.h, o.h2, (sa_svp_offset*) m.i(ob), o.offs.size());
        }
        case O_SKCHECK: {
            sa_buffer in;
            set_buffer(in, o.bi, m, nullptr, false, nullptr);
            sa_status s = a.sa_svp_key_check(o.h, &in, o.n, m.i(o.p1), o.p1.size());
            o.bi.off_after = get_off(in, o.bi);
            return s;
        }
        case O_SBCHECK: return a.sa_svp_buffer_check(o.h, o.n, o.n2, (sa_digest_algorithm) o.dig, m.i(o.p1), o.p1.size());
        case O_CENC: {
            size_t n = o.samples.size();
            std::vector<sa_sample> s(n);
            std::vector<sa_buffer> in(n), out(n);
            std::vector<Buf*> ob(n, nullptr);
            mem_fresh(s.data(), n * sizeof(sa_sample));
            mem_fresh(in.data(), n * sizeof(sa_buffer));
            mem_fresh(out.data(), n * sizeof(sa_buffer));
            for (size_t i = 0; i < n; i++) {
                SampleD& d = o.samples[i];
                set_buffer(in[i], d.in, m, nullptr, false, nullptr);
                set_buffer(out[i], d.out, m, &ob[i], true, nullptr);
                memset(&s[i], 0, sizeof s[i]);
                s[i].iv = m.i(d.iv);
                s[i].iv_length = d.iv.size();
                s[i].crypt_byte_block = d.crypt;
                s[i].skip_byte_block = d.skip;
                s[i].subsample_count = d.subs.size();
                s[i].subsample_lengths = (sa_subsample_length*) m.i(Bytes((const uint8_t*) d.subs.data(), (const uint8_t*) (d.subs.data() + d.subs.size())));
                s[i].context = d.ctx;
                s[i].out = &out[i];
                s[i].in = &in[i];
            }
            sa_status st = a.sa_process_common_encryption(n, s.data());
            for (size_t i = 0; i < n; i++) {
                SampleD& d = o.samples[i];
                d.in.off_after = get_off(in[i], d.in);
                d.out.off_after = get_off(out[i], d.out);
                if (ob[i]) {
                    d.out.data = ob[i]->get();
                    range_check(o, ob[i], d.out.off, d.out.off_after > d.out.off ? d.out.off_after - d.out.off : ob[i]->n);
                    if (st != SA_STATUS_OK && d.out.off_after == d.out.off) o.touched |= ob[i]->changed();
                }
            }
            return st;
        }
        case O_INFO: {
            switch (o.n) {
                case 0: { sa_version v; memset(&v, 0x6B, sizeof v); sa_status s = a.sa_get_version(&v);
                    o.out = Bytes((uint8_t*) &v, (uint8_t*) &v + sizeof v); return s; }
                case 1: {
                    size_t len = 0;
                    sa_status s = a.sa_get_name(nullptr, &len);
                    if (s != SA_STATUS_OK) return s;
                    if (len == 0 || len > 4096) violation("output:length", "name length %zu", len);
                    Buf* b = m.o(len, 0x6B);
                    s = a.sa_get_name((char*) b->p, &len);
                    o.out = b->get();
                    return s;
                }
                case 2: { uint64_t id = 0; sa_status s = a.sa_get_device_id(&id); o.olen = id; return s; }
                case 3: { sa_uuid u; memset(&u, 0x6B, sizeof u); sa_status s = a.sa_get_ta_uuid(&u);
                    o.out = Bytes((uint8_t*) &u, (uint8_t*) &u + 16); return s; }
                default: return a.sa_svp_supported();
            }
        }
    }
    internal_error("operation kind %d", o.kind);
}

static void kill_handle(View& v, int kind, uint64_t h) {
    auto& d = v.dead[kind];
    d.push_back(h);
    if (d.size() > 40) d.erase(d.begin());
}
static void update_view(const Op& o) {
    View& v = V[o.proc];
    if (o.life != v.life) return;
    std::string why;
    States n = model_apply(v.st, o, why);
    if (!n.empty()) v.st = std::move(n[0]);
    else if (o.status == SA_STATUS_OK) {
        // calls overlapped: keep at least the set of handles right
        auto key = [&](uint64_t h) {
            if (h == INVALID_HANDLE) return;
            auto k = std::make_shared<KeyM>();
            k->owner = o.uuid;
            k->known = false;
            k->type = o.type;
            k->rights = o.rights;
            k->size = 16;
            v.st.keys[h] = k;
        };
        if (o.kind >= O_KGEN && o.kind <= O_KEXCH) { key(o.rh); if (o.rh2 != INVALID_HANDLE) key(o.rh2); if (o.rh3 != INVALID_HANDLE) key(o.rh3); }
        if (o.kind == O_KRELEASE) v.st.keys.erase(o.h);
        if (o.kind == O_CREL) v.st.ciphers.erase(o.h);
        if (o.kind == O_MREL) v.st.macs.erase(o.h);
        if (o.kind == O_SREL || o.kind == O_SFREE) v.st.svps.erase(o.h);
        if (o.kind == O_SALLOC) {
            auto s = std::make_shared<SvpM>();
            s->c.assign(o.n, -1);
            s->owner = o.uuid;
            s->mem = o.mem;
            v.st.svps[o.rh] = s;
        }
    }
    if (o.status == SA_STATUS_OK) {
        if (o.kind == O_KRELEASE) kill_handle(v, 0, o.h);
        if (o.kind == O_CREL) kill_handle(v, 1, o.h);
        if (o.kind == O_MREL) kill_handle(v, 2, o.h);
        if (o.kind == O_SREL || o.kind == O_SFREE) kill_handle(v, 3, o.h);
    }
}

std::string Op::str() const {
    char b[256];
    std::string s;
    snprintf(b, sizeof b, "#%llu p%d.%d %s", (unsigned long long) id, proc, fiber, op_names[kind]);
    s = b;
    auto H16 = [&](const char* n, uint64_t h) { if (h != INVALID_HANDLE) { snprintf(b, sizeof b, " %s=%llx", n, (unsigned long long) h); s += b; } };
    H16("h", h);
    H16("h2", h2);
    if (kind == O_CINIT || kind == O_KUNWRAP || kind == O_KDERIVE || kind == O_KEXCH || kind == O_MINIT || kind == O_SIGN) { snprintf(b, sizeof b, " alg=%d", alg); s += b; }
    if (kind == O_CINIT || kind == O_SALLOC) { snprintf(b, sizeof b, " mode=%d", mode); s += b; }
    if (kind == O_KGEN || kind == O_KUNWRAP) { snprintf(b, sizeof b, " type=%d", type); s += b; }
    if (kind == O_KIMPORT) { snprintf(b, sizeof b, " fmt=%d", fmt); s += b; }
    if (kind == O_KPROV) { snprintf(b, sizeof b, " ta=%d+%llu second[%zu] null=%d params=%d", type, (unsigned long long) n3, p4.size(), nullout ? (int) (cap % 6) : -1, pre); s += b; }
    if (curve) { snprintf(b, sizeof b, " curve=%d", curve); s += b; }
    if (rights.usage_flags) { snprintf(b, sizeof b, " usage=%llx/%llx", (unsigned long long) rights.usage_flags, (unsigned long long) rights.child_usage_flags); s += b; }
    if (n || n2) { snprintf(b, sizeof b, " n=%llu,%llu", (unsigned long long) n, (unsigned long long) n2); s += b; }
    if (!in.empty()) { snprintf(b, sizeof b, " in[%zu]", in.size()); s += b; }
    if (G.verbose && kind == O_KIMPORT && fmt >= SA_KEY_FORMAT_SOC) s += " <" + std::string(in.begin(), in.end()) + ">";
    auto BD = [&](const char* nm, const BufD& d) {
        if (d.null) snprintf(b, sizeof b, " %s=null", nm);
        else if (d.type == SA_BUFFER_TYPE_SVP) snprintf(b, sizeof b, " %s=svp%s:%llx+%zu", nm, d.odd ? "?" : "", (unsigned long long) d.h, d.off);
        else snprintf(b, sizeof b, " %s=clear%s[%zu]+%zu", nm, d.odd ? "?" : "", d.len, d.off);
        s += b;
    };
    if (kind == O_CPROC || kind == O_CLAST) { BD("in", bi); BD("out", bo); snprintf(b, sizeof b, " tag[%zu]", p1.size()); s += b; }
    if (kind == O_SKCHECK) BD("in", bi);
    for (auto& f : offs) { snprintf(b, sizeof b, " {out %zu in %zu len %zu}", f.out_offset, f.in_offset, f.length); s += b; }
    for (auto& d : samples) {
        snprintf(b, sizeof b, " {ctx %llx %zu/%zu", (unsigned long long) d.ctx, d.crypt, d.skip);
        s += b;
        for (auto& x : d.subs) { snprintf(b, sizeof b, " %zu+%zu", x.bytes_of_clear_data, x.bytes_of_protected_data); s += b; }
        BD("in", d.in);
        BD("out", d.out);
        s += "}";
    }
    if (finished) {
        snprintf(b, sizeof b, " -> %d", status);
        s += b;
        H16("", rh);
        H16("", rh2);
        if (olen) { snprintf(b, sizeof b, " len=%llu", (unsigned long long) olen); s += b; }
        if (faults) { snprintf(b, sizeof b, " faults=%u(%x)", faults, fault_mask); s += b; }
        if (lenient) s += " (overlapped the end of its session)";
    }
    return s;
}

void feature(uint64_t h) {
    Shared* s = G.sh;
    for (uint32_t i = 0; i < s->nfeat; i++) if (s->feat[i] == h) return;
    if (s->nfeat < sizeof s->feat / sizeof *s->feat) s->feat[s->nfeat++] = h;
}

void exec_op(Op& o) {
    Fiber* f = G.cur;
    OpCtx c;
    OpCtx* outer = f->op;
    if (!o.id) o.id = G.next_op++;
    o.fiber = f->id;
    o.life = V[o.proc].life;
    o.uuid = f->alt ? f->alt_uuid : proc_uuid(o.proc);
    c.id = o.id;
    c.fiber = f->id;
    c.index = o.index;
    c.secret_rng = !raw_active(f->id) && o.kind == O_KGEN && o.type == SA_KEY_TYPE_SYMMETRIC;
    c.digest_mac = o.kind == O_KEXCH;
    c.wraps = !raw_active(f->id) && (o.kind == O_KGEN || o.kind == O_KIMPORT || o.kind == O_KUNWRAP || o.kind == O_KDERIVE || o.kind == O_KEXCH || o.kind == O_KEXPORT);
    register_secrets(o);
    stack_scrub();
    Bufs m;
    f->op = &c;
    c.active = true;
    running.push_back(&o);
    o.env_lo = G.env.size() - 1;
    o.t0 = ++G.stamp;
    sched_yield_point();
    note("%s", o.str().c_str());
    sa_status st = call(o, m);
    c.active = false;
    running.erase(std::find(running.begin(), running.end(), &o));
    o.t1 = ++G.stamp;
    o.env_hi = G.env.size() - 1;
    o.status = st;
    o.finished = true;
    o.faults = c.faults;
    o.fault_mask = c.fault_mask;
    o.rng = std::move(c.rng);
    if (!V[o.proc].open) o.lenient = true;
    sa_uuid own = proc_uuid(o.proc);
    o.foreign = memcmp(&o.uuid, &own, sizeof own) != 0;
    NoPreempt np;
    m.check(o);
    if (o.kind == O_SREL && st == SA_STATUS_OK && o.mem) {
        c.active = false;
        c.id = 0;
        api[o.proc].sa_svp_memory_free(o.mem);
    }
    f->op = outer;
    if (G.scan) {
        for (auto& b : m.out) {
            size_t w = 0;
            if (secret_scan(b->p, b->n, &w, false))
                violation("secret:output", "%s put clear key bytes into caller memory (status %d, offset %zu)", op_names[o.kind], st, w);
        }
    }
    if (c.wraps && o.kind == O_KEXPORT && st == SA_STATUS_OK && !o.nullout) {
        // an exported container is wrapped with bytes of its own
        bool fresh = false;
        for (auto& b : o.rng)
            if (b.size() >= 12 && b.size() <= o.out.size() && std::search(o.out.begin(), o.out.end(), b.begin(), b.end()) != o.out.end()) fresh = true;
        if (!fresh) violation("random:wrap", "key_export: the container holds no bytes taken from the entropy source for it");
    }
    note("   %s", o.str().c_str());
    G.sh->ops++;
    if (o.faults) G.sh->ops_faulted++;
    if (st == SA_STATUS_OK) G.sh->ops_ok++;
    else G.sh->ops_refused++;
    feature(hcomb(hcomb(o.kind, o.alg), hcomb(hcomb(o.fmt, o.status), (uint64_t) o.fault_mask)));
    for (auto* x : running) feature(hcomb(hcomb(o.kind, x->kind), hcomb(o.status, (x->h == o.h) * 2 + (x->proc == o.proc) + 77)));
    uint64_t hh = hcomb(hcomb(o.kind, o.status), hcomb(fnv(o.out), hcomb(o.olen, o.t0 * 7919 + o.t1)));
    G.sh->hist_hash = hcomb(G.sh->hist_hash, hh);
    if (o.kind == O_KEXPORT && st == SA_STATUS_OK && !o.nullout) W.all_blobs.insert(o.out);
    update_view(o);
    H.push_back(o);
    op_progress();
}

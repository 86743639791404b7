#include "world.h"
#include <dlfcn.h>
#include <openssl/bn.h>
#include <openssl/core_names.h>
#include <openssl/dh.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/err.h>
#include <openssl/hmac.h>
#include <openssl/param_build.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>

Api api[NPROC];
void api_load() {
    for (int k = 0; k < NPROC; k++) {
#define X(n)                                                                             \
    api[k].n = (decltype(&::n)) dlsym(lib_client[k], #n);                                \
    if (!api[k].n) internal_error("client library lacks %s", #n);
        API_LIST(X)
#undef X
    }
}

std::string hex(const Bytes& b, size_t max) {
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")";
    return s;
}
Bytes hexb(const char* s) {
    Bytes r;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (; s[0] && s[1]; s += 2) r.push_back((uint8_t) (v(s[0]) * 16 + v(s[1])));
    return r;
}

const EVP_MD* r_md(int d) {
    switch (d) {
        case SA_DIGEST_ALGORITHM_SHA1: return EVP_sha1();
        case SA_DIGEST_ALGORITHM_SHA256: return EVP_sha256();
        case SA_DIGEST_ALGORITHM_SHA384: return EVP_sha384();
        case SA_DIGEST_ALGORITHM_SHA512: return EVP_sha512();
    }
    return nullptr;
}
size_t r_dlen(int d) { return r_md(d) ? (size_t) EVP_MD_size(r_md(d)) : 0; }
Bytes r_digest(int dig, const Bytes& d) {
    Bytes o(r_dlen(dig));
    unsigned n = 0;
    EVP_Digest(d.data(), d.size(), o.data(), &n, r_md(dig), nullptr);
    return o;
}
Bytes r_hmac(int dig, const Bytes& key, const Bytes& d) {
    Bytes o(r_dlen(dig));
    unsigned n = 0;
    static const uint8_t z[1] = {0};
    HMAC(r_md(dig), key.empty() ? z : key.data(), (int) key.size(), d.empty() ? z : d.data(), d.size(), o.data(), &n);
    return o;
}
Bytes r_crypt(const EVP_CIPHER* c, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in) {
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    Bytes o(in.size() + 64);
    int n = 0, m = 0;
    EVP_CipherInit_ex(x, c, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc);
    EVP_CIPHER_CTX_set_padding(x, 0);
    if (!in.empty()) EVP_CipherUpdate(x, o.data(), &n, in.data(), (int) in.size());
    (void) m;
    EVP_CIPHER_CTX_free(x);
    o.resize(n);
    return o;
}
Bytes r_aes(const char* mode, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in) {
    bool big = key.size() == 32;
    const EVP_CIPHER* c = !strcmp(mode, "ecb") ? (big ? EVP_aes_256_ecb() : EVP_aes_128_ecb())
            : !strcmp(mode, "cbc")             ? (big ? EVP_aes_256_cbc() : EVP_aes_128_cbc())
                                               : (big ? EVP_aes_256_ctr() : EVP_aes_128_ctr());
    return r_crypt(c, enc, key, iv, in);
}
// one CBC-MAC pass with the subkeys, written out: independent of the MAC implementation under test
Bytes r_cmac(const Bytes& key, const Bytes& d) {
    auto dbl = [](Bytes b) {
        int c = b[0] >> 7;
        for (int i = 0; i < 16; i++) b[i] = (uint8_t) (b[i] << 1 | (i < 15 ? b[i + 1] >> 7 : 0));
        if (c) b[15] ^= 0x87;
        return b;
    };
    Bytes L = r_aes("ecb", true, key, {}, Bytes(16, 0)), k1 = dbl(L), k2 = dbl(k1), m = d;
    bool full = !m.empty() && m.size() % 16 == 0;
    if (!full) { m.push_back(0x80); while (m.size() % 16) m.push_back(0); }
    for (int i = 0; i < 16; i++) m[m.size() - 16 + i] ^= full ? k1[i] : k2[i];
    Bytes c = r_aes("cbc", true, key, Bytes(16, 0), m);
    return Bytes(c.end() - 16, c.end());
}
Bytes r_aead(bool chacha, bool enc, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes* tag) {
    const EVP_CIPHER* c = chacha ? EVP_chacha20_poly1305() : key.size() == 32 ? EVP_aes_256_gcm() : EVP_aes_128_gcm();
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    auto run = [&](bool e, const Bytes& src, Bytes& dst) {
        int n = 0;
        dst.assign(src.size() + 32, 0);
        EVP_CipherInit_ex(x, c, nullptr, nullptr, nullptr, e);
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, (int) iv.size(), nullptr);
        EVP_CipherInit_ex(x, nullptr, nullptr, key.data(), iv.data(), e);
        if (!aad.empty()) EVP_CipherUpdate(x, nullptr, &n, aad.data(), (int) aad.size());
        n = 0;
        if (!src.empty()) EVP_CipherUpdate(x, dst.data(), &n, src.data(), (int) src.size());
        dst.resize(n);
    };
    Bytes o;
    run(enc, in, o);
    if (tag) {
        Bytes ct;
        run(true, enc ? in : o, ct);
        uint8_t dummy[32];
        int n = 0;
        EVP_CipherFinal_ex(x, dummy, &n);
        tag->assign(16, 0);
        EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, tag->data());
    }
    EVP_CIPHER_CTX_free(x);
    return o;
}
Bytes r_pad(const Bytes& d) {
    Bytes o = d;
    uint8_t p = (uint8_t) (16 - d.size() % 16);
    o.insert(o.end(), p, p);
    return o;
}
bool r_unpad(const Bytes& d, Bytes& out) {
    if (d.empty() || d.size() % 16) return false;
    uint8_t p = d.back();
    if (p < 1 || p > 16) return false;
    for (int i = 0; i < p; i++)
        if (d[d.size() - 1 - i] != p) return false;
    out.assign(d.begin(), d.end() - p);
    return true;
}
static void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes r_hkdf(int dig, const Bytes& key, const Bytes& salt, const Bytes& info, size_t n) {
    Bytes s = salt;
    if (s.empty()) s = Bytes(r_dlen(dig), 0);
    Bytes prk = r_hmac(dig, s, key), t, o;
    for (uint8_t i = 1; o.size() < n; i++) {
        Bytes m = t;
        app(m, info);
        m.push_back(i);
        t = r_hmac(dig, prk, m);
        app(o, t);
    }
    o.resize(n);
    return o;
}
static Bytes ctr4(uint32_t i) { return {(uint8_t) (i >> 24), (uint8_t) (i >> 16), (uint8_t) (i >> 8), (uint8_t) i}; }
Bytes r_concat(int dig, const Bytes& key, const Bytes& info, size_t n) {
    Bytes o;
    for (uint32_t i = 1; o.size() < n; i++) {
        Bytes m = ctr4(i);
        app(m, key);
        app(m, info);
        app(o, r_digest(dig, m));
    }
    o.resize(n);
    return o;
}
Bytes r_x963(int dig, const Bytes& key, const Bytes& info, size_t n) {
    Bytes o;
    for (uint32_t i = 1; o.size() < n; i++) {
        Bytes m = key;
        app(m, ctr4(i));
        app(m, info);
        app(o, r_digest(dig, m));
    }
    o.resize(n);
    return o;
}
Bytes r_kdf_cmac(const Bytes& key, const Bytes& other, unsigned counter, size_t n) {
    Bytes o;
    for (unsigned i = counter; o.size() < n; i++) {
        Bytes m{(uint8_t) i};
        app(m, other);
        app(o, r_cmac(key, m));
    }
    o.resize(n);
    return o;
}
Bytes r_netflix_wrap(const Bytes& enc, const Bytes& hm) {
    static const Bytes salt = hexb("027617984f6227539a630b897c017d69"), info = hexb("809f82a7addf548d3ea9dd067ff9bb91");
    Bytes m = enc;
    app(m, hm);
    Bytes t = r_hmac(SA_DIGEST_ALGORITHM_SHA256, salt, m);
    Bytes w = r_hmac(SA_DIGEST_ALGORITHM_SHA256, t, info);
    w.resize(16);
    return w;
}

// ------------------------------------------------------------------ asymmetric
Pk pk_wrap(EVP_PKEY* p) { return p ? Pk(p, EVP_PKEY_free) : Pk(); }
static int curve_nid(int c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_NIST_P256: return NID_X9_62_prime256v1;
        case SA_ELLIPTIC_CURVE_NIST_P384: return NID_secp384r1;
        case SA_ELLIPTIC_CURVE_NIST_P521: return NID_secp521r1;
        case SA_ELLIPTIC_CURVE_NIST_P192: return NID_X9_62_prime192v1;
        case SA_ELLIPTIC_CURVE_NIST_P224: return NID_secp224r1;
    }
    return 0;
}
static int curve_raw(int c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_ED25519: return EVP_PKEY_ED25519;
        case SA_ELLIPTIC_CURVE_X25519: return EVP_PKEY_X25519;
        case SA_ELLIPTIC_CURVE_ED448: return EVP_PKEY_ED448;
        case SA_ELLIPTIC_CURVE_X448: return EVP_PKEY_X448;
    }
    return 0;
}
size_t curve_size(int c) {
    switch (c) {
        case SA_ELLIPTIC_CURVE_NIST_P192: return 24;
        case SA_ELLIPTIC_CURVE_NIST_P224: return 28;
        case SA_ELLIPTIC_CURVE_NIST_P256: return 32;
        case SA_ELLIPTIC_CURVE_NIST_P384: return 48;
        case SA_ELLIPTIC_CURVE_NIST_P521: return 66;
        case SA_ELLIPTIC_CURVE_ED25519: case SA_ELLIPTIC_CURVE_X25519: return 32;
        case SA_ELLIPTIC_CURVE_ED448: return 57;
        case SA_ELLIPTIC_CURVE_X448: return 56;
    }
    return 0;
}
bool curve_nist(int c) { return curve_nid(c) != 0; }
bool curve_ed(int c) { return c == SA_ELLIPTIC_CURVE_ED25519 || c == SA_ELLIPTIC_CURVE_ED448; }
bool curve_x(int c) { return c == SA_ELLIPTIC_CURVE_X25519 || c == SA_ELLIPTIC_CURVE_X448; }

Pk pk_ec_private(int curve, const Bytes& priv) {
    if (priv.size() != curve_size(curve)) return {};
    if (!curve_nid(curve)) return pk_wrap(EVP_PKEY_new_raw_private_key(curve_raw(curve), nullptr, priv.data(), priv.size()));
    EC_KEY* k = EC_KEY_new_by_curve_name(curve_nid(curve));
    const EC_GROUP* g = EC_KEY_get0_group(k);
    BIGNUM* d = BN_bin2bn(priv.data(), (int) priv.size(), nullptr);
    Pk r;
    if (!BN_is_zero(d) && BN_cmp(d, EC_GROUP_get0_order(g)) < 0) {
        EC_POINT* q = EC_POINT_new(g);
        EC_POINT_mul(g, q, d, nullptr, nullptr, nullptr);
        EC_KEY_set_private_key(k, d);
        EC_KEY_set_public_key(k, q);
        EC_POINT_free(q);
        EVP_PKEY* p = EVP_PKEY_new();
        EVP_PKEY_set1_EC_KEY(p, k);
        r = pk_wrap(p);
    }
    BN_free(d);
    EC_KEY_free(k);
    ERR_clear_error();
    return r;
}
Bytes pk_ec_raw_private(const Pk& p, int curve) {
    Bytes b(curve_size(curve));
    if (!curve_nid(curve)) {
        size_t n = b.size();
        EVP_PKEY_get_raw_private_key(p.get(), b.data(), &n);
        return b;
    }
    BIGNUM* d = nullptr;
    EVP_PKEY_get_bn_param(p.get(), OSSL_PKEY_PARAM_PRIV_KEY, &d);
    BN_bn2binpad(d, b.data(), (int) b.size());
    BN_free(d);
    return b;
}
Pk pk_generate(const char* what, int param) {
    if (!strcmp(what, "RSA")) return pk_wrap(EVP_PKEY_Q_keygen(nullptr, nullptr, "RSA", (size_t) param));
    if (curve_nid(param)) return pk_wrap(EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", OBJ_nid2sn(curve_nid(param))));
    EVP_PKEY* p = nullptr;
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_id(curve_raw(param), nullptr);
    EVP_PKEY_keygen_init(x);
    EVP_PKEY_keygen(x, &p);
    EVP_PKEY_CTX_free(x);
    return pk_wrap(p);
}
Pk pk_generate_dh(const Bytes& p, const Bytes& g) {
    BIGNUM *bp = BN_bin2bn(p.data(), (int) p.size(), nullptr), *bg = BN_bin2bn(g.data(), (int) g.size(), nullptr);
    OSSL_PARAM_BLD* b = OSSL_PARAM_BLD_new();
    OSSL_PARAM_BLD_push_BN(b, "p", bp);
    OSSL_PARAM_BLD_push_BN(b, "g", bg);
    OSSL_PARAM* ps = OSSL_PARAM_BLD_to_param(b);
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_from_name(nullptr, "DH", nullptr);
    EVP_PKEY *par = nullptr, *out = nullptr;
    EVP_PKEY_fromdata_init(x);
    EVP_PKEY_fromdata(x, &par, EVP_PKEY_KEY_PARAMETERS, ps);
    EVP_PKEY_CTX* y = EVP_PKEY_CTX_new(par, nullptr);
    EVP_PKEY_keygen_init(y);
    EVP_PKEY_generate(y, &out);
    EVP_PKEY_CTX_free(y);
    EVP_PKEY_CTX_free(x);
    EVP_PKEY_free(par);
    OSSL_PARAM_free(ps);
    OSSL_PARAM_BLD_free(b);
    BN_free(bp);
    BN_free(bg);
    return pk_wrap(out);
}
Pk pk_from_spki(const Bytes& der) {
    const uint8_t* p = der.data();
    EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, (long) der.size());
    ERR_clear_error();
    if (k && p != der.data() + der.size()) { EVP_PKEY_free(k); return {}; }
    return pk_wrap(k);
}
Bytes pk_spki(const Pk& k) {
    if (!k) return {};
    uint8_t* o = nullptr;
    int n = i2d_PUBKEY(k.get(), &o);
    Bytes b(o, o + (n > 0 ? n : 0));
    OPENSSL_free(o);
    return b;
}
Bytes pk_pkcs8(const Pk& k) {
    PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(k.get());
    uint8_t* o = nullptr;
    int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o);
    Bytes b(o, o + (n > 0 ? n : 0));
    OPENSSL_free(o);
    PKCS8_PRIV_KEY_INFO_free(i);
    return b;
}
Pk pk_from_pkcs8(const Bytes& b) {
    const uint8_t* p = b.data();
    PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long) b.size());
    if (!i) { ERR_clear_error(); return {}; }
    Pk k = pk_wrap(EVP_PKCS82PKEY(i));
    PKCS8_PRIV_KEY_INFO_free(i);
    ERR_clear_error();
    return k;
}
Pk pk_ec_from_pkcs8(int curve, const Bytes& b) {
    Pk k = pk_from_pkcs8(b);
    if (!k) return {};
    if (!curve_nid(curve)) return EVP_PKEY_base_id(k.get()) == curve_raw(curve) ? k : Pk();
    if (EVP_PKEY_base_id(k.get()) != EVP_PKEY_EC) return {};
    char name[64];
    size_t n = 0;
    if (EVP_PKEY_get_utf8_string_param(k.get(), OSSL_PKEY_PARAM_GROUP_NAME, name, sizeof name, &n) != 1) { ERR_clear_error(); return {}; }
    return OBJ_sn2nid(name) == curve_nid(curve) ? k : Pk();
}
bool pk_same_public(const Pk& a, const Pk& b) { return a && b && EVP_PKEY_eq(a.get(), b.get()) == 1; }
Bytes pk_ecdh(const Pk& priv, const Pk& peer) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(priv.get(), nullptr);
    size_t n = 0;
    Bytes o;
    if (EVP_PKEY_derive_init(x) == 1) {
        if (EVP_PKEY_base_id(priv.get()) == EVP_PKEY_DH) EVP_PKEY_CTX_set_dh_pad(x, 1);
        if (EVP_PKEY_derive_set_peer(x, peer.get()) == 1 && EVP_PKEY_derive(x, nullptr, &n) == 1) {
            o.resize(n);
            if (EVP_PKEY_derive(x, o.data(), &n) != 1) n = 0;
            o.resize(n);
        }
    }
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    return o;
}
static void rsa_params(EVP_PKEY_CTX* x, int alg, int dig, int mgf, const Bytes& label) {
    if (alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
        EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_OAEP_PADDING);
        EVP_PKEY_CTX_set_rsa_oaep_md(x, r_md(dig));
        EVP_PKEY_CTX_set_rsa_mgf1_md(x, r_md(mgf));
        if (!label.empty()) {
            void* l = OPENSSL_memdup(label.data(), label.size());
            EVP_PKEY_CTX_set0_rsa_oaep_label(x, l, (int) label.size());
        }
    } else EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING);
}
Bytes rsa_encrypt(const Pk& k, int alg, int dig, int mgf, const Bytes& label, const Bytes& pt) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(k.get(), nullptr);
    EVP_PKEY_encrypt_init(x);
    rsa_params(x, alg, dig, mgf, label);
    Bytes o(1024);
    size_t n = o.size();
    if (EVP_PKEY_encrypt(x, o.data(), &n, pt.data(), pt.size()) != 1) n = 0;
    o.resize(n);
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    return o;
}
bool rsa_decrypt(const Pk& k, int alg, int dig, int mgf, const Bytes& label, const Bytes& ct, Bytes& out) {
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(k.get(), nullptr);
    EVP_PKEY_decrypt_init(x);
    rsa_params(x, alg, dig, mgf, label);
    out.assign(1024, 0);
    size_t n = out.size();
    bool ok = EVP_PKEY_decrypt(x, out.data(), &n, ct.data(), ct.size()) == 1;
    out.resize(ok ? n : 0);
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    return ok;
}
static EC_POINT* get_pt(const EC_GROUP* g, const uint8_t* b, size_t n) {
    BIGNUM *x = BN_bin2bn(b, (int) n, nullptr), *y = BN_bin2bn(b + n, (int) n, nullptr);
    EC_POINT* p = EC_POINT_new(g);
    if (EC_POINT_set_affine_coordinates(g, p, x, y, nullptr) != 1) { EC_POINT_free(p); p = nullptr; }
    BN_free(x);
    BN_free(y);
    ERR_clear_error();
    return p;
}
static void put_pt(const EC_GROUP* g, const EC_POINT* p, uint8_t* b, size_t n) {
    BIGNUM *x = BN_new(), *y = BN_new();
    EC_POINT_get_affine_coordinates(g, p, x, y, nullptr);
    BN_bn2binpad(x, b, (int) n);
    BN_bn2binpad(y, b + n, (int) n);
    BN_free(x);
    BN_free(y);
}
// ciphertext = C1 || C2 with C1 = kG, C2 = M + kQ; the plaintext is the x coordinate of M
Bytes elgamal_encrypt(const Pk& pub, int curve, const Bytes& pt, Rng& r) {
    size_t n = curve_size(curve);
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(curve));
    Bytes res;
    uint8_t q[256];
    size_t ql = 0;
    BIGNUM* x = BN_bin2bn(pt.data(), (int) pt.size(), nullptr);
    EC_POINT *M = EC_POINT_new(g), *Q = EC_POINT_new(g), *C1 = EC_POINT_new(g), *C2 = EC_POINT_new(g);
    if (EC_POINT_set_compressed_coordinates(g, M, x, (int) r.below(2), nullptr) == 1 &&
            EVP_PKEY_get_octet_string_param(pub.get(), OSSL_PKEY_PARAM_PUB_KEY, q, sizeof q, &ql) == 1 &&
            EC_POINT_oct2point(g, Q, q, ql, nullptr) == 1) {
        Bytes kb = r.bytes(n);
        kb[0] = 0;
        kb[1] |= 1;
        BIGNUM* k = BN_bin2bn(kb.data(), (int) n, nullptr);
        EC_POINT_mul(g, C1, k, nullptr, nullptr, nullptr);
        EC_POINT_mul(g, C2, nullptr, Q, k, nullptr);
        EC_POINT_add(g, C2, C2, M, nullptr);
        res.resize(4 * n);
        put_pt(g, C1, res.data(), n);
        put_pt(g, C2, res.data() + 2 * n, n);
        BN_free(k);
    }
    EC_POINT_free(M);
    EC_POINT_free(Q);
    EC_POINT_free(C1);
    EC_POINT_free(C2);
    BN_free(x);
    EC_GROUP_free(g);
    ERR_clear_error();
    return res;
}
bool elgamal_decrypt(const Bytes& priv, int curve, const Bytes& ct, Bytes& out) {
    size_t n = curve_size(curve);
    if (ct.size() != 4 * n || !curve_nid(curve)) return false;
    EC_GROUP* g = EC_GROUP_new_by_curve_name(curve_nid(curve));
    EC_POINT *C1 = get_pt(g, ct.data(), n), *C2 = get_pt(g, ct.data() + 2 * n, n);
    bool ok = C1 && C2;
    if (ok) {
        BIGNUM* d = BN_bin2bn(priv.data(), (int) priv.size(), nullptr);
        EC_POINT* t = EC_POINT_new(g);
        EC_POINT_mul(g, t, nullptr, C1, d, nullptr);
        EC_POINT_invert(g, t, nullptr);
        EC_POINT_add(g, t, C2, t, nullptr);
        ok = !EC_POINT_is_at_infinity(g, t);
        if (ok) {
            Bytes b(2 * n);
            put_pt(g, t, b.data(), n);
            out.assign(b.begin(), b.begin() + n);
        }
        EC_POINT_free(t);
        BN_free(d);
    }
    EC_POINT_free(C1);
    EC_POINT_free(C2);
    EC_GROUP_free(g);
    ERR_clear_error();
    return ok;
}
bool verify_signature(const Pk& pub, int alg, int curve, int dig, int mgf, size_t salt, bool pre, const Bytes& in, const Bytes& sig) {
    bool ok = false;
    if (alg == SA_SIGNATURE_ALGORITHM_EDDSA) {
        EVP_MD_CTX* m = EVP_MD_CTX_new();
        static const uint8_t z = 0;
        ok = EVP_DigestVerifyInit(m, nullptr, nullptr, nullptr, pub.get()) == 1 &&
             EVP_DigestVerify(m, sig.data(), sig.size(), in.empty() ? &z : in.data(), in.size()) == 1;
        EVP_MD_CTX_free(m);
        ERR_clear_error();
        return ok;
    }
    Bytes h = pre ? in : r_digest(dig, in);
    if (alg == SA_SIGNATURE_ALGORITHM_ECDSA) {
        size_t n = curve_size(curve);
        if (sig.size() != 2 * n) return false;
        ECDSA_SIG* s = ECDSA_SIG_new();
        ECDSA_SIG_set0(s, BN_bin2bn(sig.data(), (int) n, nullptr), BN_bin2bn(sig.data() + n, (int) n, nullptr));
        uint8_t* der = nullptr;
        int dl = i2d_ECDSA_SIG(s, &der);
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(pub.get(), nullptr);
        ok = EVP_PKEY_verify_init(x) == 1 && EVP_PKEY_verify(x, der, dl, h.data(), h.size()) == 1;
        EVP_PKEY_CTX_free(x);
        OPENSSL_free(der);
        ECDSA_SIG_free(s);
        ERR_clear_error();
        return ok;
    }
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(pub.get(), nullptr);
    ok = EVP_PKEY_verify_init(x) == 1;
    if (ok && alg == SA_SIGNATURE_ALGORITHM_RSA_PSS) {
        ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PSS_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, r_md(dig)) == 1 &&
             EVP_PKEY_CTX_set_rsa_mgf1_md(x, r_md(mgf)) == 1 && EVP_PKEY_CTX_set_rsa_pss_saltlen(x, (int) salt) == 1;
    } else if (ok) {
        ok = EVP_PKEY_CTX_set_rsa_padding(x, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(x, r_md(dig)) == 1;
    }
    ok = ok && EVP_PKEY_verify(x, sig.data(), sig.size(), h.data(), h.size()) == 1;
    EVP_PKEY_CTX_free(x);
    ERR_clear_error();
    return ok;
}

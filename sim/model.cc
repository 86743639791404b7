// The sequential meaning of the API: which results a call may have in a given state of its session.
#include "world.h"
#include <openssl/err.h>
#include <algorithm>

World W;
const char* const op_names[O_MAX] = {"none", "key_generate", "key_import", "key_unwrap", "key_derive", "key_exchange",
        "key_export", "key_header", "key_digest", "key_get_public", "key_release", "cipher_init", "cipher_update_iv",
        "cipher_process", "cipher_process_last", "cipher_release", "mac_init", "mac_process", "mac_process_key",
        "mac_compute", "mac_release", "sign", "random", "svp_create", "svp_write", "svp_copy", "svp_key_check",
        "svp_check", "svp_release", "svp_free", "common_encryption", "info", "provision", "observe_svp"};

static std::string fmtv(const char* f, ...) {
    char b[400];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

uint64_t KeyM::hash() const { return hcomb(hcomb(uid, fnv(val)), fnv(Bytes((const uint8_t*) &rights, (const uint8_t*) &rights + sizeof rights))); }
// contents, not only which calls made them: the same calls in another order leave other contents
static uint64_t chash(const CipM& c) {
    return hcomb(hcomb(hcomb(c.uid, c.key ? c.key->hash() : 0), hcomb(fnv(c.data), fnv(c.iv))), c.produced * 8 + c.undef * 4 + c.done * 2 + c.unk);
}
static uint64_t mhash(const MacM& c) { return hcomb(hcomb(hcomb(c.uid, c.key ? c.key->hash() : 0), fnv(c.data)), c.unk * 4 + c.done * 2 + c.undef); }
uint64_t State::hash() const {
    uint64_t h = 7;
    for (auto& k : keys) h = hcomb(h, hcomb(k.first, k.second->hash()));
    for (auto& k : ciphers) h = hcomb(h, hcomb(k.first + 1, chash(*k.second)));
    for (auto& k : macs) h = hcomb(h, hcomb(k.first + 2, mhash(*k.second)));
    for (auto& k : svps) h = hcomb(h, hcomb(k.first + 3, hcomb(k.second->uid, k.second->ver)));
    for (auto& b : *blobs) h += hcomb(b.second.id, b.second.key->hash());
    h = hcomb(h, dev_seen ? dev : 1);
    return h;
}

bool env_ok_time(const sa_rights& r, const Env& e) {
    return (uint64_t) e.time >= r.not_before && (uint64_t) e.time < r.not_on_or_after;
}

bool env_ok_video(const sa_rights& r, const Env& e) {
    uint64_t u = r.usage_flags;
    if (!(u & BIT(SA_USAGE_FLAG_SVP_OPTIONAL)) && !e.svp) return false;
    if (!(u & BIT(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED)) && e.analog_unprotected) return false;
    if (!(u & BIT(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA)) && e.analog_cgmsa) return false;
    if (!(u & BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED)) && e.digital_unprotected) return false;
    if (!(u & BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14)) && e.hdcp14) return false;
    if (!(u & BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22)) && e.hdcp22) return false;
    return true;
}

struct Chk {
    bool can = true, must = true;
    bool deny = false;         // refused for who asks or what the key permits, before any data is touched
    std::string why;           // why it may not succeed
    std::string soft;          // why it need not succeed
    void no(const std::string& w) { if (can) why = w; can = must = false; }
    void maybe(const char* w) { if (must) soft = w; must = false; }
    void need(bool c, const char* w) { if (!c) no(w); }
    void denied(const std::string& w) { no(w); deny = true; }
};

static bool same(const sa_uuid& a, const sa_uuid& b) { return !memcmp(&a, &b, sizeof a); }
static bool allowed_ta(const sa_rights& r, const sa_uuid& u) {
    static const uint8_t zero[16] = {0};
    uint8_t ff[16];
    memset(ff, 0xff, 16);
    for (auto& a : r.allowed_tas) {
        if (!memcmp(&a, zero, 16)) continue;
        if (!memcmp(&a, ff, 16) || same(a, u)) return true;
    }
    return false;
}
static bool is_ree(const sa_uuid& u) {
    for (int i = 0; i < 15; i++) if (u.id[i]) return false;
    return u.id[15] == 1;
}
static void window(Chk& c, const Op& o, const sa_rights& r, bool time, bool video) {
    bool ts = false, ta = true, vs = false, va = true;
    for (unsigned i = o.env_lo; i <= o.env_hi && i < G.env.size(); i++) {
        bool t = env_ok_time(r, G.env[i]), v = env_ok_video(r, G.env[i]);
        ts |= t;
        ta &= t;
        vs |= v;
        va &= v;
    }
    if (time) {
        if (!ts) c.denied("the key's validity window does not include the time of use");
        else if (!ta) c.maybe("validity changed during the call");
    }
    if (video) {
        if (!vs) c.denied("the key's output protection does not allow the current outputs");
        else if (!va) c.maybe("outputs changed during the call");
    }
}
// a use of a key through its handle; every such use needs identity, validity and outputs
static KeyP use_key(Chk& c, const State& s, const Op& o, uint64_t h, int usage, const char* uname) {
    auto it = s.keys.find(h);
    if (it == s.keys.end()) { c.denied("the key handle is not valid in this session"); return nullptr; }
    KeyP k = it->second;
    if (!same(k->owner, o.uuid)) { c.denied("the key belongs to another caller identity"); return nullptr; }
    if (!allowed_ta(k->rights, o.uuid)) c.denied("the key's rights do not name the calling TA");
    window(c, o, k->rights, true, true);
    if (usage >= 0 && !(k->rights.usage_flags & BIT(usage))) c.denied(std::string("the key's usage flags do not allow ") + uname);
    if (usage >= 0 && !k->size) c.maybe("the size of the key is not known yet");
    return k;
}
static KeyP own_key(Chk& c, const State& s, const Op& o, uint64_t h) {
    auto it = s.keys.find(h);
    if (it == s.keys.end()) { c.denied("the key handle is not valid in this session"); return nullptr; }
    if (!same(it->second->owner, o.uuid)) { c.denied("the key belongs to another caller identity"); return nullptr; }
    return it->second;
}
static CipP own_cipher(Chk& c, const State& s, const Op& o, uint64_t h) {
    auto it = s.ciphers.find(h);
    if (it == s.ciphers.end()) { c.denied("the cipher context handle is not valid in this session"); return nullptr; }
    if (!same(it->second->owner, o.uuid)) { c.denied("the cipher context belongs to another caller identity"); return nullptr; }
    return it->second;
}
static MacP own_mac(Chk& c, const State& s, const Op& o, uint64_t h) {
    auto it = s.macs.find(h);
    if (it == s.macs.end()) { c.denied("the MAC context handle is not valid in this session"); return nullptr; }
    if (!same(it->second->owner, o.uuid)) { c.denied("the MAC context belongs to another caller identity"); return nullptr; }
    return it->second;
}
static SvpP own_svp(Chk& c, const State& s, const Op& o, uint64_t h) {
    auto it = s.svps.find(h);
    if (it == s.svps.end()) { c.denied("the SVP buffer handle is not valid in this session"); return nullptr; }
    if (!same(it->second->owner, o.uuid)) { c.denied("the SVP buffer belongs to another caller identity"); return nullptr; }
    return it->second;
}

static void restrict_rights(sa_rights& r, const sa_rights& parent) {
    const uint64_t outp = SA_USAGE_OUTPUT_PROTECTIONS_MASK, usage = SA_KEY_USAGE_MASK;
    uint64_t other_use = usage & ~BIT(SA_USAGE_FLAG_UNWRAP);
    if ((parent.usage_flags & other_use) || parent.child_usage_flags == 0) r.usage_flags &= ~(outp & ~parent.usage_flags);
    else r.usage_flags &= ~(usage & ~parent.child_usage_flags);
}
static bool sym_ok(size_t n) { return n >= 16 && n <= 512; }
// size 0: not yet known
static bool aes_key(const KeyP& k) { return k->type == SA_KEY_TYPE_SYMMETRIC && (!k->size || k->size == 16 || k->size == 32); }
static bool chacha_key(const KeyP& k) { return k->type == SA_KEY_TYPE_SYMMETRIC && (!k->size || k->size == 32); }
static bool hmac_key(const KeyP& k) { return k->type == SA_KEY_TYPE_SYMMETRIC && (!k->size || sym_ok(k->size)); }

// ---- SVP contents
static bool range_ok(size_t off, size_t n, size_t size) { return off <= size && n <= size - off; }
static void svp_store(State& s, uint64_t h, size_t off, const std::vector<int16_t>& d, uint64_t id) {
    auto n = std::make_shared<SvpM>(*s.svps[h]);
    n->by.resize(n->c.size());
    for (size_t i = 0; i < d.size() && off + i < n->c.size(); i++) { n->c[off + i] = d[i]; n->by[off + i] = (uint32_t) id; }
    n->ver = Rng::mix(id);
    if (n->c.size()) n->ver = hcomb(n->ver, fnv(&n->c[0], n->c.size() * sizeof(int16_t)));
    s.svps[h] = n;
}
static std::vector<int16_t> wide(const Bytes& b) { return std::vector<int16_t>(b.begin(), b.end()); }
static bool narrow(const std::vector<int16_t>& v, Bytes& b) {
    b.clear();
    bool ok = true;
    for (auto x : v) { b.push_back((uint8_t) x); if (x < 0) ok = false; }
    return ok;
}
static std::string differ(const Bytes& got, const Bytes& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    return fmtv("got %s want %s (first difference at byte %zu)", hex(got).c_str(), hex(want).c_str(), i);
}

static Bytes sub(const Bytes& b, size_t off, size_t n) {
    if (off > b.size()) return {};
    return Bytes(b.begin() + off, b.begin() + std::min(b.size(), off + n));
}

// the result of a cipher over all data processed so far, without final padding/tag handling
static Bytes stream(const CipM& c) {
    bool enc = c.mode == SA_CIPHER_MODE_ENCRYPT;
    const Bytes& k = c.key->val;
    switch (c.alg) {
        case SA_CIPHER_ALGORITHM_AES_ECB: case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: return r_aes("ecb", enc, k, {}, c.data);
        case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: return r_aes("cbc", enc, k, c.iv, c.data);
        case SA_CIPHER_ALGORITHM_AES_CTR: return r_aes("ctr", enc, k, c.iv, c.data);
        case SA_CIPHER_ALGORITHM_CHACHA20: return r_crypt(EVP_chacha20(), enc, k, c.iv, c.data);
        case SA_CIPHER_ALGORITHM_AES_GCM: return r_aead(false, enc, k, c.iv, c.aad, c.data, nullptr);
        case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: return r_aead(true, enc, k, c.iv, c.aad, c.data, nullptr);
    }
    return {};
}
static bool is_pkcs7(int a) { return a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7; }
static bool is_aead(int a) { return a == SA_CIPHER_ALGORITHM_AES_GCM || a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305; }
static bool is_pk(int a) {
    return a == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || a == SA_CIPHER_ALGORITHM_RSA_OAEP || a == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
}
static bool is_block(int a) { return a == SA_CIPHER_ALGORITHM_AES_ECB || a == SA_CIPHER_ALGORITHM_AES_CBC || is_pkcs7(a); }

// decryption with an asymmetric key: 1 plaintext known, 0 must fail, -1 cannot tell
static int pk_decrypt(const KeyP& k, int alg, int dig, int mgf, const Bytes& label, const Bytes& ct, Bytes& pt) {
    if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        if (k->known) {
            if (!k->priv || !elgamal_decrypt(pk_ec_raw_private(k->priv, k->curve), k->curve, ct, pt)) return 0;
            return 1;
        }
    } else if (k->known && k->priv) {
        bool ok = rsa_decrypt(k->priv, alg, dig, mgf, label, ct, pt);
        if (alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15) {
            // OpenSSL may return pseudo-random plaintext for bad padding (implicit rejection): only a known plaintext counts
            auto it = W.asym.find(ct);
            if (it == W.asym.end()) return -1;
            return ok && pt == it->second.second[1] ? 1 : -1;
        }
        return ok ? 1 : 0;
    }
    auto it = W.asym.find(ct);
    if (it != W.asym.end() && k->pub && it->second.first == pk_spki(k->pub)) {
        Bytes par{(uint8_t) alg, (uint8_t) dig, (uint8_t) mgf};
        par.insert(par.end(), label.begin(), label.end());
        if (par == it->second.second[0]) { pt = it->second.second[1]; return 1; }
    }
    return -1;
}

// ------------------------------------------------------------------ per-operation meaning
struct Ap {
    const State& s;
    const Op& o;
    std::string& why;
    States out;
    Chk c;
    bool ok;                         // reported success
    bool excused;                    // may fail without a reason in the specification

    Ap(const State& s_, const Op& o_, std::string& w) : s(s_), o(o_), why(w) {
        ok = o.status == SA_STATUS_OK;
        excused = o.faults > 0 || o.lenient || o.foreign;
    }
    bool bad(const std::string& w) { why = w; return false; }
    // decides on the status; true: success to be modelled further
    bool verdict() {
        if (ok) {
            if (!c.can) { why = "succeeded although " + c.why; return false; }
            return true;
        }
        if (c.must && !excused) {
            why = fmtv("refused (status %d) although it is valid", o.status);
            return false;
        }
        if (c.deny && o.touched) { why = fmtv("refused (status %d), but wrote to its output, although ", o.status) + c.why; return false; }
        out.push_back(s);            // refused: nothing changed
        return false;
    }
    // a call on its way may hold up to four slots for a while
    bool capacity(int store, size_t n) { return W.slots[store] ? n + 4 * o.overlap < W.slots[store] : n < 250; }

    void new_key(State& t, uint64_t h, std::shared_ptr<KeyM> k) {
        k->owner = o.uuid;
        t.keys[h] = k;
    }
    bool fresh(const std::map<uint64_t, KeyP>& m, uint64_t h) {
        if (h == INVALID_HANDLE) return bad("succeeded with an invalid handle");
        if (m.count(h)) return bad("returned a handle that is already in use");
        return true;
    }
    // handle outputs of a failed creation
    bool no_handle() {
        if (ok) return true;
        if (o.rh != INVALID_HANDLE) return bad("failed but left a handle in its output");
        return true;
    }

    std::shared_ptr<KeyM> sym(const Bytes& v, const sa_rights& r) {
        auto k = std::make_shared<KeyM>();
        k->type = SA_KEY_TYPE_SYMMETRIC;
        k->rights = r;
        k->size = v.size();
        k->val = v;
        k->uid = o.id * 4;
        return k;
    }

    void kgen() {
        if (!capacity(0, s.keys.size())) c.maybe("store nearly full");
        switch (o.type) {
            case SA_KEY_TYPE_SYMMETRIC: c.need(sym_ok(o.n), "the key length is not supported"); break;
            case SA_KEY_TYPE_EC: c.need(curve_size(o.curve), "the curve is unknown"); break;
            case SA_KEY_TYPE_RSA: c.need(o.n == 128 || o.n == 256 || o.n == 384 || o.n == 512, "the modulus size is not supported"); break;
            case SA_KEY_TYPE_DH: c.maybe("DH parameters"); break;
            default: c.no("the key type is unknown");
        }
        if (!no_handle()) return;
        if (!verdict()) return;
        if (!fresh(s.keys, o.rh)) return;
        auto put = [&](std::shared_ptr<KeyM> k) {
            State t = s;
            new_key(t, o.rh, k);
            out.push_back(std::move(t));
        };
        if (o.type == SA_KEY_TYPE_SYMMETRIC) {
            std::set<Bytes> seen;
            for (size_t i = 0; i < o.rng.size(); i++) {
                Bytes acc;
                for (size_t j = i; j < o.rng.size() && acc.size() < o.n; j++) {
                    acc.insert(acc.end(), o.rng[j].begin(), o.rng[j].end());
                    if (acc.size() == o.n && seen.insert(acc).second) put(sym(acc, o.rights));
                }
            }
            if (out.empty()) why = "generated a key without taking that many bytes from the entropy source";
            return;
        }
        auto k = std::make_shared<KeyM>();
        k->type = o.type;
        k->rights = o.rights;
        k->known = false;
        k->uid = o.id * 4;
        if (o.type == SA_KEY_TYPE_EC) { k->curve = o.curve; k->size = curve_size(o.curve); }
        else if (o.type == SA_KEY_TYPE_RSA) k->size = o.n;
        else { k->p = o.p1; k->g = o.p2; k->size = o.p1.size(); }
        put(k);
    }

    void kimport() {
        if (!capacity(0, s.keys.size())) c.maybe("store nearly full");
        std::shared_ptr<KeyM> k;
        switch (o.fmt) {
            case SA_KEY_FORMAT_SYMMETRIC_BYTES:
                c.need(sym_ok(o.in.size()), "the key length is not supported");
                k = sym(o.in, o.rights);
                break;
            case SA_KEY_FORMAT_EC_PRIVATE_BYTES: {
                c.need(curve_size(o.curve), "the curve is unknown");
                k = std::make_shared<KeyM>();
                k->type = SA_KEY_TYPE_EC;
                k->curve = o.curve;
                k->size = curve_size(o.curve);
                k->val = o.in;
                if (c.can) {
                    k->priv = k->pub = pk_ec_from_pkcs8(o.curve, o.in);
                    if (!k->priv) c.no("the input is not a private key of that curve");
                }
                break;
            }
            case SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO: {
                k = std::make_shared<KeyM>();
                k->type = SA_KEY_TYPE_RSA;
                k->val = o.in;
                k->priv = k->pub = pk_from_pkcs8(o.in);
                if (!k->priv || EVP_PKEY_base_id(k->priv.get()) != EVP_PKEY_RSA) { c.no("the input is not an RSA private key"); break; }
                k->size = (size_t) EVP_PKEY_size(k->priv.get());
                break;
            }
            case SA_KEY_FORMAT_EXPORTED: {
                const Blob* b = nullptr;
                auto it = s.blobs->find(o.in);
                if (it != s.blobs->end()) b = &it->second;
                else {
                    auto j = W.blobs.find(o.in);
                    if (j != W.blobs.end()) b = &j->second;
                }
                if (!b) {
                    if (W.all_blobs.count(o.in)) { c.maybe("container of a concurrent session"); if (!no_handle()) return; if (verdict()) out.push_back(s); return; }
                    c.no("the container is not one the TA produced");
                } else k = std::make_shared<KeyM>(*b->key);
                break;
            }
            case SA_KEY_FORMAT_TYPEJ: case SA_KEY_FORMAT_SOC: {
                auto it = W.sealed.find(o.in);
                auto al = W.sealed_alike.find(o.in);
                if (it == W.sealed.end() && al != W.sealed_alike.end()) {
                    c.maybe("the container was altered where it may not matter");
                    k = std::make_shared<KeyM>(*al->second);
                } else if (it == W.sealed.end()) c.no("the container was not produced by its issuer");
                else k = std::make_shared<KeyM>(*it->second);
                if (o.fmt == SA_KEY_FORMAT_TYPEJ) {
                    KeyP kc = use_key(c, s, o, o.h, SA_USAGE_FLAG_UNWRAP, "unwrap");
                    KeyP kh = use_key(c, s, o, o.h2, SA_USAGE_FLAG_SIGN, "sign");
                    if (kc && !aes_key(kc)) c.no("the Type-J cipher key is not an AES key");
                    if (kh && !hmac_key(kh)) c.no("the Type-J HMAC key is not symmetric");
                    if (c.can && kh->known && kh->val != o.p2) c.no("the container was made for another HMAC key");
                    if (c.can && !kh->known) c.maybe("the HMAC key is unknown");
                    if (c.can && k && kc->known && kc->val != o.p1) {      // the cipher key is not authenticated: only padding can tell
                        auto ci = W.sealed_ct.find(o.in);
                        Bytes v;
                        if (ci == W.sealed_ct.end()) { c.maybe("the cipher key is another"); k->known = false; }
                        else {
                            v = r_aes(ci->second.mode & 2 ? "cbc" : "ecb", false, kc->val, ci->second.iv, ci->second.ct);
                            if (ci->second.mode & 1) { Bytes u; if (r_unpad(v, u)) v = u; else v.clear(); }
                            if (v.size() != k->val.size()) c.no("the container was made for another cipher key");
                            else k->val = v;
                        }
                    } else if (c.can && k && !kc->known) { c.maybe("the cipher key is unknown"); k->known = false; }
                    if (k && kc) restrict_rights(k->rights, kc->rights);
                } else if (o.pre && (o.null1 || (o.n2 != 2 && o.n2 != 3))) c.no("the import parameters are not of a known version");
                else if (k && o.pre) {
                    // SoC import parameters: the object id becomes the start of the rights id
                    for (int i = 0; i < 8; i++) k->rights.id[i] = (char) (o.n >> (56 - 8 * i));
                }
                break;
            }
            default: c.no("the key format is unknown");
        }
        if (!no_handle()) return;
        if (!verdict()) return;
        if (!fresh(s.keys, o.rh)) return;
        k->uid = o.id * 4;
        if (o.fmt <= SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO) k->rights = o.rights;
        State t = s;
        new_key(t, o.rh, k);
        out.push_back(std::move(t));
    }

    // hands a protected key to another trusted application; nothing of it stays in the session
    void kprov() {
        if (!capacity(0, s.keys.size())) c.maybe("store nearly full");
        if (o.nullout || !o.pre) c.no("an argument is null");
        if (o.type != WIDEVINE_OEM_PROVISIONING && o.type != PLAYREADY_MODEL_PROVISIONING && o.type != NETFLIX_PROVISIONING) c.no("the kind of key is not supported");
        if (o.n3) c.no("the length of the object is not that of its kind");
        if (o.null1 || (o.n2 != 2 && o.n2 != 3)) c.no("the import parameters are not of a known version");
        auto one = [&](const Bytes& b) {
            if (W.sealed.count(b)) return;
            if (W.sealed_alike.count(b)) c.maybe("the container was altered where it may not matter");
            else c.no("the container was not produced by its issuer");
        };
        one(o.in);
        if (o.type == NETFLIX_PROVISIONING) one(o.p4);
        if (verdict()) out.push_back(s);
    }

    // decrypts a wrapped key; 1 ok, 0 must be refused, -1 unknown value
    int unwrapped(const KeyP& p, Bytes& v) {
        int a = o.alg;
        switch (a) {
            case SA_CIPHER_ALGORITHM_AES_ECB: case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7:
            case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: {
                if (!aes_key(p)) { c.no("the wrapping key is not an AES key"); return 0; }
                bool cbc = a == SA_CIPHER_ALGORITHM_AES_CBC || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
                if (cbc && o.p1.size() != 16) { c.no("the IV length is wrong"); return 0; }
                if (o.in.size() % 16) { c.no("the wrapped key is not whole blocks"); return 0; }
                if (!p->known) { c.maybe("the wrapping key is unknown"); return -1; }
                v = r_aes(cbc ? "cbc" : "ecb", false, p->val, o.p1, o.in);
                if (is_pkcs7(a)) { Bytes u; if (!r_unpad(v, u)) { c.no("the padding is wrong"); return 0; } v = u; }
                return 1;
            }
            case SA_CIPHER_ALGORITHM_AES_CTR:
                if (!aes_key(p)) { c.no("the wrapping key is not an AES key"); return 0; }
                if (o.p1.size() != 16) { c.no("the counter length is wrong"); return 0; }
                if (!p->known) { c.maybe("the wrapping key is unknown"); return -1; }
                v = r_aes("ctr", false, p->val, o.p1, o.in);
                return 1;
            case SA_CIPHER_ALGORITHM_AES_GCM: case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305: {
                bool cc = a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
                if (cc ? !chacha_key(p) : !aes_key(p)) { c.no("the wrapping key has the wrong type"); return 0; }
                if (o.p1.size() != 12) { c.no("the nonce length is wrong"); return 0; }
                if (cc ? o.p3.size() != 16 : o.p3.size() > 16 || o.p3.empty()) { c.no("the tag length is wrong"); return 0; }
                Bytes tag;
                if (!p->known) { c.maybe("the wrapping key is unknown"); return -1; }
                v = r_aead(cc, false, p->val, o.p1, o.p2, o.in, &tag);
                tag.resize(o.p3.size());
                if (tag != o.p3) { c.no("authentication of the wrapped key fails"); return 0; }
                if (o.p3.size() < 4) c.maybe("short tag");
                return 1;
            }
            case SA_CIPHER_ALGORITHM_CHACHA20: {
                if (!chacha_key(p)) { c.no("the wrapping key has the wrong type"); return 0; }
                if (o.p1.size() != 12 || o.p2.size() != 4) { c.no("nonce or counter length is wrong"); return 0; }
                if (!p->known) { c.maybe("the wrapping key is unknown"); return -1; }
                Bytes iv = o.p2;
                iv.insert(iv.end(), o.p1.begin(), o.p1.end());
                v = r_crypt(EVP_chacha20(), false, p->val, iv, o.in);
                return 1;
            }
            case SA_CIPHER_ALGORITHM_RSA_PKCS1V15: case SA_CIPHER_ALGORITHM_RSA_OAEP: {
                if (p->type != SA_KEY_TYPE_RSA) { c.no("the wrapping key is not an RSA key"); return 0; }
                if (o.type != SA_KEY_TYPE_SYMMETRIC) { c.no("only symmetric keys can be unwrapped by RSA"); return 0; }
                if (o.in.size() != p->size) { c.no("the wrapped key has the wrong length"); return 0; }
                int r = pk_decrypt(p, a, o.dig, o.dig2, o.p1, o.in, v);
                if (r == 0) c.no("the wrapped key does not decrypt");
                if (r < 0) c.maybe("decryption result unknown");
                return r;
            }
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL: {
                if (p->type != SA_KEY_TYPE_EC || !curve_nist(p->curve)) { c.no("the wrapping key is not a NIST EC key"); return 0; }
                if (o.type != SA_KEY_TYPE_SYMMETRIC) { c.no("only symmetric keys can be unwrapped by EC"); return 0; }
                if (o.in.size() != 4 * p->size) { c.no("the wrapped key has the wrong length"); return 0; }
                if (o.n2 < 16 || o.n2 > p->size || o.n > p->size - o.n2) { c.no("offset and length exceed the decrypted value"); return 0; }
                Bytes f;
                int r = pk_decrypt(p, a, 0, 0, {}, o.in, f);
                if (r == 0) c.no("the wrapped key does not decrypt");
                if (r < 0) c.maybe("decryption result unknown");
                if (r == 1) v = sub(f, o.n, o.n2);
                else v = Bytes(o.n2);
                return r;
            }
        }
        c.no("the wrapping algorithm is unknown");
        return 0;
    }
    void kunwrap() {
        if (!capacity(0, s.keys.size())) c.maybe("store nearly full");
        KeyP p = use_key(c, s, o, o.h, SA_USAGE_FLAG_UNWRAP, "unwrap");
        Bytes v;
        int r = -1;
        auto k = std::make_shared<KeyM>();
        k->type = o.type;
        if (p) {
            r = unwrapped(p, v);
            if (r == 1) {
                k->val = v;
                k->size = v.size();
                if (o.type == SA_KEY_TYPE_SYMMETRIC) c.need(sym_ok(v.size()), "the unwrapped key has an unsupported length");
                else if (o.type == SA_KEY_TYPE_EC) {
                    k->curve = o.curve;
                    k->size = curve_size(o.curve);
                    k->priv = k->pub = pk_ec_from_pkcs8(o.curve, v);
                    if (!k->priv) c.no("the unwrapped value is not a private key of that curve");
                } else if (o.type == SA_KEY_TYPE_RSA) {
                    Bytes q = v;                 // a container may be followed by unauthenticated padding
                    k->priv = k->pub = pk_from_pkcs8(v);
                    if (!k->priv || EVP_PKEY_base_id(k->priv.get()) != EVP_PKEY_RSA) c.no("the unwrapped value is not an RSA key");
                    else k->size = (size_t) EVP_PKEY_size(k->priv.get());
                } else c.no("a key of this type cannot be unwrapped");
            } else if (r < 0) {
                k->known = false;
                k->val = {};
                k->size = o.alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? o.n2 : 0;
                if (o.type == SA_KEY_TYPE_EC) { k->curve = o.curve; k->size = curve_size(o.curve); }
                else if (o.type == SA_KEY_TYPE_SYMMETRIC && !k->size && !is_pkcs7(o.alg) && o.alg != SA_CIPHER_ALGORITHM_RSA_PKCS1V15 && o.alg != SA_CIPHER_ALGORITHM_RSA_OAEP) k->size = o.in.size();
            }
        }
        if (!no_handle()) return;
        if (!verdict()) return;
        if (!fresh(s.keys, o.rh)) return;
        k->rights = o.rights;
        restrict_rights(k->rights, p->rights);
        k->uid = o.id * 4;
        State t = s;
        new_key(t, o.rh, k);
        out.push_back(std::move(t));
    }

    void kderive() {
        if (!capacity(0, s.keys.size())) c.maybe("store nearly full");
        Bytes v;
        bool known = true;
        KeyP p;
        size_t n = o.n;
        switch (o.alg) {
            case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER: {
                if (o.p1.size() != 16 || o.p2.size() != 16 || o.p3.size() != 16 || o.p4.size() != 16) { c.no("a ladder input has the wrong length"); break; }
                if (W.root_seed.empty()) { known = false; n = 16; break; }
                Bytes k = W.root_seed;
                if (o.alg == SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER) k = W.asym[{}].first;   // common root, see prof
                for (auto* q : {&o.p1, &o.p2, &o.p3, &o.p4}) k = r_aes("ecb", false, k, {}, *q);
                v = k;
                break;
            }
            case SA_KDF_ALGORITHM_HKDF: case SA_KDF_ALGORITHM_CONCAT: case SA_KDF_ALGORITHM_ANSI_X963: case SA_KDF_ALGORITHM_CMAC: {
                p = use_key(c, s, o, o.h, SA_USAGE_FLAG_DERIVE, "derive");
                if (p && p->type != SA_KEY_TYPE_SYMMETRIC) c.no("the parent is not symmetric");
                if (o.alg == SA_KDF_ALGORITHM_CMAC) {
                    if (p && !aes_key(p)) c.no("the parent is not an AES key");
                    if (o.n2 < 1 || o.n2 > 4 || o.n % 16 || o.n / 16 > 5 - o.n2) c.no("counter or key length is out of range");
                }
                c.need(sym_ok(o.n), "the key length is not supported");
                if (!c.can) break;
                if (!p->known) { known = false; break; }
                if (o.alg == SA_KDF_ALGORITHM_HKDF) {
                    if (o.n > 255 * r_dlen(o.dig)) { c.no("the key length is too large for the digest"); break; }
                    v = r_hkdf(o.dig, p->val, o.p1, o.p2, o.n);
                } else if (o.alg == SA_KDF_ALGORITHM_CONCAT) v = r_concat(o.dig, p->val, o.p2, o.n);
                else if (o.alg == SA_KDF_ALGORITHM_ANSI_X963) v = r_x963(o.dig, p->val, o.p2, o.n);
                else v = r_kdf_cmac(p->val, o.p2, (unsigned) o.n2, o.n);
                break;
            }
            case SA_KDF_ALGORITHM_NETFLIX: {
                p = use_key(c, s, o, o.h, SA_USAGE_FLAG_DERIVE, "derive");
                KeyP q = use_key(c, s, o, o.h2, SA_USAGE_FLAG_DERIVE, "derive");
                if (p && (p->type != SA_KEY_TYPE_SYMMETRIC || (p->size && p->size != 16))) c.no("the encryption key has the wrong type");
                if (q && (q->type != SA_KEY_TYPE_SYMMETRIC || (q->size && q->size != 32))) c.no("the HMAC key has the wrong type");
                if (!c.can) break;
                n = 16;
                if (!p->known || !q->known) { known = false; break; }
                v = r_netflix_wrap(p->val, q->val);
                break;
            }
            default: c.no("the derivation algorithm is unknown");
        }
        if (!no_handle()) return;
        if (!verdict()) return;
        if (!fresh(s.keys, o.rh)) return;
        auto k = sym(v, o.rights);
        if (!known) { k->known = false; k->size = n; }
        if (p) restrict_rights(k->rights, p->rights);
        State t = s;
        new_key(t, o.rh, k);
        out.push_back(std::move(t));
    }

    void kexch() {
        if (!capacity(0, s.keys.size() + 3)) c.maybe("store nearly full");
        KeyP p = use_key(c, s, o, o.h, SA_USAGE_FLAG_KEY_EXCHANGE, "key exchange");
        Pk peer = pk_from_spki(o.in);
        Bytes ss;
        bool known = false;
        size_t n = 0;
        if (!peer) c.no("the other public key is malformed");
        if (p && peer) {
            bool dh = o.alg != SA_KEY_EXCHANGE_ALGORITHM_ECDH;
            if (dh ? p->type != SA_KEY_TYPE_DH : p->type != SA_KEY_TYPE_EC) c.no("the private key has the wrong type");
            else if (!dh && curve_ed(p->curve)) c.no("the curve does not support key exchange");
            else {
                bool comp = true;
                if (p->pub) comp = EVP_PKEY_parameters_eq(p->pub.get(), peer.get()) == 1 || curve_x(p->curve);
                else if (dh) comp = EVP_PKEY_base_id(peer.get()) == EVP_PKEY_DH;
                if (dh != (EVP_PKEY_base_id(peer.get()) == EVP_PKEY_DH)) c.no("the other public key has the wrong type");
                if (!comp) c.maybe("different parameters");
                n = dh ? p->p.size() : p->size;
                if (c.can) {
                    if (p->priv) { ss = pk_ecdh(p->priv, peer); known = !ss.empty(); }
                    else {
                        // the driver made the peer key: its private half gives the same secret
                        auto it = W.sealed.find(o.in);
                        if (it != W.sealed.end() && it->second->priv && p->pub) { ss = pk_ecdh(it->second->priv, p->pub); known = !ss.empty(); }
                    }
                    if (!known) c.maybe("shared secret unknown");
                    if (known) n = ss.size();
                    if (!sym_ok(n)) c.maybe("secret size");
                }
            }
        }
        KeyP q;
        if (o.alg == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) {
            q = use_key(c, s, o, o.h2, SA_USAGE_FLAG_DERIVE, "derive");
            if (q && (q->type != SA_KEY_TYPE_SYMMETRIC || (q->size && q->size != 16))) c.no("the wrapping key has the wrong type");
        } else if (o.alg > SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) c.no("the algorithm is unknown");
        if (!no_handle()) return;
        if (!ok && (o.rh2 != INVALID_HANDLE || o.rh3 != INVALID_HANDLE)) {
            bad("failed but left a handle in the output of a companion key");
            return;
        }
        if (!verdict()) return;
        if (!fresh(s.keys, o.rh)) return;
        State t = s;
        if (q) {
            if (o.rh2 == INVALID_HANDLE || o.rh3 == INVALID_HANDLE || o.rh2 == o.rh || o.rh3 == o.rh || o.rh2 == o.rh3 ||
                    s.keys.count(o.rh2) || s.keys.count(o.rh3)) { bad("returned companion handles that are invalid or already in use"); return; }
            Bytes m = ss, kb;
            bool kn = known && q->known;
            if (kn) {
                if (m[0] != 0) m.insert(m.begin(), 0);
                kb = r_hmac(SA_DIGEST_ALGORITHM_SHA384, r_digest(SA_DIGEST_ALGORITHM_SHA384, q->val), m);
            } else kb.assign(48, 0);
            auto ke = sym(sub(kb, 0, 16), o.rights2), kh = sym(sub(kb, 16, 32), o.rights3);
            auto kw = sym(r_netflix_wrap(ke->val, kh->val), o.rights);
            if (!kn) ke->known = kh->known = kw->known = false;
            restrict_rights(ke->rights, q->rights);
            restrict_rights(kh->rights, q->rights);
            restrict_rights(kw->rights, q->rights);
            ke->uid = o.id * 4 + 1;
            kh->uid = o.id * 4 + 2;
            new_key(t, o.rh, kw);
            new_key(t, o.rh2, ke);
            new_key(t, o.rh3, kh);
        } else {
            auto k = sym(ss, o.rights);
            if (!known) { k->known = false; k->size = n; }
            restrict_rights(k->rights, p->rights);
            new_key(t, o.rh, k);
        }
        out.push_back(std::move(t));
    }

    void kexport() {
        KeyP k = own_key(c, s, o, o.h);
        if (k && !(k->rights.usage_flags & BIT(SA_USAGE_FLAG_CACHEABLE))) c.denied("the key's usage flags do not allow export");
        if (!(o.null1 || o.p1.size() == 16)) c.no("the mixin has the wrong length");
        if (!o.nullout && ok && o.cap < o.olen) { bad("reported more bytes than the buffer holds"); return; }
        if (!o.nullout && o.n == 1) c.maybe("short buffer");
        if (!verdict()) return;
        State t = s;
        if (!o.nullout) {
            if (s.blobs->count(o.out) || W.blobs.count(o.out)) { bad("two exports gave the same container"); return; }
            auto m = std::make_shared<std::map<Bytes, Blob>>(*s.blobs);
            (*m)[o.out] = Blob{k, o.p1, !o.null1, (uint64_t) o.id};
            t.blobs = m;
            // the mixin (stored in the clear ahead of the header) must be the one given
        }
        out.push_back(std::move(t));
    }
    void kheader() {
        KeyP k = own_key(c, s, o, o.h);
        if (!verdict()) return;
        static const char magic[4] = {'s', 'a', 'k', '0'};
        if (memcmp(o.hdr.magic, magic, 4)) { bad("wrong magic in the header"); return; }
        if (o.hdr.type != k->type) { bad(fmtv("header reports type %d, the key has %d", o.hdr.type, k->type)); return; }
        if (memcmp(&o.hdr.rights, &k->rights, sizeof(sa_rights))) {
            bad(fmtv("header reports rights other than the key's (usage %llx, expected %llx, id %.20s expected %.20s)",
                    (unsigned long long) o.hdr.rights.usage_flags, (unsigned long long) k->rights.usage_flags, o.hdr.rights.id, k->rights.id));
            return;
        }
        if (k->size && o.hdr.size != k->size) { bad(fmtv("header reports size %u, the key has %zu", o.hdr.size, k->size)); return; }
        if (k->type == SA_KEY_TYPE_EC && (int) o.hdr.type_parameters.curve != k->curve) { bad("header reports another curve"); return; }
        if (k->type == SA_KEY_TYPE_DH && !k->p.empty()) {
            auto& d = o.hdr.type_parameters.dh_parameters;
            if (d.p_length != k->p.size() || memcmp(d.p, k->p.data(), k->p.size()) || d.g_length != k->g.size() ||
                    memcmp(d.g, k->g.data(), k->g.size())) { bad("header reports other DH parameters"); return; }
        }
        State t = s;
        if (!k->size) {       // size learned
            auto n = std::make_shared<KeyM>(*k);
            n->size = o.hdr.size;
            t.keys[o.h] = n;
        }
        out.push_back(std::move(t));
    }
    void kdigest() {
        KeyP k = use_key(c, s, o, o.h, -1, "");
        if (k && k->type != SA_KEY_TYPE_SYMMETRIC) c.no("only symmetric keys have a digest");
        if (!r_dlen(o.dig)) c.no("the digest is unknown");
        else if (!o.nullout && o.cap < r_dlen(o.dig)) c.no("the buffer is too short");
        if (!verdict()) return;
        if (o.olen != r_dlen(o.dig)) { bad("reported a wrong digest length"); return; }
        if (!o.nullout && k->known) {
            Bytes w = r_digest(o.dig, k->val);
            if (o.out != w) { bad("key digest differs: " + differ(o.out, w)); return; }
        }
        out.push_back(s);
    }
    void kpublic() {
        KeyP k = use_key(c, s, o, o.h, -1, "");
        if (k && k->type == SA_KEY_TYPE_SYMMETRIC) c.no("a symmetric key has no public key");
        if (o.n == 1) c.maybe("short buffer");
        if (!verdict()) return;
        State t = s;
        if (!o.nullout) {
            Pk p = pk_from_spki(o.out);
            if (!p) { bad("the public key is malformed"); return; }
            if (k->pub) {
                if (!pk_same_public(p, k->pub)) { bad("the public key is not the key's"); return; }
            } else {
                auto n = std::make_shared<KeyM>(*k);
                n->pub = p;
                n->uid = hcomb(n->uid, fnv(o.out));
                t.keys[o.h] = n;
            }
        }
        out.push_back(std::move(t));
    }
    void krelease() {
        own_key(c, s, o, o.h);
        if (!verdict()) return;
        State t = s;
        t.keys.erase(o.h);
        out.push_back(std::move(t));
    }

    void cinit() {
        if (!capacity(1, s.ciphers.size())) c.maybe("store nearly full");
        auto m = std::make_shared<CipM>();
        bool enc = o.mode == SA_CIPHER_MODE_ENCRYPT;
        if (o.mode != SA_CIPHER_MODE_ENCRYPT && o.mode != SA_CIPHER_MODE_DECRYPT) c.no("the mode is unknown");
        KeyP k = use_key(c, s, o, o.h, enc ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT, enc ? "encryption" : "decryption");
        m->alg = o.alg;
        m->mode = o.mode;
        m->key = k;
        m->iv = o.p1;
        m->aad = o.p2;
        switch (o.alg) {
            case SA_CIPHER_ALGORITHM_AES_ECB: case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7:
                if (k && !aes_key(k)) c.no("the key is not an AES key");
                break;
            case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR:
                if (k && !aes_key(k)) c.no("the key is not an AES key");
                if (o.p1.size() != 16) c.no("the IV length is wrong");
                break;
            case SA_CIPHER_ALGORITHM_AES_GCM:
                if (k && !aes_key(k)) c.no("the key is not an AES key");
                if (o.p1.size() != 12) c.no("the IV length is wrong");
                break;
            case SA_CIPHER_ALGORITHM_CHACHA20:
                if (k && !chacha_key(k)) c.no("the key is not a ChaCha20 key");
                if (o.p1.size() != 12 || o.p2.size() != 4) c.no("nonce or counter length is wrong");
                m->iv = o.p2;
                m->iv.insert(m->iv.end(), o.p1.begin(), o.p1.end());
                m->aad.clear();
                break;
            case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                if (k && !chacha_key(k)) c.no("the key is not a ChaCha20 key");
                if (o.p1.size() != 12) c.no("the nonce length is wrong");
                break;
            case SA_CIPHER_ALGORITHM_RSA_PKCS1V15: case SA_CIPHER_ALGORITHM_RSA_OAEP:
                if (k && k->type != SA_KEY_TYPE_RSA) c.no("the key is not an RSA key");
                if (enc) c.no("RSA contexts only decrypt");
                m->dig = o.dig;
                m->dig2 = o.dig2;
                m->label = o.p1;
                break;
            case SA_CIPHER_ALGORITHM_EC_ELGAMAL:
                if (k && (k->type != SA_KEY_TYPE_EC || !curve_nist(k->curve))) c.no("the key is not a NIST EC key");
                if (enc) c.no("EC contexts only decrypt");
                break;
            default: c.no("the cipher algorithm is unknown");
        }
        if (!no_handle()) return;
        if (!verdict()) return;
        if (o.rh == INVALID_HANDLE || s.ciphers.count(o.rh)) { bad("returned a handle that is invalid or already in use"); return; }
        m->owner = o.uuid;
        m->uid = o.id;
        if (!k->known && !is_pk(o.alg)) m->unk = true;
        State t = s;
        t.ciphers[o.rh] = m;
        out.push_back(std::move(t));
    }

    void use_cipher_rights(const CipP& m) {
        if (!m) return;
        bool enc = m->mode == SA_CIPHER_MODE_ENCRYPT;
        if (!(m->key->rights.usage_flags & BIT(enc ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT))) c.denied("the key's usage flags do not allow it");
        window(c, o, m->key->rights, true, m->key->type == SA_KEY_TYPE_SYMMETRIC);
    }
    // input of a cipher call: its bytes (known or not), or a refusal
    bool input(const BufD& b, size_t n, Bytes& d, bool& known) {
        known = true;
        if (b.odd) { c.no("the input buffer type is unknown"); return false; }
        if (b.type == SA_BUFFER_TYPE_CLEAR) {
            if (!range_ok(b.off, n, b.len)) { c.no("the input range exceeds its buffer"); return false; }
            d = sub(b.data, b.off, n);
            return true;
        }
        if (b.type != SA_BUFFER_TYPE_SVP) { c.no("the input buffer type is unknown"); return false; }
        SvpP v = own_svp(c, s, o, b.h);
        if (!v) return false;
        if (!range_ok(b.off, n, v->c.size())) { c.no("the input range exceeds its SVP buffer"); return false; }
        known = narrow(std::vector<int16_t>(v->c.begin() + b.off, v->c.begin() + b.off + n), d);
        return true;
    }
    bool output(const BufD& b, size_t n, bool n_exact) {
        if (b.odd) { c.no("the output buffer type is unknown"); return false; }
        if (b.type == SA_BUFFER_TYPE_CLEAR) {
            if (!range_ok(b.off, n, b.len)) { if (n_exact) c.no("the output range exceeds its buffer"); else c.maybe("output room"); return false; }
            return true;
        }
        if (b.type != SA_BUFFER_TYPE_SVP) { c.no("the output buffer type is unknown"); return false; }
        SvpP v = own_svp(c, s, o, b.h);
        if (!v) return false;
        if (!range_ok(b.off, n, v->c.size())) { if (n_exact) c.no("the output range exceeds its SVP buffer"); else c.maybe("output room"); return false; }
        return true;
    }
    void protection(const CipP& m, const BufD& in, const BufD& o2) {
        if (!m) return;
        bool clear_out = o2.type == SA_BUFFER_TYPE_CLEAR;
        if (clear_out && in.type == SA_BUFFER_TYPE_SVP) c.no("data of an SVP buffer would reach clear memory");
        if (clear_out && !(m->key->rights.usage_flags & BIT(SA_USAGE_FLAG_SVP_OPTIONAL))) c.no("the key requires its output to stay in SVP memory");
        if ((in.type == SA_BUFFER_TYPE_SVP || o2.type == SA_BUFFER_TYPE_SVP) && (is_aead(m->alg) || is_pk(m->alg))) c.no("the algorithm does not support SVP buffers");
    }
    // what a failed step may have left in its SVP output is not specified
    void spoil(State& t, const BufD& b, size_t n) {
        if (b.type != SA_BUFFER_TYPE_SVP || b.null || !t.svps.count(b.h) || b.off > t.svps[b.h]->c.size()) return;
        svp_store(t, b.h, b.off, std::vector<int16_t>(std::min<size_t>(t.svps[b.h]->c.size() - b.off, n), -1), o.id);
    }
    // poison: an injected failure of the cryptographic step itself may leave the context unusable
    void refused_with_poison(bool poison_possible) {
        if (ok) return;
        if (out.empty()) return;
        if (poison_possible && (o.fault_mask & BIT(FK_OSSL)) && s.ciphers.count(o.h)) {
            State t = s;
            auto n = std::make_shared<CipM>(*s.ciphers.at(o.h));
            n->undef = true;
            n->ver = hcomb(n->ver, o.id);
            t.ciphers[o.h] = n;
            spoil(t, o.bo, o.n + 32);
            out.clear();
            out.push_back(std::move(t));
        }
    }

    // writes `res` (known or not) as the call's output and checks it against what was observed
    bool land(State& t, const Bytes& res, bool known, size_t reported) {
        if (o.bo.type == SA_BUFFER_TYPE_CLEAR) {
            Bytes got = sub(o.bo.data, o.bo.off, reported);
            if (known && got != res) return bad("output differs: " + differ(got, res));
            if (!known) { /* cannot be compared */ }
        } else {
            std::vector<int16_t> d = known ? wide(res) : std::vector<int16_t>(reported, -1);
            svp_store(t, o.bo.h, o.bo.off, d, o.id);
        }
        return true;
    }
    void offsets(size_t consumed, size_t produced) {
        if (o.bi.off_after != o.bi.off + consumed) bad(fmtv("input offset moved from %zu to %zu, %zu bytes were consumed", o.bi.off, o.bi.off_after, consumed));
        else if (o.bo.off_after != o.bo.off + produced) bad(fmtv("output offset moved from %zu to %zu, %zu bytes were produced", o.bo.off, o.bo.off_after, produced));
    }

    void cproc(bool last) {
        CipP m = own_cipher(c, s, o, o.h);
        Bytes d;
        bool dk = true;
        size_t n = o.n;
        if (!o.bo.null) use_cipher_rights(m);      // asking for a length is not a use of the key
        if (m && (m->undef || m->done)) c.maybe("context finished or poisoned");
        bool enc = m && m->mode == SA_CIPHER_MODE_ENCRYPT;
        if (o.bo.null) {        // length query
            if (n == 0) c.maybe("empty");
            if (last && m && !is_pkcs7(m->alg) && !is_aead(m->alg) && m->alg != SA_CIPHER_ALGORITHM_AES_CTR && m->alg != SA_CIPHER_ALGORITHM_CHACHA20) c.maybe("nothing to finish");
            // parameters of the real call are not needed for a length query: whether they are checked is not specified
            c.maybe("length query");
            if (!verdict()) return;
            if (is_pk(m->alg)) { out.push_back(s); return; }
            if (!m->undef && !m->done && n < (1ULL << 62)) {
                size_t least = n;
                if (!last && is_pkcs7(m->alg) && !enc) least = n >= 16 ? n - 16 : 0;
                if (last) least = is_pkcs7(m->alg) && enc ? (n / 16 + 1) * 16 : is_pkcs7(m->alg) ? 0 : is_block(m->alg) ? 0 : n;
                if (o.olen < least) { bad(fmtv("reported length %llu, at least %zu is needed", (unsigned long long) o.olen, least)); return; }
                if (n < (1ULL << 40) && o.olen > n + 32) { bad("reported an implausible length"); return; }
            }
            out.push_back(s);
            return;
        }
        if (m) protection(m, o.bi, o.bo);
        bool in_ok = input(o.bi, n, d, dk);
        size_t room = n;
        bool exact = true;
        if (m && is_pk(m->alg)) { exact = false; room = m->key->size; }
        if (m && last && is_pkcs7(m->alg)) { room = (n / 16 + 1) * 16; exact = enc; }
        if (m && last && !is_pkcs7(m->alg) && is_block(m->alg)) c.no("the algorithm has no final step");
        if (n == 0 && !last) c.maybe("no data");
        output(o.bo, room, exact);
        if (o.bi.type == SA_BUFFER_TYPE_CLEAR && o.bi.len == 0) c.maybe("empty input buffer");
        if (m && !last && is_block(m->alg) && n % 16) c.no("the data is not whole blocks");
        if (m && last) {
            if (is_pkcs7(m->alg)) {
                if (enc ? n > 16 : n != 16) c.no("the final block has the wrong length");
            } else if (is_aead(m->alg)) {
                if (m->alg == SA_CIPHER_ALGORITHM_AES_GCM) {
                    if (n > 16) c.no("the final part has the wrong length");
                    if (o.p1.size() > 16 || (o.p1.empty() && !enc)) c.no("the tag length is wrong");
                    else if (o.p1.size() < 4) c.maybe("short tag");
                } else if (o.p1.size() != 16) c.no("the tag length is wrong");
                if (o.null1) c.no("the tag is missing");
            } else if (m->alg == SA_CIPHER_ALGORITHM_AES_CTR || m->alg == SA_CIPHER_ALGORITHM_CHACHA20) {
                if (!enc && n > 16) c.maybe("final length");
                if (enc && n > 16) c.maybe("final length");
            } else c.no("the algorithm has no final step");
        }
        // ranges of one SVP buffer that overlap without coinciding: the result is not specified; nor is it in place when
        // the context holds a block back (decryption with padding), which shifts the output against the input
        bool smear = o.bi.type == SA_BUFFER_TYPE_SVP && o.bo.type == SA_BUFFER_TYPE_SVP && o.bi.h == o.bo.h &&
                     (o.bi.off != o.bo.off || (m && !enc && is_pkcs7(m->alg))) &&
                     o.bi.off < o.bo.off + n + 32 && o.bo.off < o.bi.off + n;
        if (smear) c.maybe("input and output overlap");
        if (m && is_pk(m->alg)) {
            // one ciphertext in, one plaintext out
            size_t want = m->alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 4 * m->key->size : m->key->size;
            if (n != want) c.no("the ciphertext has the wrong length");
            Bytes pt;
            int r = c.can && in_ok ? pk_decrypt(m->key, m->alg, m->dig, m->dig2, m->label, d, pt) : -1;
            if (r == 0) c.no("the ciphertext does not decrypt");
            if (r < 0) c.maybe("plaintext unknown");
            if (!verdict()) { refused_with_poison(true); return; }
            if (r == 1 && !m->undef) {
                if (o.olen != pt.size()) { bad(fmtv("produced %llu bytes, expected %zu", (unsigned long long) o.olen, pt.size())); return; }
                State t = s;
                if (!land(t, pt, true, pt.size())) return;
            }
            out.push_back(s);
            return;
        }
        if (!m || !in_ok) { verdict(); return; }
        auto nm = std::make_shared<CipM>(*m);
        nm->ver = hcomb(nm->ver, o.id);
        if (!dk || smear) nm->unk = true;
        nm->data.insert(nm->data.end(), d.begin(), d.end());
        bool defined = !m->undef && !m->done;
        bool known = defined && !nm->unk;
        Bytes full, tag;
        bool final_ok = true;
        if (last && defined) {
            nm->done = true;
            if (known) {
                if (is_pkcs7(m->alg)) {
                    if (enc) { CipM q = *nm; q.data = r_pad(nm->data); full = stream(q); }
                    else { final_ok = r_unpad(stream(*nm), full); if (!final_ok) c.no("the padding is wrong"); }
                } else full = stream(*nm);
                if (is_aead(m->alg)) {
                    r_aead(m->alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, enc, m->key->val, m->iv, m->aad, nm->data, &tag);
                    if (!enc) {
                        Bytes t2 = tag;
                        t2.resize(o.p1.size());
                        if (t2 != o.p1) c.no("the authentication tag does not match");
                    }
                }
            } else c.maybe("content unknown");
            if (is_pkcs7(m->alg) && !enc && nm->data.empty()) c.maybe("no data");
        } else if (known) full = stream(*nm);
        if (!ok) {
            // refused: the context did not advance, except that a failed final step ends it
            if (!verdict() && out.empty()) return;
            if (last && (c.can ? !known : defined && (!final_ok || c.why == "the authentication tag does not match"))) {
                State t = s;
                nm->undef = true;
                t.ciphers[o.h] = nm;
                spoil(t, o.bo, n + 32);
                out.clear();
                out.push_back(std::move(t));
                return;
            }
            if (c.can && !known && out.size()) spoil(out[0], o.bo, n + 32);
            refused_with_poison(true);
            return;
        }
        if (!verdict()) return;
        size_t rep = o.olen;
        if (rep > room + (last ? 16 : 0)) { bad("reported more output than fits"); return; }
        State t = s;
        if (known) {
            size_t lo = full.size(), hi = full.size();
            if (!last && is_pkcs7(m->alg) && !enc) lo = full.size() >= 16 ? full.size() - 16 : 0;   // the last block may be held back
            size_t now = m->produced + rep;
            if (now < lo || now > hi) { bad(fmtv("produced %zu bytes, %zu so far, expected %zu to %zu", rep, now, lo, hi)); return; }
            Bytes want = sub(full, m->produced, rep);
            if (!land(t, want, true, rep)) return;
            nm->produced = now;
            if (last && is_aead(m->alg) && enc) {
                Bytes t2 = tag;
                t2.resize(o.p1.size());
                if (o.out != t2) { bad("the tag differs: " + differ(o.out, t2)); return; }
            }
        } else {
            if (!land(t, {}, false, rep)) return;
            nm->produced += rep;
        }
        offsets(n, rep);
        if (!why.empty()) return;
        t.ciphers[o.h] = nm;
        out.push_back(std::move(t));
    }

    void civ() {
        CipP m = own_cipher(c, s, o, o.h);
        if (m && m->alg != SA_CIPHER_ALGORITHM_AES_CBC && m->alg != SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 && m->alg != SA_CIPHER_ALGORITHM_AES_CTR)
            c.no("the algorithm has no IV to update");
        if (o.p1.size() != 16) c.no("the IV length is wrong");
        if (m && (m->done || m->undef)) c.maybe("context finished");
        if (m) { Chk d = c; window(d, o, m->key->rights, true, true); if (!d.must) c.maybe("rights"); }
        if (!verdict()) { refused_with_poison(true); return; }
        State t = s;
        auto nm = std::make_shared<CipM>(*m);
        nm->ver = hcomb(nm->ver, o.id);
        bool pending = is_pkcs7(m->alg) && m->mode == SA_CIPHER_MODE_DECRYPT && m->data.size() != m->produced;
        nm->iv = o.p1;
        nm->data.clear();
        nm->produced = 0;
        nm->unk = !m->key->known;
        // a context whose message was finished may be given a new IV, but whether that revives it is not specified
        nm->undef = pending || m->done || (m->undef && is_pkcs7(m->alg));
        nm->done = false;
        t.ciphers[o.h] = nm;
        out.push_back(std::move(t));
    }
    void crel() {
        own_cipher(c, s, o, o.h);
        if (!verdict()) return;
        State t = s;
        t.ciphers.erase(o.h);
        out.push_back(std::move(t));
    }

    void minit() {
        if (!capacity(2, s.macs.size())) c.maybe("store nearly full");
        KeyP k = use_key(c, s, o, o.h, SA_USAGE_FLAG_SIGN, "MAC");
        if (o.alg == SA_MAC_ALGORITHM_CMAC) { if (k && !aes_key(k)) c.no("the key is not an AES key"); }
        else if (o.alg == SA_MAC_ALGORITHM_HMAC) {
            if (k && !hmac_key(k)) c.no("the key is not an HMAC key");
            if (!r_dlen(o.dig)) c.no("the digest is unknown");
        } else c.no("the MAC algorithm is unknown");
        if (!no_handle()) return;
        if (!verdict()) return;
        if (o.rh == INVALID_HANDLE || s.macs.count(o.rh)) { bad("returned a handle that is invalid or already in use"); return; }
        auto m = std::make_shared<MacM>();
        m->alg = o.alg;
        m->dig = o.dig;
        m->key = k;
        m->owner = o.uuid;
        m->uid = o.id;
        m->unk = !k->known;
        State t = s;
        t.macs[o.rh] = m;
        out.push_back(std::move(t));
    }
    void mac_poison() {
        if (ok || out.empty() || !(o.fault_mask & BIT(FK_OSSL)) || !s.macs.count(o.h)) return;
        State t = s;
        auto n = std::make_shared<MacM>(*s.macs.at(o.h));
        n->undef = true;
        n->ver = hcomb(n->ver, o.id);
        t.macs[o.h] = n;
        out.clear();
        out.push_back(std::move(t));
    }
    void mproc(bool key) {
        MacP m = own_mac(c, s, o, o.h);
        Bytes d = o.in;
        bool known = true;
        if (key) {
            KeyP k = use_key(c, s, o, o.h2, -1, "");
            if (k && k->type != SA_KEY_TYPE_SYMMETRIC) c.no("the key is not symmetric");
            if (k) { d = k->val; known = k->known; }
        } else if (o.null1 && o.n) c.no("the data is missing");
        if (m && m->done) c.no("the MAC has already been computed");
        if (m && m->undef) c.maybe("context poisoned");
        if (m) { Chk w = c; window(w, o, m->key->rights, true, true); if (!w.must) c.maybe("rights"); }
        if (!key && d.empty()) c.maybe("no data");
        if (!verdict()) { mac_poison(); return; }
        State t = s;
        auto n = std::make_shared<MacM>(*m);
        n->ver = hcomb(n->ver, o.id);
        n->data.insert(n->data.end(), d.begin(), d.end());
        if (!known) n->unk = true;
        t.macs[o.h] = n;
        out.push_back(std::move(t));
    }
    void mcomp() {
        MacP m = own_mac(c, s, o, o.h);
        size_t len = m ? (m->alg == SA_MAC_ALGORITHM_CMAC ? 16 : r_dlen(m->dig)) : 0;
        if (o.nullout) {
            if (m && (m->done || m->undef)) c.maybe("context finished");
            if (!verdict()) { mac_poison(); return; }
            if (o.olen != len) { bad("reported a wrong MAC length"); return; }
            out.push_back(s);
            return;
        }
        if (m && o.cap < len) c.no("the buffer is too short");
        if (m && m->done) c.maybe("already computed");
        if (m && m->undef) c.maybe("context poisoned");
        if (m) { Chk w = c; window(w, o, m->key->rights, true, true); if (!w.must) c.maybe("rights"); }
        if (!verdict()) { mac_poison(); return; }
        if (o.olen != len) { bad("reported a wrong MAC length"); return; }
        if (!m->unk && !m->undef) {
            Bytes w = m->alg == SA_MAC_ALGORITHM_CMAC ? r_cmac(m->key->val, m->data) : r_hmac(m->dig, m->key->val, m->data);
            if (o.out != w) { bad("MAC differs: " + differ(o.out, w)); return; }
        }
        State t = s;
        auto n = std::make_shared<MacM>(*m);
        n->ver = hcomb(n->ver, o.id);
        n->done = true;
        t.macs[o.h] = n;
        out.push_back(std::move(t));
    }
    void mrel() {
        own_mac(c, s, o, o.h);
        if (!verdict()) return;
        State t = s;
        t.macs.erase(o.h);
        out.push_back(std::move(t));
    }

    void sign() {
        KeyP k = use_key(c, s, o, o.h, SA_USAGE_FLAG_SIGN, "signing");
        size_t len = 0;
        if (k) {
            bool fits = false;
            switch (o.alg) {
                case SA_SIGNATURE_ALGORITHM_ECDSA:
                    fits = k->type == SA_KEY_TYPE_EC && curve_nist(k->curve);
                    len = 2 * k->size;
                    if (o.pre && o.in.size() != r_dlen(o.dig)) c.no("the digest has the wrong length");
                    break;
                case SA_SIGNATURE_ALGORITHM_EDDSA:
                    fits = k->type == SA_KEY_TYPE_EC && curve_ed(k->curve);
                    len = 2 * k->size;
                    break;
                case SA_SIGNATURE_ALGORITHM_RSA_PSS: case SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15:
                    fits = k->type == SA_KEY_TYPE_RSA;
                    len = k->size;
                    if (o.pre && o.in.size() != r_dlen(o.dig)) c.no("the digest has the wrong length");
                    if (fits && o.alg == SA_SIGNATURE_ALGORITHM_RSA_PSS && o.n + r_dlen(o.dig) + 2 > k->size) c.no("the salt is too long");
                    break;
            }
            if (!fits) c.no("the key does not support the signature algorithm");
            if (!o.nullout && o.cap < len) c.no("the buffer is too short");
        }
        if (o.nullout) c.maybe("length query");
        if (o.in.empty()) c.maybe("no data");
        if (!verdict()) return;
        if (o.olen != len) { bad(fmtv("reported signature length %llu, expected %zu", (unsigned long long) o.olen, len)); return; }
        if (!o.nullout && k->pub && !verify_signature(k->pub, o.alg, k->curve, o.dig, o.dig2, o.n, o.pre, o.in, o.out)) {
            bad("the signature does not verify under the key's public key");
            return;
        }
        out.push_back(s);
    }
    void random() {
        if (o.n == 0) c.no("no room");
        if (!verdict()) return;
        // exactly bytes obtained from the source for this request
        bool found = false;
        for (size_t i = 0; i < o.rng.size() && !found; i++) {
            Bytes acc;
            for (size_t j = i; j < o.rng.size() && acc.size() < o.n && !found; j++) {
                acc.insert(acc.end(), o.rng[j].begin(), o.rng[j].end());
                found = acc == o.out;
            }
        }
        if (!found) { bad("random bytes returned are not those obtained from the entropy source for this call"); return; }
        out.push_back(s);
    }

    void salloc() {
        if (!capacity(3, s.svps.size())) c.maybe("store nearly full");
        if (o.n == 0) c.maybe("empty");
        if (o.n2) c.no("the memory is outside the protected region");     // driver passed clear memory
        if (!no_handle()) return;
        if (!verdict()) return;
        if (o.rh == INVALID_HANDLE || s.svps.count(o.rh)) { bad("returned a handle that is invalid or already in use"); return; }
        auto m = std::make_shared<SvpM>();
        m->c.assign(o.n, -1);
        m->mem = o.mem;
        m->owner = o.uuid;
        m->uid = o.id;
        State t = s;
        t.svps[o.rh] = m;
        out.push_back(std::move(t));
    }
    void swrite() {
        SvpP v = own_svp(c, s, o, o.h);
        if (o.offs.empty() || o.in.empty()) c.no("nothing to write");
        std::vector<int16_t> cont;
        if (v) cont = v->c;
        for (auto& f : o.offs) {
            if (v && !range_ok(f.out_offset, f.length, v->c.size())) c.no("the range exceeds the SVP buffer");
            if (!range_ok(f.in_offset, f.length, o.in.size())) c.no("the range exceeds the input");
            if (f.length == 0) c.maybe("empty range");
            if (!c.can) break;
            for (size_t i = 0; i < f.length; i++) cont[f.out_offset + i] = o.in[f.in_offset + i];
        }
        if (!verdict()) return;
        State t = s;
        svp_store(t, o.h, 0, cont, o.id);
        out.push_back(std::move(t));
    }
    void scopy() {
        SvpP v = own_svp(c, s, o, o.h), w = own_svp(c, s, o, o.h2);
        if (o.offs.empty()) c.no("nothing to copy");
        if (o.h == o.h2) c.maybe("same buffer");
        std::vector<int16_t> cont;
        if (v) cont = v->c;
        bool blur = o.h == o.h2;
        for (auto& f : o.offs) {
            if (v && !range_ok(f.out_offset, f.length, v->c.size())) c.no("the range exceeds the SVP buffer");
            if (w && !range_ok(f.in_offset, f.length, w->c.size())) c.no("the range exceeds the input");
            if (f.length == 0) c.maybe("empty range");
            if (!c.can) break;
            for (size_t i = 0; i < f.length; i++) cont[f.out_offset + i] = blur ? -1 : w->c[f.in_offset + i];
        }
        if (!verdict()) return;
        State t = s;
        svp_store(t, o.h, 0, cont, o.id);
        out.push_back(std::move(t));
    }
    void skcheck() {
        KeyP k = use_key(c, s, o, o.h, SA_USAGE_FLAG_DECRYPT, "decryption");
        if (k && !aes_key(k)) c.no("the key is not an AES key");
        Bytes d;
        bool dk = true;
        bool in_ok = input(o.bi, o.n, d, dk);
        if (o.n == 0 || o.n % 16) c.no("the data is not whole blocks");
        if (o.p1.size() != o.n) c.no("the expected value has the wrong length");
        if (k && o.bi.type == SA_BUFFER_TYPE_CLEAR && !(k->rights.usage_flags & BIT(SA_USAGE_FLAG_SVP_OPTIONAL))) c.no("the key requires protected memory");
        if (o.bi.type == SA_BUFFER_TYPE_SVP && is_ree(o.uuid)) c.no("a REE caller may not check SVP content");
        if (c.can && in_ok && dk && k->known) {
            if (r_aes("ecb", false, k->val, {}, d) != o.p1) c.no("the decrypted data is not the expected value");
        } else if (c.can) c.maybe("content unknown");
        if (!verdict()) return;
        out.push_back(s);
    }
    void sbcheck() {
        SvpP v = own_svp(c, s, o, o.h);
        if (is_ree(o.uuid)) c.no("a REE caller may not check SVP content");
        if (v && !range_ok(o.n, o.n2, v->c.size())) c.no("the range exceeds the SVP buffer");
        if (!r_dlen(o.dig)) c.no("the digest is unknown");
        else if (o.p1.size() != r_dlen(o.dig)) c.no("the hash has the wrong length");
        if (o.n2 == 0) c.maybe("empty");
        if (c.can) {
            Bytes d;
            if (narrow(std::vector<int16_t>(v->c.begin() + o.n, v->c.begin() + o.n + o.n2), d)) {
                if (r_digest(o.dig, d) != o.p1) c.no("the content does not have that hash");
            } else c.maybe("content unknown");
        }
        if (!verdict()) return;
        out.push_back(s);
    }
    void srel(bool freeit) {
        SvpP v = own_svp(c, s, o, o.h);
        if (!verdict()) return;
        if (!freeit) {
            if (v->mem && o.mem != v->mem) { bad("released memory is not the buffer's"); return; }
            if (!o.mem) { bad("released no memory"); return; }
            if (o.olen != v->c.size()) { bad(fmtv("released size %llu, the buffer has %zu", (unsigned long long) o.olen, v->c.size())); return; }
        }
        State t = s;
        t.svps.erase(o.h);
        out.push_back(std::move(t));
    }
    void observe() {
        auto it = s.svps.find(o.h);
        if (it == s.svps.end()) { out.push_back(s); return; }
        auto& v = it->second;
        if (v->mem && o.mem && v->mem != o.mem) { out.push_back(s); return; }
        for (size_t i = 0; i < v->c.size() && i < o.in.size(); i++)
            if (v->c[i] >= 0 && v->c[i] != o.in[i]) {
                bad(fmtv("SVP buffer content differs at byte %zu: %02x, expected %02x as call #%u left it", i, o.in[i], v->c[i], i < v->by.size() ? v->by[i] : 0));
                return;
            }
        out.push_back(s);
    }
    void info() {
        if (o.n == 2) {       // device id
            if (!verdict()) return;
            State t = s;
            if (s.dev_seen && s.dev != o.olen) { bad("the device id changed"); return; }
            if (W.device_id_known && W.device_id != o.olen) { bad(fmtv("the device id is %llx, expected %llx", (unsigned long long) o.olen, (unsigned long long) W.device_id)); return; }
            t.dev = o.olen;
            t.dev_seen = true;
            out.push_back(std::move(t));
            return;
        }
        if (!verdict()) return;
        if (o.n == 3 && o.out != Bytes((const uint8_t*) &o.uuid, (const uint8_t*) &o.uuid + 16)) {
            // the TA's own identity: any fixed value
        }
        out.push_back(s);
    }

    // ---- common encryption
    Bytes cenc_ref(const CipP& m, const SampleD& sd, const Bytes& in) {
        Bytes o2;
        const Bytes& key = m->key->val;
        bool cbc = m->alg == SA_CIPHER_ALGORITHM_AES_CBC;
        Bytes iv = sd.iv, chain = sd.iv;
        uint64_t blk = 0;           // CTR: bytes of key stream used
        auto keystream = [&](uint64_t pos) {
            // the low 8 bytes are the block counter and wrap by themselves
            uint64_t b = pos / 16, lo = 0;
            Bytes ctr = sd.iv;
            for (int i = 8; i < 16; i++) lo = lo << 8 | ctr[i];
            lo += b;
            for (int i = 15; i >= 8; i--) { ctr[i] = (uint8_t) lo; lo >>= 8; }
            return r_aes("ecb", true, key, {}, ctr)[pos % 16];
        };
        size_t pos = 0;
        for (auto& sl : sd.subs) {
            for (size_t i = 0; i < sl.bytes_of_clear_data; i++) o2.push_back(in[pos++]);
            size_t left = sl.bytes_of_protected_data;
            bool pattern = sd.crypt != 0;
            if (cbc && pattern) chain = sd.iv;
            if (!pattern) {
                if (!cbc) for (; left; left--) { o2.push_back(in[pos] ^ keystream(blk++)); pos++; }
                else {
                    size_t whole = left / 16 * 16;
                    Bytes ct = sub(in, pos, whole), pt = r_aes("cbc", false, key, chain, ct);
                    if (whole) chain = Bytes(ct.end() - 16, ct.end());
                    o2.insert(o2.end(), pt.begin(), pt.end());
                    pos += whole;
                    for (left -= whole; left; left--) o2.push_back(in[pos++]);
                }
                continue;
            }
            while (left >= 16) {
                size_t cb = std::min<size_t>(left / 16, sd.crypt) * 16;
                if (!cbc) for (size_t i = 0; i < cb; i++) { o2.push_back(in[pos] ^ keystream(blk++)); pos++; }
                else {
                    Bytes ct = sub(in, pos, cb), pt = r_aes("cbc", false, key, chain, ct);
                    chain = Bytes(ct.end() - 16, ct.end());
                    o2.insert(o2.end(), pt.begin(), pt.end());
                    pos += cb;
                }
                left -= cb;
                size_t sk = std::min<size_t>(left / 16, sd.skip) * 16;
                for (size_t i = 0; i < sk; i++) o2.push_back(in[pos++]);
                left -= sk;
            }
            for (; left; left--) o2.push_back(in[pos++]);
        }
        return o2;
    }
    // one sample: 1 done, 0 wrong, -1 refused
    bool cenc_sample(State& t, const SampleD& sd, bool succeeded, Chk& c2) {
        const State& cur = t;
        Ap sub_ap(cur, o, why);
        Chk& q = sub_ap.c;
        CipP m = own_cipher(q, cur, o, sd.ctx);
        size_t total = 0;
        bool ovf = false;
        for (auto& sl : sd.subs) {
            ovf |= __builtin_add_overflow(total, sl.bytes_of_clear_data, &total);
            ovf |= __builtin_add_overflow(total, sl.bytes_of_protected_data, &total);
        }
        if (ovf) q.no("the subsample lengths overflow");
        if (sd.iv.size() != 16) q.no("the IV length is wrong");
        if (sd.subs.empty()) q.no("there are no subsamples");
        if (sd.crypt == 0 && sd.skip != 0) q.no("the pattern is invalid");
        if (m) {
            if (m->mode != SA_CIPHER_MODE_DECRYPT) q.no("the context does not decrypt");
            if (m->alg != SA_CIPHER_ALGORITHM_AES_CTR && m->alg != SA_CIPHER_ALGORITHM_AES_CBC) q.no("the algorithm is not a common-encryption one");
            if (!(m->key->rights.usage_flags & BIT(SA_USAGE_FLAG_DECRYPT))) q.denied("the key's usage flags do not allow it");
            window(q, o, m->key->rights, true, true);
            if (m->undef && (o.fault_mask || true) && m->done) q.maybe("context finished");
            if (m->undef) q.maybe("context state");
            if (sd.out.type == SA_BUFFER_TYPE_CLEAR) {
                if (sd.in.type != SA_BUFFER_TYPE_CLEAR) q.no("data of an SVP buffer would reach clear memory");
                if (!(m->key->rights.usage_flags & BIT(SA_USAGE_FLAG_SVP_OPTIONAL))) q.no("the key requires its output to stay in SVP memory");
            }
        }
        Bytes d;
        bool dk = true, in_ok = false;
        if (!ovf) {
            in_ok = sub_ap.input(sd.in, total, d, dk);
            sub_ap.output(sd.out, total, true);
        }
        if (total == 0) q.maybe("no data");
        if (sd.in.type == SA_BUFFER_TYPE_SVP && sd.out.type == SA_BUFFER_TYPE_SVP && sd.in.h == sd.out.h) {
            // in-place or overlapping: refused, or well separated
            size_t a = sd.in.off, b = sd.out.off;
            bool apart = a + total <= b || b + total <= a;
            if (!apart) q.no("input and output overlap");
            if (a + total == b || b + total == a) q.maybe("adjacent");
        }
        for (auto& sl : sd.subs)      // a CBC sample whose protected data is not whole blocks without pattern is unusual
            if (m && m->alg == SA_CIPHER_ALGORITHM_AES_CBC && !sd.crypt && sl.bytes_of_protected_data % 16) q.maybe("partial block");
        if (!succeeded) {
            c2 = q;
            return true;
        }
        if (!q.can) { why = "succeeded although " + q.why; return false; }
        bool known = dk && in_ok && m->key->known;
        if (known) {
            Bytes want = cenc_ref(m, sd, d);
            if (sd.out.type == SA_BUFFER_TYPE_CLEAR) {
                Bytes got = sub(sd.out.data, sd.out.off, total);
                if (got != want) { why = "sample differs: " + differ(got, want); return false; }
            } else svp_store(t, sd.out.h, sd.out.off, wide(want), o.id);
        } else if (sd.out.type == SA_BUFFER_TYPE_SVP) svp_store(t, sd.out.h, sd.out.off, std::vector<int16_t>(total, -1), o.id);
        if (sd.in.off_after != sd.in.off + total || sd.out.off_after != sd.out.off + total) {
            why = fmtv("offsets advanced by %zu and %zu, the sample has %zu bytes", sd.in.off_after - sd.in.off, sd.out.off_after - sd.out.off, total);
            return false;
        }
        auto nm = std::make_shared<CipM>(*m);
        nm->undef = true;            // the IV of the context is now that of the sample
        nm->ver = hcomb(nm->ver, o.id);
        t.ciphers[sd.ctx] = nm;
        return true;
    }
    void cenc() {
        State t = s;
        if (o.samples.empty()) c.no("there are no samples");
        size_t n = o.samples.size();
        if (ok) {
            if (!c.can) { verdict(); return; }
            Chk q;
            for (auto& sd : o.samples)
                if (!cenc_sample(t, sd, true, q)) return;
            out.push_back(std::move(t));
            return;
        }
        // the first k samples were done, the next one was refused
        size_t k = 0;
        auto moved = [&](const SampleD& sd) { return sd.out.off_after != sd.out.off; };
        while (k < n && moved(o.samples[k])) k++;
        Chk q;
        for (size_t i = 0; i < k; i++)
            if (!cenc_sample(t, o.samples[i], true, q)) return;
        if (k < n) {
            Chk r;
            std::string keep;
            if (!cenc_sample(t, o.samples[k], false, r)) return;
            why.clear();
            if (r.must && !excused && c.must) { why = fmtv("sample %zu refused (status %d) although it is valid", k, o.status); return; }
            if ((o.faults || r.can) && t.ciphers.count(o.samples[k].ctx)) {
                auto nm = std::make_shared<CipM>(*t.ciphers[o.samples[k].ctx]);
                nm->undef = true;
                nm->ver = hcomb(nm->ver, o.id);
                t.ciphers[o.samples[k].ctx] = nm;
                const BufD& b = o.samples[k].out;
                if (b.type == SA_BUFFER_TYPE_SVP && t.svps.count(b.h) && b.off <= t.svps[b.h]->c.size())
                    svp_store(t, b.h, b.off, std::vector<int16_t>(t.svps[b.h]->c.size() - b.off, -1), o.id);
            }
        } else if (!excused && n) { why = "refused although every sample was processed"; return; }
        out.push_back(std::move(t));
    }

    void run() {
        switch (o.kind) {
            case O_KGEN: kgen(); break;
            case O_KIMPORT: kimport(); break;
            case O_KUNWRAP: kunwrap(); break;
            case O_KDERIVE: kderive(); break;
            case O_KEXCH: kexch(); break;
            case O_KEXPORT: kexport(); break;
            case O_KHEADER: kheader(); break;
            case O_KDIGEST: kdigest(); break;
            case O_KPUBLIC: kpublic(); break;
            case O_KRELEASE: krelease(); break;
            case O_CINIT: cinit(); break;
            case O_CIV: civ(); break;
            case O_CPROC: cproc(false); break;
            case O_CLAST: cproc(true); break;
            case O_CREL: crel(); break;
            case O_MINIT: minit(); break;
            case O_MPROC: mproc(false); break;
            case O_MPKEY: mproc(true); break;
            case O_MCOMP: mcomp(); break;
            case O_MREL: mrel(); break;
            case O_SIGN: sign(); break;
            case O_RANDOM: random(); break;
            case O_SALLOC: salloc(); break;
            case O_SWRITE: swrite(); break;
            case O_SCOPY: scopy(); break;
            case O_SKCHECK: skcheck(); break;
            case O_SBCHECK: sbcheck(); break;
            case O_SREL: srel(false); break;
            case O_SFREE: srel(true); break;
            case O_CENC: cenc(); break;
            case O_OBS: observe(); break;
            case O_INFO: info(); break;
            case O_KPROV: kprov(); break;
            default: out.push_back(s);
        }
    }
};

States model_apply(const State& s, const Op& o, std::string& why) {
    why.clear();
    Ap a(s, o, why);
    a.run();
    ERR_clear_error();
    if (!a.out.empty()) why.clear();
    return std::move(a.out);
}

// ------------------------------------------------------------------ linearizability (Wing-Gong search with memoisation)
// A call that uses a key reads the key first and takes effect later; the key may be released in between.  When the
// release of a key is placed, the key therefore stays reachable, under an alias, for the calls that overlap the release.
static const uint64_t ALIAS = 0xA11A000000000000ULL;
static bool is_alias(uint64_t h) { return (h >> 48) == 0xA11A; }
static int key_refs(Op& o, uint64_t** r) {
    switch (o.kind) {
        case O_KUNWRAP: case O_KEXCH: case O_KDERIVE: r[0] = &o.h; r[1] = &o.h2; return 2;
        case O_KEXPORT: case O_KHEADER: case O_KDIGEST: case O_KPUBLIC: case O_CINIT: case O_MINIT: case O_SIGN:
        case O_SKCHECK: r[0] = &o.h; return 1;
        case O_MPKEY: r[0] = &o.h2; return 1;
        case O_KIMPORT:
            if (o.fmt != SA_KEY_FORMAT_TYPEJ) return 0;
            r[0] = &o.h; r[1] = &o.h2;
            return 2;
        default: return 0;
    }
}
struct Lin {
    std::vector<Op>& ops;
    std::vector<char> done;
    std::vector<int> prev;
    std::set<std::pair<uint64_t, uint64_t>> seen;
    uint64_t nodes = 0, limit = 60000;
    size_t best = 0;
    std::string best_why;
    const Op* best_op = nullptr;
    State end;
    bool inconclusive = false;
    explicit Lin(std::vector<Op>& o) : ops(o), done(o.size(), 0), prev(o.size(), -1) {
        for (size_t i = 0; i < o.size(); i++)
            if (o[i].after)
                for (size_t j = 0; j < o.size(); j++) if (o[j].id == o[i].after) prev[i] = (int) j;
    }
    uint64_t dhash = 0;
    bool overlap(const Op& a, const Op& b) { return a.t0 < b.t1 && b.t0 < a.t1; }
    States apply(const State& s, size_t i, std::string& why) {
        Op& o = ops[i];
        States nx = model_apply(s, o, why);
        // a call that overlapped the end of its session may have worked on a session already gone
        if (o.lenient) nx.push_back(s);
        if (o.kind == O_KRELEASE) {
            auto k = s.keys.find(o.h);
            if (k != s.keys.end())
                for (auto& t : nx) {
                    if (t.keys.count(o.h)) continue;
                    for (size_t j = 0; j < ops.size(); j++) {
                        uint64_t* r[2];
                        if (done[j] || j == i || !overlap(ops[j], o)) continue;
                        int n = key_refs(ops[j], r);
                        bool hit = false;
                        for (int q = 0; q < n; q++) hit |= *r[q] == o.h;
                        if (hit) { t.keys[ALIAS + i] = k->second; break; }
                    }
                }
            return nx;
        }
        auto a = s.keys.lower_bound(ALIAS);
        if (a == s.keys.end() || !is_alias(a->first)) return nx;
        uint64_t* r[2];
        Op v = o;
        int n = key_refs(v, r);
        if (!n) return nx;
        std::vector<uint64_t> alt[2];
        for (int q = 0; q < n; q++) {
            alt[q].push_back(*r[q]);
            for (auto k = a; k != s.keys.end() && is_alias(k->first); ++k) {
                const Op& rel = ops[k->first - ALIAS];
                if (rel.h == *r[q] && overlap(rel, o)) alt[q].push_back(k->first);
            }
        }
        for (size_t x = 0; x < alt[0].size(); x++)
            for (size_t y = 0; y < (n > 1 ? alt[1].size() : 1); y++) {
                if (!x && !y) continue;
                *r[0] = alt[0][x];
                if (n > 1) *r[1] = alt[1][y];
                std::string w;
                for (auto& t : model_apply(s, v, w)) nx.push_back(t);
                if (nx.empty() && o.status == 0) why = w;
            }
        return nx;
    }
    bool go(const State& s, size_t n) {
        if (n == ops.size()) {
            end = s;
            for (auto k = end.keys.lower_bound(ALIAS); k != end.keys.end() && is_alias(k->first);) k = end.keys.erase(k);
            return true;
        }
        if (++nodes > limit) { inconclusive = true; return true; }
        if (!seen.insert({dhash, s.hash()}).second) return false;
        // earliest return among the calls not yet placed bounds which may come next
        uint64_t bound = ~0ULL;
        for (size_t i = 0; i < ops.size(); i++) if (!done[i]) bound = std::min(bound, ops[i].t1);
        for (size_t i = 0; i < ops.size(); i++) {
            if (done[i]) continue;
            if (ops[i].t0 > bound) break;     // sorted by start
            if (prev[i] >= 0 && !done[prev[i]]) continue;
            std::string why;
            States nx = apply(s, i, why);
            if (nx.empty()) {
                if (n >= best) {
                    if (n > best || !best_op) { best = n; best_why = why; best_op = &ops[i]; }
                }
                continue;
            }
            done[i] = 1;
            uint64_t keep = dhash;
            dhash ^= Rng::mix(ops[i].id * 2 + 1);
            for (auto& t : nx)
                if (go(t, n + 1)) return true;
            dhash = keep;
            done[i] = 0;
        }
        return false;
    }
};
bool session_consistent(std::vector<Op>& ops, State start, std::string& why, State* end, uint64_t* nodes, const Op** culprit, bool* inconclusive) {
    for (auto& a : ops)
        for (auto& b : ops)
            if (a.id != b.id && a.t0 < b.t1 && b.t0 < a.t1) a.overlap++;
    // the client makes one request per sample of a common-encryption call
    std::vector<Op> split;
    for (auto& o : ops) {
        size_t n = o.samples.size();
        if (o.kind != O_CENC || n < 2) { split.push_back(o); continue; }
        size_t last = 0;
        if (o.status == SA_STATUS_OK) last = n - 1;
        else while (last + 1 < n && o.samples[last].out.off_after != o.samples[last].out.off) last++;
        for (size_t k = 0; k <= last; k++) {
            split.push_back(o);
            Op& p = split.back();
            p.samples = {o.samples[k]};
            if (k < last) p.status = SA_STATUS_OK;
            if (k) {
                p.after = split[split.size() - 2].id;
                p.id = o.id + ((uint64_t) k << 40);
            }
        }
    }
    ops.swap(split);
    std::stable_sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.t0 < b.t0; });
    Lin l(ops);
    bool r = l.go(start, 0);
    if (nodes) *nodes += l.nodes;
    if (inconclusive) *inconclusive = l.inconclusive;
    if (l.inconclusive) { if (end) *end = State(); return true; }
    if (r) { if (end) *end = l.end; return true; }
    why = l.best_why;
    if (culprit) *culprit = l.best_op;
    return false;
}

#include "gen.h"
#include <algorithm>
#include <openssl/err.h>

Mat M;
static uint64_t right_seq = 1;
static const int EC_CURVES[] = {SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_NIST_P256, SA_ELLIPTIC_CURVE_X25519, SA_ELLIPTIC_CURVE_ED25519,
        SA_ELLIPTIC_CURVE_NIST_P192, SA_ELLIPTIC_CURVE_NIST_P224, SA_ELLIPTIC_CURVE_NIST_P384, SA_ELLIPTIC_CURVE_X448, SA_ELLIPTIC_CURVE_ED448,
        SA_ELLIPTIC_CURVE_NIST_P521};

static void add_peer(const Pk& k, std::vector<Bytes>& to) {
    if (!k) return;
    auto m = std::make_shared<KeyM>();
    m->priv = m->pub = k;
    Bytes spki = pk_spki(k);
    M.known_peers[spki] = m;
    to.push_back(spki);
}
void mat_init() {
    const int bits[2] = {1024, 2048};
    for (int i = 0; i < 2; i++) {
        M.rsa[i] = pk_generate("RSA", bits[i]);
        M.rsa_p8[i] = pk_pkcs8(M.rsa[i]);
    }
    for (int c : EC_CURVES) {
        if (M.ec_raw.count(c)) continue;
        for (int i = 0; i < 2; i++) {
            Pk k = pk_generate("EC", c);
            if (!k) continue;
            M.ec_raw[c].push_back(pk_pkcs8(k));
            add_peer(pk_generate("EC", c), M.peers[c]);
        }
    }
    M.dh_p[0] = hexb("e890d3bb7b6fe3bcefd6c740866edd2bde762fb43ada3ebd40ce0255896dfc8c1d7b00b72d73b0c6116cffafdb90e8d6a300835d524c1b14e98d7907e7db384f");
    M.dh_p[1] = hexb("debd118206da7a0fc1de76670b2fe9c5035834cf97bcbc7845706dfab7a473dbe0c567698dba193105943fe202cb1b099821e1571ee3812ef6ba1c"
                     "91d99f42b0c77fc8dc7ed4a9dd16eac5024aaee98beb2d1f12546d18fb3c49294f22c00cad1f30a81d1bdc932eddc02fe5748574a6e9b1b4f66a9f76"
                     "1212b96d244332e51f");
    for (int i = 0; i < 2; i++) {
        M.dh_g[i] = Bytes{2};
        for (int j = 0; j < 2; j++) add_peer(pk_generate_dh(M.dh_p[i], M.dh_g[i]), M.dh_peers[i]);
    }
    ERR_clear_error();
}

// Identities of callers. In half of the runs they differ from each other (and from the identities that mean something: the rich
// execution environment, anybody, nobody) in one byte only.
static sa_uuid uuid_base;
static int uuid_pos = -1;
void uuid_setup(Rng& r) {
    uuid_pos = -1;
    if (r.chance(1, 2)) return;
    uuid_pos = (int) (r.chance(1, 2) ? (r.chance(1, 2) ? 15 : 0) : r.below(16));
    switch (r.below(3)) {
        case 0: for (auto& b : uuid_base.id) b = (uint8_t) r.next(); break;
        case 1: memset(&uuid_base, 0, sizeof uuid_base); uuid_base.id[15] = 1; break;
        default: memset(&uuid_base, 0xff, sizeof uuid_base); break;
    }
}
sa_uuid uuid_of(int proc) {
    sa_uuid u;
    memset(&u, 0, sizeof u);
    for (int i = 0; i < 16; i++) u.id[i] = (uint8_t) (0x21 + 17 * proc + i);
    if (uuid_pos >= 0) { u = uuid_base; u.id[uuid_pos] = (uint8_t) (0x21 + proc); }
    return u;
}
sa_uuid uuid_alt(int i) {
    sa_uuid u;
    memset(&u, 0x40 + i, sizeof u);
    u.id[0] = 9;
    if (uuid_pos >= 0) { u = uuid_base; u.id[uuid_pos] = (uint8_t) (0x40 + i); }
    return u;
}

// ------------------------------------------------------------------ environment
static const int64_t T0 = 1600000000;
void env_init(Rng& r, const Prof&) {
    G.env.clear();
    Env e;
    memset(&e, 0, sizeof e);
    e.time = T0 + (int64_t) r.below(1000);
    e.svp = true;
    G.env.push_back(e);
}
void env_step(Rng& r, const Prof&) {
    Env e = G.env.back();
    if (r.chance(1, 2)) {
        static const int64_t jumps[] = {1, 10, 50, 100, 1000, -1, -10, -50, -100, -1000, 100000000, -100000000};
        e.time += jumps[r.below(12)];
        if (e.time < 1000) e.time = 1000;
        if (r.chance(1, 3)) e.time = T0 + (int64_t) r.below(1000);
        count_fault(FK_CLOCK);
    } else {
        uint32_t* v[] = {&e.analog_unprotected, &e.analog_cgmsa, &e.digital_unprotected, &e.hdcp14, &e.hdcp22};
        unsigned k = (unsigned) r.below(7);
        if (k < 5) *v[k] = *v[k] ? 0 : 1 + (uint32_t) r.below(2);
        else if (k == 5) e.svp = !e.svp;
        else { for (auto* x : v) *x = 0; e.svp = true; }
        count_fault(FK_OUTPUT);
    }
    G.env.push_back(e);
    if (G.sh) {
        uint64_t d = (uint64_t) llabs(e.time - G.env[G.env.size() - 2].time);
        G.sh->sim_seconds += std::min<uint64_t>(d, 100000);
    }
    note("ENV time %lld analog %u/%u digital %u/%u/%u svp %d", (long long) e.time, e.analog_unprotected, e.analog_cgmsa,
            e.digital_unprotected, e.hdcp14, e.hdcp22, e.svp);
}

sa_rights gen_rights(Rng& r, const Prof& p, int proc) {
    char id[64];
    snprintf(id, sizeof id, "key-%llu", (unsigned long long) right_seq++);
    sa_rights q = rights_all(id);
    if (r.chance(p.no_svp_opt, 1000)) q.usage_flags &= ~BIT(SA_USAGE_FLAG_SVP_OPTIONAL);
    if (r.chance(p.unusual_rights, 1000)) {
        switch (r.below(4)) {
            case 0: q.usage_flags &= ~BIT(r.below(6)); break;
            case 1: q.usage_flags &= ~BIT(SA_USAGE_FLAG_CACHEABLE); break;
            case 2: {     // one permission only
                q.usage_flags &= ~SA_KEY_USAGE_MASK;
                q.usage_flags |= BIT(r.below(6));
                if (q.usage_flags & BIT(SA_USAGE_FLAG_UNWRAP) && r.chance(2, 3)) q.child_usage_flags = r.next() & SA_KEY_USAGE_MASK;
                break;
            }
            default: {
                uint64_t m = r.next() & (SA_KEY_USAGE_MASK | BIT(SA_USAGE_FLAG_CACHEABLE));
                q.usage_flags = (q.usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK) | m;
                if (r.chance(1, 3)) q.child_usage_flags = r.next() & SA_KEY_USAGE_MASK;
            }
        }
    }
    if (r.chance(p.output_rights, 1000)) {
        uint64_t m = r.chance(1, 2) ? ~0ULL : r.next();
        for (int i = 0; i < 2; i++) m &= ~BIT(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED + r.below(7));
        q.usage_flags &= m | ~SA_USAGE_OUTPUT_PROTECTIONS_MASK;
    }
    if (r.chance(p.windows, 1000)) {
        int64_t now = G.env.empty() ? T0 : G.env.back().time;
        switch (r.below(5)) {
            case 0: q.not_before = (uint64_t) (now + (int64_t) r.below(100)); break;
            case 1: q.not_on_or_after = (uint64_t) (now + (int64_t) r.below(100)); break;
            case 2: q.not_before = (uint64_t) now; break;
            case 3: q.not_on_or_after = (uint64_t) now + 1; break;
            default:
                q.not_before = (uint64_t) (now - 20 + (int64_t) r.below(40));
                q.not_on_or_after = q.not_before + r.below(100);
        }
    }
    if (r.chance(p.ta_rights, 1000)) {
        memset(q.allowed_tas, 0, sizeof q.allowed_tas);
        sa_uuid own = proc_uuid(proc);
        switch (r.below(5)) {
            case 0: q.allowed_tas[r.below(MAX_NUM_ALLOWED_TA_IDS)] = own; break;
            case 1: q.allowed_tas[0] = uuid_alt((int) r.below(3)); break;
            case 2: q.allowed_tas[0] = uuid_alt(1); q.allowed_tas[MAX_NUM_ALLOWED_TA_IDS - 1] = own; break;
            case 3: memset(&q.allowed_tas[5], 0xff, 16); break;
            default: q.allowed_tas[0] = uuid_of((int) r.below(NPROC)); break;
        }
    }
    return q;
}

// ------------------------------------------------------------------ choosing handles
static unsigned missed;            // kinds of handles of which the operation being made found no suitable one
static int want_key;               // what the key being made should be: 0 anything, 1 AES, 2 EC, 3 DH, 4 RSA
static bool want_cenc;             // what the cipher being made should be
template <class Map> static uint64_t any_of(Rng& r, const Map& m, const Prof& p) {
    if (m.empty()) return INVALID_HANDLE;
    size_t n = m.size();
    if (p.pool && n > (size_t) p.pool && r.chance(4, 5)) n = (size_t) p.pool;
    auto it = m.begin();
    std::advance(it, r.below(n));
    return it->first;
}
template <class Map, class F> static uint64_t pick(Rng& r, const Prof& p, int proc, const Map& own, int kind, F ok, std::function<const Map&(int)> of) {
    View& v = V[proc];
    if (r.chance(p.dead, 1000) && !v.dead[kind].empty()) return r.pick(v.dead[kind]);
    if (r.chance(p.wild, 1000)) {
        uint64_t h = any_of(r, own, p);
        switch (r.below(5)) {
            case 0: return INVALID_HANDLE;
            case 1: return r.next();
            case 2: return h ^ (1ULL << r.below(64));
            case 3: return h + (1ULL << 32);
            default: return r.below(300);
        }
    }
    if (r.chance(p.foreign, 1000)) {
        std::vector<int> o;
        for (int k = 0; k < NPROC; k++) if (k != proc && !of(k).empty()) o.push_back(k);
        if (!o.empty()) return any_of(r, of(r.pick(o)), p);
    }
    if (r.chance(30, 1000)) return any_of(r, own, p);
    std::vector<uint64_t> c;
    for (auto& kv : own) if (ok(kv.second)) c.push_back(kv.first);
    if (c.empty()) { missed |= 1u << kind; return any_of(r, own, p); }
    size_t n = c.size();
    if (p.pool && n > (size_t) p.pool && r.chance(4, 5)) n = (size_t) p.pool;
    return c[r.below(n)];
}
static sa_uuid caller(int proc) { return G.cur && G.cur->alt ? G.cur->alt_uuid : proc_uuid(proc); }
static bool mine(const sa_uuid& u, int proc) { sa_uuid c = caller(proc); return !memcmp(&u, &c, 16); }
static uint64_t pick_key(Rng& r, const Prof& p, int proc, std::function<bool(const KeyP&)> f) {
    typedef std::map<uint64_t, KeyP> T;
    return pick<T>(r, p, proc, V[proc].st.keys, 0, [&](const KeyP& k) { return mine(k->owner, proc) && f(k); },
            [](int k) -> const T& { return V[k].st.keys; });
}
static uint64_t pick_cipher(Rng& r, const Prof& p, int proc, std::function<bool(const CipP&)> f) {
    typedef std::map<uint64_t, CipP> T;
    return pick<T>(r, p, proc, V[proc].st.ciphers, 1, [&](const CipP& k) { return mine(k->owner, proc) && f(k); },
            [](int k) -> const T& { return V[k].st.ciphers; });
}
static uint64_t pick_mac(Rng& r, const Prof& p, int proc, std::function<bool(const MacP&)> f) {
    typedef std::map<uint64_t, MacP> T;
    return pick<T>(r, p, proc, V[proc].st.macs, 2, [&](const MacP& k) { return mine(k->owner, proc) && f(k); },
            [](int k) -> const T& { return V[k].st.macs; });
}
static uint64_t pick_svp(Rng& r, const Prof& p, int proc, std::function<bool(const SvpP&)> f) {
    typedef std::map<uint64_t, SvpP> T;
    return pick<T>(r, p, proc, V[proc].st.svps, 3, [&](const SvpP& k) { return mine(k->owner, proc) && f(k); },
            [](int k) -> const T& { return V[k].st.svps; });
}
static KeyP key_at(int proc, uint64_t h) { auto it = V[proc].st.keys.find(h); return it == V[proc].st.keys.end() ? nullptr : it->second; }
static CipP cip_at(int proc, uint64_t h) { auto it = V[proc].st.ciphers.find(h); return it == V[proc].st.ciphers.end() ? nullptr : it->second; }
static SvpP svp_at(int proc, uint64_t h) { auto it = V[proc].st.svps.find(h); return it == V[proc].st.svps.end() ? nullptr : it->second; }
static MacP mac_at(int proc, uint64_t h) { auto it = V[proc].st.macs.find(h); return it == V[proc].st.macs.end() ? nullptr : it->second; }

static bool flag(const KeyP& k, int f) { return (k->rights.usage_flags & BIT(f)) != 0; }
static bool is_sym(const KeyP& k) { return k->type == SA_KEY_TYPE_SYMMETRIC; }
static bool is_aes(const KeyP& k) { return is_sym(k) && (k->size == 16 || k->size == 32); }
static bool is_cc(const KeyP& k) { return is_sym(k) && k->size == 32; }

static size_t sym_len(Rng& r) {
    unsigned k = (unsigned) r.below(20);
    if (k < 8) return 16;
    if (k < 15) return 32;
    if (k < 18) return 16 + r.below(49);
    if (k == 18) return 512;
    return 16 + r.below(497);
}
static void random_buf(Rng& r, BufD& b, size_t need, bool input, const Bytes& content) {
    b.type = SA_BUFFER_TYPE_CLEAR;
    b.off = r.chance(1, 3) ? r.below(24) : 0;
    b.len = b.off + need + (r.chance(1, 3) ? r.below(24) : 0);
    if (input) {
        b.data = r.bytes(b.len);
        std::copy(content.begin(), content.end(), b.data.begin() + b.off);
    }
}
// an SVP buffer argument with room for need bytes
static bool svp_buf(Rng& r, const Prof& p, int proc, BufD& b, size_t need, uint64_t avoid = INVALID_HANDLE) {
    b.type = SA_BUFFER_TYPE_SVP;
    b.h = pick_svp(r, p, proc, [&](const SvpP& s) { return s->c.size() >= need; });
    if (b.h == avoid && r.chance(9, 10)) b.h = pick_svp(r, p, proc, [&](const SvpP& s) { return s->c.size() >= need; });
    SvpP s = svp_at(proc, b.h);
    if (!s) return b.h != INVALID_HANDLE;
    size_t room = s->c.size() >= need ? s->c.size() - need : 0;
    b.off = r.chance(1, 2) ? 0 : r.below(room + 1);
    return true;
}
static bool svp_known(int proc, const BufD& b, size_t n, Bytes& d) {
    SvpP s = svp_at(proc, b.h);
    if (!s || b.off > s->c.size() || n > s->c.size() - b.off) return false;
    d.clear();
    for (size_t i = 0; i < n; i++) {
        if (s->c[b.off + i] < 0) return false;
        d.push_back((uint8_t) s->c[b.off + i]);
    }
    return true;
}

// ------------------------------------------------------------------ keys
static int ec_curve(Rng& r, const Prof& p) { return EC_CURVES[r.chance(p.slow, 1000) ? r.below(10) : r.below(5)]; }

static void g_kgen(Rng& r, const Prof& p, int proc, Op& o) {
    o.rights = gen_rights(r, p, proc);
    unsigned k = (unsigned) r.below(100);
    if (want_key) k = want_key == 1 ? 0 : want_key == 2 ? 80 : want_key == 3 ? 90 : 99;
    if (k < 60) { o.type = SA_KEY_TYPE_SYMMETRIC; o.n = sym_len(r); }
    else if (k < 88) { o.type = SA_KEY_TYPE_EC; o.curve = ec_curve(r, p); }
    else if (k < 96 || (want_key != 4 && !r.chance(p.slow, 1000))) {
        o.type = SA_KEY_TYPE_DH;
        int i = r.chance(1, 4);
        o.p1 = M.dh_p[i];
        o.p2 = M.dh_g[i];
    } else { o.type = SA_KEY_TYPE_RSA; o.n = 128; }
}
// where to damage stored data: ends of it more often than the middle
static size_t tpos(Rng& r, size_t n) {
    size_t w = std::min<size_t>(n, 16u << r.below(5));
    switch (r.below(4)) {
        case 0: return r.below(w);
        case 1: return n - 1 - r.below(w);
        default: return r.below(n);
    }
}
static void g_kimport(Rng& r, const Prof& p, int proc, Op& o) {
    o.rights = gen_rights(r, p, proc);
    unsigned k = (unsigned) r.below(100);
    bool blobs = !V[proc].st.blobs->empty() || !W.blobs.empty();
    if (want_key == 1) { o.fmt = SA_KEY_FORMAT_SYMMETRIC_BYTES; o.in = r.bytes(r.chance(1, 2) ? 16 : 32); return; }
    if (want_key == 4) k = 99;
    if (want_key == 2) k = 90;
    if (p.sealed && !want_key && r.chance(1, 2) && sealed_make(r, p, proc, o)) return;
    if (blobs && k < 30 && !want_key) {
        o.fmt = SA_KEY_FORMAT_EXPORTED;
        std::vector<const Bytes*> all;
        for (auto& b : *V[proc].st.blobs) all.push_back(&b.first);
        for (auto& b : W.blobs) all.push_back(&b.first);
        o.in = *r.pick(all);
        if (r.chance(p.tamper, 1000)) {
            count_fault(FK_CORRUPT);
            const Bytes& other = *r.pick(all);
            switch (r.below(10)) {
                case 0: case 7: case 8: case 9: o.in[tpos(r, o.in.size())] ^= (uint8_t) (1u << r.below(8)); break;
                case 1: o.in.resize(r.below(o.in.size())); break;
                case 2: o.in.resize(o.in.size() + 1 + r.below(40)); break;
                case 3: {      // torn: front of one, rest of another
                    size_t at = tpos(r, std::min(o.in.size(), other.size()));
                    o.in.resize(at);
                    o.in.insert(o.in.end(), other.begin() + at, other.end());
                    break;
                }
                case 4: {      // a stretch lost
                    size_t at = tpos(r, o.in.size()), n = 1 + r.below(64);
                    for (size_t i = at; i < at + n && i < o.in.size(); i++) o.in[i] = 0;
                    break;
                }
                case 5: {      // a stretch of another container
                    size_t at = tpos(r, std::min(o.in.size(), other.size())), n = 1 + r.below(64);
                    for (size_t i = at; i < at + n && i < o.in.size() && i < other.size(); i++) o.in[i] = other[i];
                    break;
                }
                default:
                    for (size_t i = r.below(8) + 1; i; i--) o.in[r.below(o.in.size())] = (uint8_t) r.next();
            }
        }
    } else if (k < 82) { o.fmt = SA_KEY_FORMAT_SYMMETRIC_BYTES; o.in = r.bytes(sym_len(r)); }
    else if (k < 95) {
        o.fmt = SA_KEY_FORMAT_EC_PRIVATE_BYTES;
        o.curve = ec_curve(r, p);
        o.in = M.ec_raw[o.curve].empty() ? r.bytes(32) : r.pick(M.ec_raw[o.curve]);
    } else {
        o.fmt = SA_KEY_FORMAT_RSA_PRIVATE_KEY_INFO;
        o.in = M.rsa_p8[r.chance(p.slow, 1000)];
    }
}
static Bytes asym_cipher(Rng& r, int proc, const KeyP& k, int alg, int dig, int dig2, const Bytes& label, const Bytes& pt) {
    (void) proc;
    Bytes ct;
    NoPreempt np;
    if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) ct = elgamal_encrypt(k->pub, k->curve, pt, r);
    else ct = rsa_encrypt(k->pub, alg, dig, dig2, label, pt);
    if (!ct.empty()) {
        Bytes par{(uint8_t) alg, (uint8_t) dig, (uint8_t) dig2};
        par.insert(par.end(), label.begin(), label.end());
        W.asym[ct] = {pk_spki(k->pub), {par, pt}};
    }
    return ct;
}
static void tamper1(Rng& r, Bytes& b) {
    if (b.empty()) return;
    count_fault(FK_CORRUPT);
    b[r.below(b.size())] ^= (uint8_t) (1u << r.below(8));
}
static void g_kunwrap(Rng& r, const Prof& p, int proc, Op& o) {
    o.rights = gen_rights(r, p, proc);
    unsigned want = (unsigned) r.below(10);
    o.h = pick_key(r, p, proc, [&](const KeyP& k) {
        if (!flag(k, SA_USAGE_FLAG_UNWRAP)) return false;
        if (want < 7) return is_aes(k);
        if (want == 7) return k->type == SA_KEY_TYPE_RSA && k->pub;
        if (want == 8) return k->type == SA_KEY_TYPE_EC && curve_nist(k->curve) && k->pub;
        return true;
    });
    KeyP k = key_at(proc, o.h);
    o.type = SA_KEY_TYPE_SYMMETRIC;
    o.n2 = 16;
    Bytes v = r.bytes(sym_len(r));
    Bytes key = k && k->known ? k->val : r.bytes(16);
    if (k && k->type == SA_KEY_TYPE_RSA) {
        o.alg = r.chance(1, 2) ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
        v = r.bytes(16 + 16 * r.below(2));
        if (o.alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
            o.dig = (int) r.below(2);
            o.dig2 = (int) r.below(2);
            if (r.chance(1, 3)) o.p1 = r.bytes(1 + r.below(20));
        }
        if (k->pub) o.in = asym_cipher(r, proc, k, o.alg, o.dig, o.dig2, o.p1, v);
        else o.in = r.bytes(k->size);
    } else if (k && k->type == SA_KEY_TYPE_EC) {
        o.alg = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
        size_t cs = k->size;
        o.n2 = 16;
        o.n = cs > 16 ? r.below(cs - 16 + 1) : 0;
        if (k->pub && curve_nist(k->curve)) {
            Bytes pt;
            for (int i = 0; i < 20 && o.in.empty(); i++) {
                pt = r.bytes(cs);
                pt[0] = 0;
                o.in = asym_cipher(r, proc, k, o.alg, 0, 0, {}, pt);
            }
        }
        if (o.in.empty()) o.in = r.bytes(4 * cs);
    } else {
        static const int algs[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC,
                SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM,
                SA_CIPHER_ALGORITHM_CHACHA20, SA_CIPHER_ALGORITHM_CHACHA20_POLY1305};
        o.alg = algs[r.below(k && k->size == 32 ? 8 : 6)];
        bool pad = o.alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || o.alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
        bool whole = o.alg == SA_CIPHER_ALGORITHM_AES_ECB || o.alg == SA_CIPHER_ALGORITHM_AES_CBC;
        unsigned t = (unsigned) r.below(10);
        if (t == 0 && !whole) { o.type = SA_KEY_TYPE_RSA; v = M.rsa_p8[0]; }
        else if (t == 1) {
            o.type = SA_KEY_TYPE_EC;
            o.curve = ec_curve(r, p);
            v = M.ec_raw[o.curve].empty() ? r.bytes(32) : r.pick(M.ec_raw[o.curve]);
        }
        if (whole && v.size() % 16) v.resize(o.type == SA_KEY_TYPE_EC ? (v.size() + 15) / 16 * 16 : v.size() / 16 * 16);
        Bytes pv = pad ? r_pad(v) : v;
        switch (o.alg) {
            case SA_CIPHER_ALGORITHM_AES_ECB: case SA_CIPHER_ALGORITHM_AES_ECB_PKCS7: o.in = r_aes("ecb", true, key, {}, pv); break;
            case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7:
                o.p1 = r.bytes(16);
                o.in = r_aes("cbc", true, key, o.p1, pv);
                break;
            case SA_CIPHER_ALGORITHM_AES_CTR: o.p1 = r.bytes(16); o.in = r_aes("ctr", true, key, o.p1, pv); break;
            case SA_CIPHER_ALGORITHM_CHACHA20: {
                o.p1 = r.bytes(12);
                o.p2 = Bytes{(uint8_t) r.below(5), 0, 0, 0};
                Bytes iv = o.p2;
                iv.insert(iv.end(), o.p1.begin(), o.p1.end());
                o.in = r_crypt(EVP_chacha20(), true, key.size() == 32 ? key : Bytes(32), iv, pv);
                break;
            }
            default: {
                bool cc = o.alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
                o.p1 = r.bytes(12);
                if (r.chance(2, 3)) o.p2 = r.bytes(1 + r.below(40));
                o.in = r_aead(cc, true, cc && key.size() != 32 ? Bytes(32) : key, o.p1, o.p2, pv, &o.p3);
                if (!cc && r.chance(1, 4)) o.p3.resize(4 + r.below(12));
                if (r.chance(p.tamper, 1000)) {
                    switch (r.below(4)) {
                        case 0: tamper1(r, o.in); break;
                        case 1: tamper1(r, o.p3); break;
                        case 2: tamper1(r, o.p1); break;
                        default: if (o.p2.empty()) { o.p2 = r.bytes(1 + r.below(8)); count_fault(FK_CORRUPT); } else tamper1(r, o.p2);
                    }
                }
            }
        }
    }
    if (r.chance(p.bad, 4000)) o.in.resize(r.below(o.in.size() + 1));
}
static void g_kderive(Rng& r, const Prof& p, int proc, Op& o) {
    o.rights = gen_rights(r, p, proc);
    static const int algs[] = {SA_KDF_ALGORITHM_HKDF, SA_KDF_ALGORITHM_HKDF, SA_KDF_ALGORITHM_CONCAT, SA_KDF_ALGORITHM_ANSI_X963, SA_KDF_ALGORITHM_CMAC,
            SA_KDF_ALGORITHM_NETFLIX, SA_KDF_ALGORITHM_ROOT_KEY_LADDER, SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER};
    o.alg = algs[r.below(8)];
    o.dig = (int) r.below(4);
    o.n = sym_len(r);
    auto der = [&](std::function<bool(const KeyP&)> f) { return pick_key(r, p, proc, [&](const KeyP& k) { return flag(k, SA_USAGE_FLAG_DERIVE) && is_sym(k) && f(k); }); };
    if (r.chance(1, 2)) o.p1 = r.bytes(r.below(40));
    if (r.chance(2, 3)) o.p2 = r.bytes(r.below(40));
    switch (o.alg) {
        case SA_KDF_ALGORITHM_CMAC:
            o.h = der(is_aes);
            o.n2 = 1 + r.below(4);
            o.n = 16 * (1 + r.below(5 - o.n2));
            break;
        case SA_KDF_ALGORITHM_NETFLIX:
            o.h = der([](const KeyP& k) { return k->size == 16; });
            o.h2 = der([](const KeyP& k) { return k->size == 32; });
            break;
        case SA_KDF_ALGORITHM_ROOT_KEY_LADDER: case SA_KDF_ALGORITHM_COMMON_ROOT_KEY_LADDER: {
            // few distinct inputs, so that results of different calls can be compared
            Rng q(40 + r.below(4));
            o.p1 = q.bytes(16);
            o.p2 = q.bytes(16);
            o.p3 = q.bytes(16);
            o.p4 = q.bytes(16);
            break;
        }
        default: o.h = der([](const KeyP&) { return true; });
    }
}
// another party whose shared secret with this key begins with a zero byte
template <class F> static void leading_zero(const KeyP& k, Bytes& spki, F make) {
    for (int i = 0; i < 400; i++) {
        Pk q = make();
        if (!q) return;
        Bytes s = pk_ecdh(q, k->pub);
        if (s.empty()) return;
        if (s[0]) continue;
        auto m = std::make_shared<KeyM>();
        m->priv = m->pub = q;
        spki = pk_spki(q);
        W.sealed[spki] = m;
        return;
    }
}
static void g_kexch(Rng& r, const Prof& p, int proc, Op& o) {
    o.rights = gen_rights(r, p, proc);
    bool dh = r.chance(1, 3);
    if (dh) want_key = 3;
    o.h = pick_key(r, p, proc, [&](const KeyP& k) {
        return flag(k, SA_USAGE_FLAG_KEY_EXCHANGE) && (dh ? k->type == SA_KEY_TYPE_DH : k->type == SA_KEY_TYPE_EC && !curve_ed(k->curve));
    });
    KeyP k = key_at(proc, o.h);
    o.alg = SA_KEY_EXCHANGE_ALGORITHM_ECDH;
    if (k && k->type == SA_KEY_TYPE_DH) {
        o.alg = r.chance(1, 2) ? SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH : SA_KEY_EXCHANGE_ALGORITHM_DH;
        int i = k->p == M.dh_p[1];
        if (r.chance(1, 40)) i = !i;
        o.in = r.pick(M.dh_peers[i]);
        if (k->pub && r.chance(1, i ? 60 : 12)) leading_zero(k, o.in, [&] { return pk_generate_dh(M.dh_p[i], M.dh_g[i]); });
    } else {
        int c = k && k->type == SA_KEY_TYPE_EC ? k->curve : SA_ELLIPTIC_CURVE_NIST_P256;
        if (r.chance(1, 40)) c = SA_ELLIPTIC_CURVE_NIST_P256;
        o.in = M.peers[c].empty() ? r.bytes(91) : r.pick(M.peers[c]);
        if (k && k->pub && c == k->curve && (c == SA_ELLIPTIC_CURVE_NIST_P256 || c == SA_ELLIPTIC_CURVE_X25519) && r.chance(1, 20))
            leading_zero(k, o.in, [&] { return pk_generate("EC", c); });
    }
    if (o.alg == SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH) {
        o.h2 = pick_key(r, p, proc, [](const KeyP& x) { return flag(x, SA_USAGE_FLAG_DERIVE) && is_sym(x) && x->size == 16; });
        o.rights2 = gen_rights(r, p, proc);
        o.rights3 = gen_rights(r, p, proc);
    }
    if (r.chance(p.bad, 2000) && !o.in.empty()) {
        if (r.chance(1, 2)) o.in.resize(r.below(o.in.size()));
        else o.in[r.below(o.in.size())] ^= 1;
    }
}

// ------------------------------------------------------------------ ciphers
static void g_cinit(Rng& r, const Prof& p, int proc, Op& o) {
    static const int algs[] = {SA_CIPHER_ALGORITHM_AES_ECB, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, SA_CIPHER_ALGORITHM_AES_CBC, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7,
            SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_GCM, SA_CIPHER_ALGORITHM_AES_CTR, SA_CIPHER_ALGORITHM_AES_CBC};
    o.mode = r.chance(1, 2) ? SA_CIPHER_MODE_ENCRYPT : SA_CIPHER_MODE_DECRYPT;
    bool cenc = want_cenc || (p.w[O_CENC] > 20 && r.chance(4, 5));
    if (cenc) o.mode = SA_CIPHER_MODE_DECRYPT;
    int fl = o.mode == SA_CIPHER_MODE_ENCRYPT ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT;
    unsigned t = (unsigned) r.below(20);
    if (cenc) t = 6 + t % 14;
    bool anyc = r.chance(p.bad, 1000);
    o.h = pick_key(r, p, proc, [&](const KeyP& k) {
        if (!flag(k, fl)) return false;
        if (t == 0) return k->type == SA_KEY_TYPE_RSA;
        if (t == 1) return k->type == SA_KEY_TYPE_EC && (anyc || curve_nist(k->curve));
        if (t < 6) return is_cc(k);
        return is_aes(k);
    });
    KeyP k = key_at(proc, o.h);
    if (k && k->type == SA_KEY_TYPE_RSA) {
        o.alg = r.chance(1, 2) ? SA_CIPHER_ALGORITHM_RSA_OAEP : SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
        if (!r.chance(p.bad, 1000)) o.mode = SA_CIPHER_MODE_DECRYPT;
        if (o.alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
            o.dig = (int) r.below(2);
            o.dig2 = (int) r.below(2);
            if (r.chance(1, 3)) o.p1 = r.bytes(1 + r.below(20));
        }
        return;
    }
    if (k && k->type == SA_KEY_TYPE_EC) {
        o.alg = SA_CIPHER_ALGORITHM_EC_ELGAMAL;
        if (!r.chance(p.bad, 1000)) o.mode = SA_CIPHER_MODE_DECRYPT;
        return;
    }
    o.alg = algs[r.below(6)];
    if (cenc) o.alg = r.chance(1, 2) ? SA_CIPHER_ALGORITHM_AES_CTR : SA_CIPHER_ALGORITHM_AES_CBC;
    else if (k && k->size == 32 && r.chance(1, 3)) o.alg = r.chance(1, 2) ? SA_CIPHER_ALGORITHM_CHACHA20 : SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    switch (o.alg) {
        case SA_CIPHER_ALGORITHM_AES_CBC: case SA_CIPHER_ALGORITHM_AES_CBC_PKCS7: case SA_CIPHER_ALGORITHM_AES_CTR: o.p1 = r.bytes(16); break;
        case SA_CIPHER_ALGORITHM_CHACHA20:
            o.p1 = r.bytes(12);
            o.p2 = Bytes{(uint8_t) r.below(4), 0, 0, 0};
            break;
        case SA_CIPHER_ALGORITHM_AES_GCM: case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
            o.p1 = r.bytes(12);
            if (r.chance(2, 3)) o.p2 = r.bytes(r.below(50));
            break;
    }
    if (o.alg == SA_CIPHER_ALGORITHM_AES_CTR && r.chance(1, 4)) for (int i = 8; i < 16; i++) o.p1[i] = i == 15 ? (uint8_t) (0xff - r.below(4)) : 0xff;
}
static void set_out(Rng& r, const Prof& p, int proc, Op& o, bool need_svp, size_t room, BufD& b, uint64_t avoid) {
    if ((need_svp || r.chance(p.out_svp, 1000)) && svp_buf(r, p, proc, b, room, avoid)) return;
    b = BufD();
    random_buf(r, b, room, false, {});
    (void) o;
}
static void g_cproc(Rng& r, const Prof& p, int proc, Op& o) {
    bool last = o.kind == O_CLAST;
    auto lastable = [](int a) {
        return a == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 || a == SA_CIPHER_ALGORITHM_AES_GCM ||
               a == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 || a == SA_CIPHER_ALGORITHM_AES_CTR || a == SA_CIPHER_ALGORITHM_CHACHA20;
    };
    o.h = pick_cipher(r, p, proc, [&](const CipP& c) { return (!last || lastable(c->alg)) && (!c->done || r.chance(1, 20)); });
    CipP m = cip_at(proc, o.h);
    int alg = m ? m->alg : SA_CIPHER_ALGORITHM_AES_CTR;
    bool enc = m && m->mode == SA_CIPHER_MODE_ENCRYPT;
    bool pad = alg == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7;
    bool blk = pad || alg == SA_CIPHER_ALGORITHM_AES_ECB || alg == SA_CIPHER_ALGORITHM_AES_CBC;
    bool aead = alg == SA_CIPHER_ALGORITHM_AES_GCM || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
    bool pk = alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || alg == SA_CIPHER_ALGORITHM_RSA_OAEP || alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
    Bytes d;
    size_t room;
    if (pk && m) {
        KeyP k = m->key;
        size_t cs = k->size;
        if (k->pub) {
            Bytes pt = alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? r.bytes(cs) : r.bytes(1 + r.below(32));
            if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
                for (int i = 0; i < 20 && d.empty(); i++) { pt = r.bytes(cs); pt[0] = 0; d = asym_cipher(r, proc, k, alg, 0, 0, {}, pt); }
            } else d = asym_cipher(r, proc, k, alg, m->dig, m->dig2, m->label, pt);
        }
        if (d.empty()) d = r.bytes(alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL ? 4 * cs : cs);
        if (r.chance(p.bad, 2000)) d[r.below(d.size())] ^= 4;
        o.n = d.size();
        room = cs;
        random_buf(r, o.bi, o.n, true, d);
        random_buf(r, o.bo, room, false, {});
        return;
    }
    size_t n;
    if (last) {
        if (pad) n = enc ? r.below(17) : 16;
        else n = r.below(17);
        if (alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 || alg == SA_CIPHER_ALGORITHM_CHACHA20 || alg == SA_CIPHER_ALGORITHM_AES_CTR) n = r.below(17);
    } else if (blk) n = 16 * (1 + (r.chance(p.big, 20000) ? 4096 + r.below(500) : r.below(r.chance(p.big, 1000) ? 200 : 6)));
    else n = 1 + (r.chance(p.big, 20000) ? 65536 + r.below(5000) : r.below(r.chance(p.big, 1000) ? 4000 : 90));
    o.n = n;
    room = last && pad && enc ? (n / 16 + 1) * 16 : n;
    d = r.bytes(n);
    if (last && pad && !enc && m && m->key->known && !m->unk && r.chance(9, 10)) {
        Bytes pt = r_pad(r.bytes(r.below(16)));
        Bytes prev = m->iv;
        if (m->data.size() >= 16) prev = Bytes(m->data.end() - 16, m->data.end());
        d = r_aes(alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 ? "cbc" : "ecb", true, m->key->val, alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 ? prev : Bytes(), pt);
    }
    bool svp_ok = !aead;
    bool need_svp = m && !flag(m->key, SA_USAGE_FLAG_SVP_OPTIONAL) && r.chance(9, 10);
    Bytes content = d;
    if ((svp_ok || r.chance(1, 20)) && r.chance(p.in_svp, 1000) && svp_buf(r, p, proc, o.bi, n)) {
        if (!svp_known(proc, o.bi, n, content)) content = Bytes(n);
        if (r.chance(19, 20)) need_svp = true;
    } else {
        o.bi = BufD();
        random_buf(r, o.bi, n, true, d);
    }
    if (svp_ok || r.chance(1, 20)) set_out(r, p, proc, o, need_svp, room, o.bo, o.bi.type == SA_BUFFER_TYPE_SVP ? o.bi.h : INVALID_HANDLE);
    else random_buf(r, o.bo, room, false, {});
    if (last && aead && m) {
        size_t tl = alg == SA_CIPHER_ALGORITHM_AES_GCM && r.chance(1, 4) ? 4 + r.below(13) : 16;
        if (enc) o.p1 = Bytes(tl, 0x33);
        else if (m->key->known) {
            Bytes all = m->data;
            all.insert(all.end(), content.begin(), content.end());
            r_aead(alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305, false, m->key->val, m->iv, m->aad, all, &o.p1);
            o.p1.resize(tl);
            if (r.chance(p.tamper, 1000)) {
                if (r.chance(1, 2) || o.bi.data.empty() || n == 0) tamper1(r, o.p1);
                else { count_fault(FK_CORRUPT); o.bi.data[o.bi.off + r.below(n)] ^= (uint8_t) (1u << r.below(8)); }
            }
        } else o.p1 = r.bytes(16);
    }
    if (r.chance(p.lenq, 1000)) o.bo.null = true;
}
static void spoil_buf(Rng& r, int proc, BufD& b) {
    if (b.type == SA_BUFFER_TYPE_SVP && r.chance(1, 3)) {       // a little past the end
        SvpP v = svp_at(proc, b.h);
        if (v && v->c.size()) { b.off = v->c.size() - r.below(std::min<size_t>(v->c.size(), 32) + 1); return; }
    }
    switch (r.below(7)) {
        case 6: b.odd = r.chance(1, 2) ? 2 + (uint32_t) r.below(3) : (uint32_t) r.next() | 4; break;
        case 0: b.off = ~(size_t) 0 - r.below(20); break;
        case 1: b.off = b.type == SA_BUFFER_TYPE_SVP ? b.off + 500 : b.len - r.below(std::min<size_t>(b.len + 1, 8)); break;
        case 2: if (b.type == SA_BUFFER_TYPE_CLEAR && b.len) { size_t cut = r.below(std::min<size_t>(b.len, 20)) + 1; b.len -= cut; if (!b.data.empty()) b.data.resize(b.len); } else b.off += 7; break;
        case 3: b.off = (size_t) 1 << (31 + r.below(32)); break;
        case 4: if (b.type == SA_BUFFER_TYPE_SVP) b.h ^= 1ULL << r.below(40); else b.off = b.len + 1; break;
        default: b.off = (size_t) 0 - (b.len + 1); break;
    }
}
static void g_svp_ranges(Rng& r, std::vector<sa_svp_offset>& v, size_t out_size, size_t in_size, size_t count) {
    for (size_t i = 0; i < count; i++) {
        sa_svp_offset f;
        size_t mx = std::min(out_size, in_size);
        f.length = mx ? 1 + r.below(mx) : 1;
        f.out_offset = r.below(out_size - std::min(out_size, f.length) + 1);
        f.in_offset = r.below(in_size - std::min(in_size, f.length) + 1);
        v.push_back(f);
    }
}
static void spoil_range(Rng& r, sa_svp_offset& f, size_t out_size, size_t in_size) {
    if (r.chance(1, 3)) {       // a little past the end of one of them
        size_t n = 1 + r.below(std::min(f.length, (size_t) 32));
        if (r.chance(1, 2)) f.out_offset = out_size - std::min(out_size, f.length) + n;
        else f.in_offset = in_size - std::min(in_size, f.length) + n;
        return;
    }
    size_t* x[] = {&f.out_offset, &f.in_offset, &f.length};
    size_t& y = *x[r.below(3)];
    switch (r.below(4)) {
        case 0: y = ~(size_t) 0 - r.below(600); break;
        case 1: y += 1000; break;
        case 2: y = (size_t) 1 << (20 + r.below(44)); break;
        default: y = (size_t) 0 - f.length; break;
    }
}
static void g_cenc(Rng& r, const Prof& p, int proc, Op& o) {
    size_t n = 1 + (r.chance(1, 2) ? r.below(4) : 0);
    for (size_t i = 0; i < n; i++) {
        SampleD d;
        d.ctx = pick_cipher(r, p, proc, [&](const CipP& c) {
            return c->mode == SA_CIPHER_MODE_DECRYPT && (c->alg == SA_CIPHER_ALGORITHM_AES_CTR || c->alg == SA_CIPHER_ALGORITHM_AES_CBC) &&
                   (!c->done || r.chance(1, 20));
        });
        CipP m = cip_at(proc, d.ctx);
        bool cbc = m && m->alg == SA_CIPHER_ALGORITHM_AES_CBC;
        d.iv = r.bytes(16);
        if (r.chance(1, 3)) for (int j = 8; j < 16; j++) d.iv[j] = j == 15 ? (uint8_t) (0xff - r.below(4)) : 0xff;
        if (r.chance(1, 2)) { d.crypt = 1 + r.below(5); d.skip = r.below(10); }
        // pattern lengths far beyond the sample, up to where a number of bytes no longer fits
        static const size_t huge[] = {100, 65536, (size_t) 1 << 31, (size_t) 1 << 32, (size_t) 1 << 59, (size_t) 1 << 60, ((size_t) 1 << 60) + 1, (size_t) 1 << 63, SIZE_MAX};
        if (d.crypt && r.chance(1, 8)) d.crypt = huge[r.below(9)];
        if (d.crypt && r.chance(1, 8)) d.skip = huge[r.below(9)];
        size_t subs = 1 + r.below(4), total = 0;
        for (size_t j = 0; j < subs; j++) {
            sa_subsample_length l;
            l.bytes_of_clear_data = r.chance(1, 4) ? 0 : r.below(40);
            l.bytes_of_protected_data = r.chance(1, 6) ? 0 : (cbc && !r.chance(1, 10) && !d.crypt) || r.chance(1, 2) ? 16 * r.below(14) : r.below(220);
            total += l.bytes_of_clear_data + l.bytes_of_protected_data;
            d.subs.push_back(l);
        }
        bool need_svp = m && !flag(m->key, SA_USAGE_FLAG_SVP_OPTIONAL) && r.chance(19, 20);
        if (r.chance(p.in_svp, 1000) && svp_buf(r, p, proc, d.in, total)) { if (r.chance(19, 20)) need_svp = true; }
        else { d.in = BufD(); random_buf(r, d.in, total, true, r.bytes(total)); }
        set_out(r, p, proc, o, need_svp, total, d.out, d.in.type == SA_BUFFER_TYPE_SVP ? d.in.h : INVALID_HANDLE);
        if (r.chance(p.bad, 1000)) {
            switch (r.below(6)) {
                case 0: spoil_buf(r, proc, d.in); break;
                case 1: spoil_buf(r, proc, d.out); break;
                case 2: d.subs[r.below(subs)].bytes_of_protected_data = ~(size_t) 0 - r.below(100); break;
                case 3: d.subs[r.below(subs)].bytes_of_clear_data = (size_t) 1 << (31 + r.below(33)); break;
                case 4: d.crypt = 0; d.skip = 1 + r.below(9); break;
                default:
                    if (subs > 1) { d.subs[0].bytes_of_clear_data = ~(size_t) 0 - 20; d.subs[1].bytes_of_clear_data = 21 + r.below(40); }
                    else d.iv.resize(r.below(20));
            }
        }
        o.samples.push_back(d);
    }
}

void gen_kind(Rng& r, const Prof& p, int proc, int kind, Op& o) {
    o.proc = proc;
    o.kind = kind;
    auto any_key = [&] { return pick_key(r, p, proc, [](const KeyP&) { return true; }); };
    switch (kind) {
        case O_KGEN: g_kgen(r, p, proc, o); break;
        case O_KIMPORT: g_kimport(r, p, proc, o); break;
        case O_KUNWRAP: g_kunwrap(r, p, proc, o); break;
        case O_KDERIVE: g_kderive(r, p, proc, o); break;
        case O_KEXCH: g_kexch(r, p, proc, o); break;
        case O_KEXPORT:
            o.h = pick_key(r, p, proc, [](const KeyP& k) { return flag(k, SA_USAGE_FLAG_CACHEABLE); });
            o.null1 = r.chance(1, 2);
            if (!o.null1) o.p1 = r.bytes(16);
            o.nullout = r.chance(p.lenq, 1000);
            o.n = r.chance(p.bad, 1000);
            if (r.chance(p.bad, 4000)) { o.null1 = false; o.p1 = r.bytes(r.below(40)); if (o.p1.empty()) o.null1 = true; }
            break;
        case O_KHEADER: o.h = any_key(); break;
        case O_KDIGEST:
            o.h = pick_key(r, p, proc, is_sym);
            o.dig = (int) r.below(4);
            o.cap = r_dlen(o.dig) + (r.chance(1, 4) ? r.below(20) : 0);
            o.nullout = r.chance(p.lenq, 1000);
            if (r.chance(p.bad, 2000)) o.cap = r.below(20);
            break;
        case O_KPUBLIC:
            o.h = pick_key(r, p, proc, [](const KeyP& k) { return !is_sym(k); });
            o.nullout = r.chance(p.lenq, 1000);
            o.n = r.chance(p.bad, 1000);
            break;
        case O_KRELEASE: o.h = any_key(); break;
        case O_CINIT: g_cinit(r, p, proc, o); break;
        case O_CIV:
            o.h = pick_cipher(r, p, proc, [](const CipP& c) {
                return c->alg == SA_CIPHER_ALGORITHM_AES_CBC || c->alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 || c->alg == SA_CIPHER_ALGORITHM_AES_CTR;
            });
            o.p1 = r.bytes(16);
            if (r.chance(p.bad, 2000)) o.p1.resize(r.below(16) + 1);
            break;
        case O_CPROC: case O_CLAST: {
            g_cproc(r, p, proc, o);
            if (r.chance(p.bad, 1000)) {
                switch (r.below(6)) {
                    case 0: spoil_buf(r, proc, o.bi); break;
                    case 1: spoil_buf(r, proc, o.bo); break;
                    case 2: o.n += 1 + r.below(3); break;
                    case 3: o.n = ~(size_t) 0 - r.below(100); break;
                    case 4: o.bi.type = (int) r.below(2); if (o.bi.type == 0) { o.bi.data.resize(o.bi.len); } break;
                    default: if (o.p1.size() && r.chance(1, 2)) o.p1.resize(r.below(30)); else o.null1 = true;
                }
            }
            break;
        }
        case O_CREL: o.h = pick_cipher(r, p, proc, [](const CipP&) { return true; }); break;
        case O_MINIT: {
            o.alg = r.chance(1, 2) ? SA_MAC_ALGORITHM_CMAC : SA_MAC_ALGORITHM_HMAC;
            o.dig = (int) r.below(4);
            o.h = pick_key(r, p, proc, [&](const KeyP& k) { return flag(k, SA_USAGE_FLAG_SIGN) && (o.alg == SA_MAC_ALGORITHM_CMAC ? is_aes(k) : is_sym(k)); });
            if (r.chance(p.bad, 4000)) o.alg = 7;
            break;
        }
        case O_MPROC:
            o.h = pick_mac(r, p, proc, [&](const MacP& m) { return !m->done || r.chance(1, 10); });
            o.in = r.bytes(1 + (r.chance(p.big, 20000) ? 65536 + r.below(5000) : r.below(r.chance(p.big, 1000) ? 3000 : 70)));
            if (r.chance(p.bad, 4000)) { o.null1 = true; o.n = 1 + r.below(20); o.in.clear(); }
            else if (r.chance(p.bad, 2000)) o.in.clear();
            break;
        case O_MPKEY:
            o.h = pick_mac(r, p, proc, [&](const MacP& m) { return !m->done || r.chance(1, 10); });
            o.h2 = pick_key(r, p, proc, is_sym);
            break;
        case O_MCOMP: {
            o.h = pick_mac(r, p, proc, [&](const MacP& m) { return !m->done || r.chance(1, 10); });
            MacP m = mac_at(proc, o.h);
            size_t len = m && m->alg == SA_MAC_ALGORITHM_HMAC ? r_dlen(m->dig) : 16;
            o.cap = len + (r.chance(1, 4) ? r.below(10) : 0);
            if (r.chance(p.bad, 1000)) o.cap = r.below(len);
            o.nullout = r.chance(p.lenq, 1000);
            break;
        }
        case O_MREL: o.h = pick_mac(r, p, proc, [](const MacP&) { return true; }); break;
        case O_SIGN: {
            o.h = pick_key(r, p, proc, [&](const KeyP& k) {
                return flag(k, SA_USAGE_FLAG_SIGN) && (k->type == SA_KEY_TYPE_RSA || (k->type == SA_KEY_TYPE_EC && !curve_x(k->curve)));
            });
            KeyP k = key_at(proc, o.h);
            o.dig = (int) r.below(4);
            o.dig2 = (int) r.below(4);
            o.alg = SA_SIGNATURE_ALGORITHM_ECDSA;
            size_t len = 64;
            if (k && k->type == SA_KEY_TYPE_RSA) {
                o.alg = r.chance(1, 2) ? SA_SIGNATURE_ALGORITHM_RSA_PSS : SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15;
                if (k->size < 200) { o.dig %= 2; o.dig2 %= 2; }
                o.n = r.below(20);
                len = k->size;
            } else if (k && k->type == SA_KEY_TYPE_EC) {
                if (curve_ed(k->curve)) o.alg = SA_SIGNATURE_ALGORITHM_EDDSA;
                len = 2 * k->size;
            }
            o.in = r.bytes(1 + r.below(100));
            if (o.alg != SA_SIGNATURE_ALGORITHM_EDDSA && r.chance(1, 3)) { o.pre = true; o.in = r.bytes(r_dlen(o.dig)); }
            o.cap = len;
            if (r.chance(p.bad, 1000)) { if (r.chance(1, 2)) o.cap = r.below(len); else o.alg = (int) r.below(4); }
            o.nullout = r.chance(p.lenq, 1000);
            break;
        }
        case O_RANDOM: o.n = 1 + (r.chance(p.big, 20000) ? 65536 + r.below(5000) : r.below(r.chance(p.big, 1000) ? 5000 : 80)); if (r.chance(p.big, 2000)) o.n2 = 1 + r.below(2); break;
        case O_SALLOC:
            o.n = r.chance(1, 2) ? 64 * (1 + r.below(8)) : 16 + r.below(600);
            if (V[proc].st.svps.size() > 60) o.n = 16;
            o.mode = (int) r.below(2);
            if (r.chance(p.bad, 1000)) { o.mode = 2 + (int) r.below(3); o.n2 = 1; }
            break;
        case O_SWRITE: case O_SCOPY: {
            o.h = pick_svp(r, p, proc, [](const SvpP&) { return true; });
            SvpP s = svp_at(proc, o.h);
            size_t os = s ? s->c.size() : 64, is;
            if (kind == O_SWRITE) { o.in = r.bytes(1 + r.below(200)); is = o.in.size(); }
            else {
                o.h2 = pick_svp(r, p, proc, [](const SvpP&) { return true; });
                if (o.h2 == o.h && r.chance(9, 10)) o.h2 = pick_svp(r, p, proc, [](const SvpP&) { return true; });
                SvpP t = svp_at(proc, o.h2);
                is = t ? t->c.size() : 64;
            }
            g_svp_ranges(r, o.offs, os, is, 1 + (r.chance(1, 2) ? r.below(4) : 0));
            if (r.chance(p.bad, 1000)) spoil_range(r, o.offs[r.below(o.offs.size())], os, is);
            break;
        }
        case O_SKCHECK: {
            o.h = pick_key(r, p, proc, [](const KeyP& k) { return flag(k, SA_USAGE_FLAG_DECRYPT) && is_aes(k); });
            KeyP k = key_at(proc, o.h);
            o.n = 16 * (1 + r.below(4));
            Bytes d = r.bytes(o.n);
            bool svp = r.chance(p.in_svp, 1000) && svp_buf(r, p, proc, o.bi, o.n);
            if (!svp) { o.bi = BufD(); random_buf(r, o.bi, o.n, true, d); }
            else svp_known(proc, o.bi, o.n, d);
            o.p1 = k && k->known && is_aes(k) && d.size() == o.n ? r_aes("ecb", false, k->val, {}, d) : r.bytes(o.n);
            if (r.chance(p.tamper + p.bad, 1000)) tamper1(r, o.p1);
            if (r.chance(p.bad, 1000)) { if (r.chance(1, 2)) spoil_buf(r, proc, o.bi); else o.p1.resize(r.below(o.p1.size())); }
            if (r.chance(p.bad, 3000)) {
                o.bi.odd = 2 + (uint32_t) r.below(2);
                // room for the bytes if the buffer is taken for a clear one, wherever that begins
                if (o.bi.type == SA_BUFFER_TYPE_SVP) o.bi.off = (size_t) 1 << (63 - r.below(40));
            }
            break;
        }
        case O_SBCHECK: {
            BufD b;
            size_t n = 1 + r.below(80);
            svp_buf(r, p, proc, b, n);
            o.h = b.h;
            o.n = b.off;
            o.n2 = n;
            o.dig = (int) r.below(4);
            Bytes d;
            o.p1 = svp_known(proc, b, n, d) ? r_digest(o.dig, d) : r.bytes(r_dlen(o.dig));
            if (r.chance(p.tamper + p.bad, 1000)) tamper1(r, o.p1);
            SvpP v = svp_at(proc, o.h);
            size_t sz;
            if (r.chance(p.bad, 1000) && v && v->mem && svp_is_block(v->mem, &sz) && sz == v->c.size()) {
                // a range that ends a little past the buffer
                size_t over = 1 + r.below(16);
                o.n2 = std::min<size_t>(over + 1 + r.below(40), sz ? over + r.below(sz) : over);
                o.n = sz + over - o.n2;
                break;
            }
            if (r.chance(p.bad, 1000)) {
                switch (r.below(3)) {
                    case 0: o.n = ~(size_t) 0 - r.below(100); break;
                    case 1: o.n2 = ~(size_t) 0 - r.below(100); break;
                    default: o.p1.resize(r.below(o.p1.size()));
                }
            }
            break;
        }
        case O_SREL: case O_SFREE: o.h = pick_svp(r, p, proc, [](const SvpP&) { return true; }); break;
        case O_CENC: g_cenc(r, p, proc, o); break;
        case O_INFO: o.n = r.below(5); break;
        case O_KPROV: prov_make(r, p, proc, o); break;
    }
}

void gen_op(Rng& r, const Prof& p, int proc, Op& o) {
    uint64_t total = 0;
    const View& v = V[proc];
    unsigned w[O_MAX];
    for (int i = 0; i < O_MAX; i++) w[i] = p.w[i];
    // keep populations in bounds
    auto shape = [&](size_t n, std::initializer_list<int> create, std::initializer_list<int> use, std::initializer_list<int> rel) {
        if (n == 0) for (int k : use) w[k] = w[k] / 8;
        if (n < 2) { for (int k : create) w[k] *= 3; for (int k : rel) w[k] /= 2; }
        if (n > 24) { for (int k : create) w[k] /= 4; for (int k : rel) w[k] *= 3; }
    };
    shape(v.st.keys.size(), {O_KGEN, O_KIMPORT}, {O_KUNWRAP, O_KDERIVE, O_KEXCH, O_KEXPORT, O_KHEADER, O_KDIGEST, O_KPUBLIC, O_CINIT, O_MINIT, O_SIGN, O_SKCHECK}, {O_KRELEASE});
    shape(v.st.ciphers.size(), {O_CINIT}, {O_CIV, O_CPROC, O_CLAST, O_CENC}, {O_CREL});
    shape(v.st.macs.size(), {O_MINIT}, {O_MPROC, O_MPKEY, O_MCOMP}, {O_MREL});
    shape(v.st.svps.size(), {O_SALLOC}, {O_SWRITE, O_SCOPY, O_SBCHECK}, {O_SREL, O_SFREE});
    for (int i = 0; i < O_MAX; i++) total += w[i];
    if (!total) { w[O_RANDOM] = 1; total = 1; }
    uint64_t x = r.below(total);
    int k = 0;
    while (x >= w[k]) x -= w[k++];
    missed = 0;
    want_key = 0;
    want_cenc = false;
    gen_kind(r, p, proc, k, o);
    // an operation that needs something that is not there: mostly make that instead
    for (int i = 0; i < 2 && missed && r.chance(4, 5); i++) {
        int maker = -1, key = want_key;
        if (missed & 1u << 3) maker = O_SALLOC;
        else if (missed & 1u << 2) maker = O_MINIT;
        else if (missed & 1u << 1) maker = O_CINIT;
        else if (missed & 1u) {
            if (!key) switch (k) {
                case O_SIGN: key = r.chance(2, 3) ? 2 : 4; break;
                case O_KPUBLIC: key = 2 + (int) r.below(2); break;
                case O_KEXCH: key = 2; break;
                case O_KUNWRAP: case O_CINIT: key = r.chance(5, 6) ? 1 : r.chance(1, 2) ? 2 : 4; break;
                case O_SKCHECK: case O_MINIT: case O_KDERIVE: case O_CENC: case O_KDIGEST: case O_MPKEY: key = 1; break;
                default: key = 0;
            }
            maker = key == 0 || key >= 3 ? O_KGEN : r.chance(1, 2) ? O_KGEN : O_KIMPORT;
            if (key == 4) maker = O_KIMPORT;
        }
        if (maker < 0 || !p.w[maker]) {
            if (maker == O_KGEN && p.w[O_KIMPORT]) maker = O_KIMPORT;
            else if (maker == O_KIMPORT && p.w[O_KGEN]) maker = O_KGEN;
            else break;
        }
        missed = 0;
        want_key = key;
        want_cenc = k == O_CENC;
        o = Op();
        gen_kind(r, p, proc, maker, o);
        want_key = 0;
    }
    want_key = 0;
    want_cenc = false;
    missed = 0;
}

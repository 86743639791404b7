// Protected key containers as their issuers make them (Type-J, SoC), and as an attacker or a bad channel alters them.
#include "gen.h"
#include <algorithm>

// ------------------------------------------------------------------ encoding
static std::string b64(const Bytes& d, bool url) {
    const char* t = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
                        : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string s;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = (uint32_t) d[i] << 16;
        if (i + 1 < d.size()) v |= (uint32_t) d[i + 1] << 8;
        if (i + 2 < d.size()) v |= d[i + 2];
        size_t n = std::min<size_t>(3, d.size() - i) + 1;
        for (size_t k = 0; k < 4; k++) {
            if (k < n) s += t[v >> (18 - 6 * k) & 63];
            else if (!url) s += '=';
        }
    }
    return s;
}
static Bytes by(const std::string& s) { return Bytes(s.begin(), s.end()); }
static std::string url(const std::string& s) { return b64(by(s), true); }
struct Fld { std::string name, val; };
typedef std::vector<Fld> Flds;
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static std::string q64(const Bytes& d) { return q(b64(d, false)); }
static std::string json(Rng& r, Flds f) {
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[r.below(i)]);
    bool ws = r.chance(1, 3);
    auto sp = [&] { static const char* const w[] = {"", " ", "\n", "\t ", "  "}; return std::string(ws ? w[r.below(5)] : ""); };
    std::string s = sp() + "{";
    for (size_t i = 0; i < f.size(); i++) s += std::string(i ? "," : "") + sp() + q(f[i].name) + sp() + ":" + sp() + f[i].val + sp();
    return s + "}" + sp();
}
static Fld* find(Flds& f, const char* n) { for (auto& x : f) if (x.name == n) return &x; return nullptr; }
static void drop(Flds& f, const char* n) { f.erase(std::remove_if(f.begin(), f.end(), [&](Fld& x) { return x.name == n; }), f.end()); }
static void set(Flds& f, const char* n, const std::string& v) { if (Fld* x = find(f, n)) x->val = v; else f.push_back({n, v}); }
static void extras(Rng& r, Flds& f) {
    static const char* const v[] = {"1", "-17", "true", "false", "null", "\"text\"", "\"\"", "[]", "{}", "[1,2,[\"a\",{\"b\":null}]]", "{\"x\":{\"y\":[1.5e3]}}", "2.25", "\"\\u00e9\\n\""};
    for (size_t n = r.chance(1, 3) ? 1 + r.below(4) : 0; n; n--) f.push_back({"x" + std::to_string(r.below(100)), v[r.below(13)]});
}
static std::string uuid_str(Rng& r, const sa_uuid& u, bool upper) {
    char b[40];
    int n = 0;
    for (int i = 0; i < 16; i++) {
        if (i == 4 || i == 6 || i == 8 || i == 10) b[n++] = '-';
        n += snprintf(b + n, 3, upper && r.chance(1, 2) ? "%02X" : "%02x", u.id[i]);
    }
    return std::string(b, 36);
}
static std::vector<sa_uuid> ta_list(Rng& r, int proc) {
    std::vector<sa_uuid> v;
    size_t n = r.chance(1, 8) ? MAX_NUM_ALLOWED_TA_IDS : 1 + r.below(4);
    for (size_t i = 0; i < n; i++) v.push_back(uuid_alt((int) r.below(200)));
    if (r.chance(2, 3)) v[r.below(n)] = proc_uuid(proc);
    else if (r.chance(1, 2)) v[r.below(n)] = uuid_of((int) r.below(NPROC));
    return v;
}
static std::string ta_json(Rng& r, const std::vector<sa_uuid>& v, bool upper) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + q(uuid_str(r, v[i], upper));
    return s + "]";
}
static uint64_t use_bits(int use, int type, bool hmac) {
    uint64_t u = 0;
    bool ex = type == SA_KEY_TYPE_EC;
    if (use == 2) return BIT(SA_USAGE_FLAG_UNWRAP);
    if (ex) u |= BIT(SA_USAGE_FLAG_KEY_EXCHANGE);
    u |= BIT(SA_USAGE_FLAG_SIGN) | BIT(SA_USAGE_FLAG_DERIVE);
    if (use == 1) { if (!hmac) u |= BIT(SA_USAGE_FLAG_ENCRYPT) | BIT(SA_USAGE_FLAG_DECRYPT); }
    else u |= BIT(SA_USAGE_FLAG_ENCRYPT) | BIT(SA_USAGE_FLAG_DECRYPT) | BIT(SA_USAGE_FLAG_UNWRAP);
    return u;
}
static std::string iso(int64_t t) {
    time_t x = (time_t) t;
    struct tm tm;
    gmtime_r(&x, &tm);
    char b[40];
    strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm);
    return b;
}

// values that are long, short or of the wrong kind
static std::string wrong_string(Rng& r) {
    switch (r.below(8)) {
        case 0: return "7";
        case 1: return "null";
        case 2: return "true";
        case 3: return "[\"a\"]";
        case 4: return "{\"a\":1}";
        case 5: return "\"\"";
        case 6: return q(std::string(1 + r.below(4000), 'A'));
        default: return "1.5";
    }
}
static std::string wrong_b64(Rng& r, size_t right) {
    switch (r.below(6)) {
        case 0: return wrong_string(r);
        case 1: return q64(r.bytes(right + 1 + r.below(64)));
        case 2: return q64(r.bytes(right + 64 + r.below(4000)));
        case 3: return q64(r.bytes(r.below(right)));
        case 4: return q("!!!!" + b64(r.bytes(right), false));
        default: return q(b64(r.bytes(right), false) + "AAAA");
    }
}

// ------------------------------------------------------------------ Type-J
static KeyP aes_of(uint64_t h, int proc) { auto i = V[proc].st.keys.find(h); return i == V[proc].st.keys.end() ? nullptr : i->second; }
static std::string typej_text(const std::string& header, const std::string& payload, const Bytes& mac_key) {
    std::string t = url(header) + "." + url(payload);
    return t + "." + b64(r_hmac(SA_DIGEST_ALGORITHM_SHA256, mac_key, by(t)), true);
}
static bool typej_make(Rng& r, const Prof& p, int proc, Op& o, Issued& is) {
    sa_uuid me = G.cur && G.cur->alt ? G.cur->alt_uuid : proc_uuid(proc);
    std::vector<uint64_t> enc, mac;
    for (auto& kv : V[proc].st.keys) {
        const KeyP& k = kv.second;
        if (k->type != SA_KEY_TYPE_SYMMETRIC || !k->known || memcmp(&k->owner, &me, 16)) continue;
        if (k->rights.usage_flags & BIT(SA_USAGE_FLAG_UNWRAP) && (k->size == 16 || k->size == 32)) enc.push_back(kv.first);
        if (k->rights.usage_flags & BIT(SA_USAGE_FLAG_SIGN)) mac.push_back(kv.first);
    }
    if (enc.empty() || mac.empty()) return false;
    o.fmt = SA_KEY_FORMAT_TYPEJ;
    o.h = r.pick(enc);
    o.h2 = r.pick(mac);
    KeyP kc = aes_of(o.h, proc), kh = aes_of(o.h2, proc);
    is.kc = kc->val;
    is.kh = kh->val;
    auto k = std::make_shared<KeyM>();
    k->type = SA_KEY_TYPE_SYMMETRIC;
    memset(&k->rights, 0, sizeof k->rights);
    int ver = 1 + (int) r.below(3);
    int mode = ver == 1 ? 0 : (int) r.below(4);      // ecb, ecb-pkcs, cbc, cbc-pkcs
    bool pkcs = mode & 1, cbc = mode & 2;
    size_t n = r.chance(1, 2) ? 16 : r.chance(1, 2) ? 32 : pkcs ? 16 + r.below(100) : 16 * (1 + r.below(r.chance(1, 8) ? 32 : 5));
    k->val = r.bytes(n);
    k->size = n;
    Bytes iv = cbc ? r.bytes(16) : Bytes();
    Bytes pt = pkcs ? r_pad(k->val) : k->val;
    Bytes ct = r_aes(cbc ? "cbc" : "ecb", true, kc->val, iv, pt);

    Flds f;
    std::string id;
    for (size_t i = r.below(4) ? 1 + r.below(20) : r.below(64); i; i--) id += (char) ('a' + r.below(26));
    memcpy(k->rights.id, id.data(), id.size());
    set(f, "contentKeyId", q(id));
    set(f, "contentKey", q64(ct));
    // rights
    uint64_t u = BIT(SA_USAGE_FLAG_SVP_OPTIONAL);
    Bytes rb;
    bool an = false, cg = false;
    for (size_t i = r.below(6); i; i--) {
        static const uint8_t rv[] = {0, 1, 2, 3, 4, 5, 8, 5};
        uint8_t x = rv[r.below(8)];
        if (x == 1 && r.chance(1, 2)) x = 5;
        rb.push_back(x);
        if (x == 1) u &= ~BIT(SA_USAGE_FLAG_SVP_OPTIONAL);
        if (x == 2) u |= BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP);
        if (x == 3) u |= BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14);
        if (x == 4) u |= BIT(SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22);
        if (x == 5) an = true;
        if (x == 8) cg = true;
    }
    if (an) u |= BIT(SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA);
    if (an && !cg) u |= BIT(SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED);
    set(f, "contentKeyRights", q64(rb));
    int use = (int) r.below(3);
    u |= use_bits(use, SA_KEY_TYPE_SYMMETRIC, false);
    set(f, "contentKeyUsage", std::to_string(use));
    int64_t now = G.env.back().time, nb = now - 1000 - (int64_t) r.below(1000000), na = now + 1000000000;
    if (r.chance(1, 8)) nb = now - 3 + (int64_t) r.below(6);
    if (r.chance(1, 8)) na = now - 3 + (int64_t) r.below(6);
    if (nb < 0) nb = 0;
    k->rights.not_before = (uint64_t) nb;
    k->rights.not_on_or_after = (uint64_t) na;
    set(f, "contentKeyNotBefore", q(iso(nb)));
    set(f, "contentKeyNotOnOrAfter", q(iso(na)));
    bool cache = r.chance(1, 2);
    set(f, "contentKeyCacheable", cache ? "true" : "false");
    if (cache) u |= BIT(SA_USAGE_FLAG_CACHEABLE);
    k->rights.usage_flags = u;
    bool nobody = r.chance(1, 30);        // a list that names no one: refused, or a key no one may use
    if (nobody) set(f, "entitledTaIds", r.chance(1, 2) ? "[]" : "[ ]");
    else if (r.chance(1, 3)) {
        auto tl = ta_list(r, proc);
        memcpy(k->rights.allowed_tas, tl.data(), tl.size() * sizeof(sa_uuid));
        set(f, "entitledTaIds", ta_json(r, tl, r.chance(1, 3)));
    } else memset(&k->rights.allowed_tas[0], 0xff, sizeof(sa_uuid));
    if (ver > 1 || r.chance(1, 2)) set(f, "contentKeyContainerVersion", std::to_string(ver));
    if (ver > 1) {
        static const char* const a[] = {"aesEcbNone", "aesEcbPkcs5", "aesCbcNone", "aesCbcPkcs5"};
        set(f, "contentKeyTransportAlgorithm", q(a[mode]));
        set(f, "contentKeyLength", std::to_string(n));
        if (cbc) set(f, "contentKeyTransportIv", q64(iv));
    }
    extras(r, f);
    std::string header = r.chance(1, 2) ? "{\"kid\":\"kh\",\"alg\":\"HS256\"}" : r.chance(1, 2) ? "{}" : json(r, {{"alg", "\"HS256\""}, {"n", "[1,2]"}});

    if (r.chance(p.tamper, 3000)) {      // an issuer's mistake: its authentication holds, its content does not
        count_fault(FK_CORRUPT);
        static const char* const must[] = {"contentKeyId", "contentKey", "contentKeyRights", "contentKeyUsage", "contentKeyNotBefore",
                "contentKeyNotOnOrAfter", "contentKeyCacheable"};
        static const char* const must2[] = {"contentKeyTransportAlgorithm", "contentKeyLength", "contentKeyTransportIv"};
        std::string payload;
        switch (r.below(15)) {
            case 0: drop(f, must[r.below(7)]); break;
            case 1: if (ver > 1) drop(f, must2[r.below(cbc ? 3 : 2)]); else drop(f, "contentKey"); break;
            case 2: set(f, "contentKeyId", q(std::string(64 + r.below(400), 'x'))); break;
            case 3: rb.push_back(r.chance(1, 2) ? 6 : (uint8_t) (9 + r.below(240))); set(f, "contentKeyRights", q64(rb)); break;
            case 4: set(f, "contentKeyUsage", r.chance(1, 2) ? std::to_string(4 + r.below(1000)) : "-" + std::to_string(1 + r.below(1000))); break;
            case 5: set(f, r.chance(1, 2) ? "contentKeyNotBefore" : "contentKeyNotOnOrAfter",
                            q(r.chance(1, 2) ? iso(now).substr(0, r.below(20)) : r.chance(1, 2) ? iso(now) + "Z" : "2020-13-41T25:61:61Z")); break;
            case 6: {
                std::vector<sa_uuid> tl(MAX_NUM_ALLOWED_TA_IDS + 1 + r.below(40), uuid_alt(1));
                set(f, "entitledTaIds", ta_json(r, tl, false));
                break;
            }
            case 7: set(f, "entitledTaIds", r.chance(1, 2) ? "[\"" + uuid_str(r, uuid_alt(1), false).substr(0, r.below(36)) + "\"]" :
                            r.chance(1, 2) ? "[null]" : r.chance(1, 2) ? "[3]" : r.chance(1, 2) ? "\"all\"" : "7"); break;
            case 8: set(f, "contentKeyContainerVersion", std::to_string(r.chance(1, 3) ? 0 : 4 + r.below(300))); break;
            case 9: {
                const char* m[] = {"contentKeyId", "contentKey", "contentKeyRights", "contentKeyNotBefore", "contentKeyNotOnOrAfter"};
                static const char* const w[] = {"7", "null", "true", "[]", "{}", "1.5"};
                set(f, m[r.below(5)], w[r.below(6)]);
                break;
            }
            case 10: set(f, "contentKey", q64(r.chance(1, 2) ? Bytes(ct.begin(), ct.end() - 1 - (long) r.below(15)) : r.bytes(16 * (33 + r.below(40))))); break;
            case 11: if (ver > 1) set(f, "contentKeyLength", std::to_string(r.chance(1, 2) ? n + 1 + r.below(64) : n - 1 - r.below(n)));
                     else set(f, "contentKey", q64(r.bytes(r.chance(1, 2) ? 0 : 17 + r.below(15)))); break;
            case 12: if (ver > 1) set(f, "contentKeyTransportAlgorithm", r.chance(1, 2) ? "\"aesEcb\"" : "\"aesCbcPkcs7\"");
                     else set(f, "contentKeyRights", q64(Bytes{0xff})); break;
            case 13: if (cbc) set(f, "contentKeyTransportIv", q64(r.bytes(r.chance(1, 2) ? r.below(16) : 17 + r.below(64))));
                     else set(f, "contentKey", "\"" + std::string(1 + r.below(30), '*') + "\""); break;
            default: {
                payload = json(r, f);
                switch (r.below(5)) {
                    case 0: payload.resize(r.below(payload.size() - 1)); payload += "\""; break;
                    case 1: payload = "[" + payload + "]"; break;
                    case 2: payload = "\"" + std::string(r.below(30), 'a') + "\""; break;
                    case 3: payload = std::string(1 + r.below(40), '[') ; break;
                    default: payload += "}"; break;
                }
            }
        }
        if (payload.empty()) payload = json(r, f);
        o.in = by(typej_text(header, payload, kh->val));
        return true;       // not recorded: must be refused
    }
    std::string payload = json(r, f);
    o.in = by(typej_text(header, payload, kh->val));
    is.fmt = o.fmt;
    is.in = o.in;
    is.key = k;
    is.header = header;
    is.payload = payload;
    if (nobody) { W.sealed_alike[o.in] = k; return true; }
    W.sealed[o.in] = k;
    W.sealed_ct[o.in] = {mode, iv, ct};
    W.issued.push_back(is);
    return true;
}
static void typej_tamper(Rng& r, Op& o, const Issued& is, bool swapped) {
    count_fault(FK_CORRUPT);
    std::string s(o.in.begin(), o.in.end());
    size_t d1 = s.find('.'), d2 = s.find('.', d1 + 1);
    std::string H = s.substr(0, d1), P = s.substr(d1 + 1, d2 - d1 - 1), T = s.substr(d2 + 1);
    const Issued& other = r.pick(W.issued);
    switch (r.below(9)) {
        case 0: {              // other content under the same tag
            std::string x(other.in.begin(), other.in.end());
            size_t a = x.find('.'), b = x.find('.', a + 1);
            P = x.substr(a + 1, b - a - 1);
            break;
        }
        case 1: H = url("{\"alg\":\"none\"}"); break;
        case 2: {              // the tag is missing or only part of it
            Bytes m = r_hmac(SA_DIGEST_ALGORITHM_SHA256, is.kh, by(H + "." + P));
            m.resize(r.below(32));
            T = b64(m, true);
            break;
        }
        case 3: {
            Bytes m = r_hmac(SA_DIGEST_ALGORITHM_SHA256, is.kh, by(H + "." + P));
            m[r.below(32)] ^= (uint8_t) (1u << r.below(8));
            T = b64(m, true);
            break;
        }
        case 4: {              // a tag of the same data under another function or key
            Bytes m = r.chance(1, 2) ? r_hmac(SA_DIGEST_ALGORITHM_SHA1, is.kh, by(H + "." + P)) : r_hmac(SA_DIGEST_ALGORITHM_SHA256, is.kc, by(H + "." + P));
            if (is.kc == is.kh || swapped) m[0] ^= 1;
            T = b64(m, true);
            break;
        }
        case 5: {              // what the attacker would like it to say
            std::string t = is.payload;
            size_t at = t.find("contentKeyCacheable");
            if (at != std::string::npos) at = t.find_first_of("tf", at + 20);
            if (at != std::string::npos && !t.compare(at, 4, "true")) t.replace(at, 4, "false");
            else if (at != std::string::npos && !t.compare(at, 5, "false")) t.replace(at, 5, "true");
            else t += " ";
            P = url(t);
            break;
        }
        case 6: P += r.chance(1, 2) ? "AAAA" : "."; break;
        case 7: T += "AAAA"; break;
        default: std::swap(P, T); break;
    }
    std::string t = H + "." + P + "." + T;
    o.in = by(t);
}

// ------------------------------------------------------------------ SoC
struct Soc {
    std::string alg = "A128GCM";
    long long ver = 5;
    int root = 0;               // 0 none given, 1 unique, 2 common
    std::string type;
    Bytes ct, iv, c1, c2, c3, tag;
    long long use = 1, dec = 1;
    std::vector<sa_uuid> tas;
    bool has_tas = false, upper = false;
};
static Bytes cat(std::initializer_list<Bytes> l) { Bytes b; for (auto& x : l) b.insert(b.end(), x.begin(), x.end()); return b; }
static Bytes soc_aad(Rng& r, const Soc& s) {
    Bytes a = by(s.alg);
    a.push_back((uint8_t) s.ver);
    if (s.ver >= 5 && s.root) a = cat({a, by(s.root == 1 ? "unique" : "common")});
    a = cat({a, by(s.type), Bytes{(uint8_t) s.use}});
    if (s.use == 2) a.push_back((uint8_t) s.dec);
    a = cat({a, s.iv, s.c1, s.c2, s.c3});
    for (auto& u : s.tas) a = cat({a, by(uuid_str(r, u, false))});
    return a;
}
static void soc_seal(Rng& r, Soc& s, const Bytes& key) {
    Bytes k = s.root == 2 ? W.asym[Bytes{}].first : W.root_seed;
    for (const Bytes* c : {&s.c1, &s.c2, &s.c3}) k = r_aes("ecb", false, k, {}, *c);
    s.ct = r_aead(false, true, k, s.iv, soc_aad(r, s), key, &s.tag);
}
static Flds soc_fields(Rng& r, const Soc& s) {
    Flds f;
    set(f, "containerVersion", std::to_string(s.ver));
    if (s.ver >= 5 && s.root) set(f, "rootKeyType", s.root == 1 ? "\"unique\"" : "\"common\"");
    set(f, "keyType", q(s.type));
    set(f, "encryptedKey", q64(s.ct));
    set(f, "iv", q64(s.iv));
    set(f, "keyUsage", std::to_string(s.use));
    if (s.use == 2) set(f, "decryptedKeyUsage", std::to_string(s.dec));
    if (s.has_tas) set(f, "entitledTaIds", ta_json(r, s.tas, s.upper));
    set(f, "c1", q64(s.c1));
    set(f, "c2", q64(s.c2));
    set(f, "c3", q64(s.c3));
    return f;
}
static Bytes soc_text(const std::string& header, const std::string& payload, const Bytes& tag) {
    return by(url(header) + "." + url(payload) + "." + b64(tag, true));
}
static std::string soc_header(Rng& r, const Soc& s) {
    Flds f;
    set(f, "alg", q(s.alg));
    if (r.chance(1, 4)) extras(r, f);
    return json(r, f);
}
struct SocType { const char* name; int type; int size; bool hmac; int curve; };
static const SocType SOC_TYPES[] = {{"AES-128", SA_KEY_TYPE_SYMMETRIC, 16, false, 0}, {"AES-256", SA_KEY_TYPE_SYMMETRIC, 32, false, 0},
        {"CHACHA20-256", SA_KEY_TYPE_SYMMETRIC, 32, false, 0}, {"HMAC-128", SA_KEY_TYPE_SYMMETRIC, 16, true, 0},
        {"HMAC-160", SA_KEY_TYPE_SYMMETRIC, 20, true, 0}, {"HMAC-256", SA_KEY_TYPE_SYMMETRIC, 32, true, 0},
        {"RSA-1024", SA_KEY_TYPE_RSA, 128, false, 0}, {"RSA-2048", SA_KEY_TYPE_RSA, 256, false, 0},
        {"ECC-P256", SA_KEY_TYPE_EC, 32, false, SA_ELLIPTIC_CURVE_NIST_P256}, {"ECC-P384", SA_KEY_TYPE_EC, 48, false, SA_ELLIPTIC_CURVE_NIST_P384},
        {"ECC-P521", SA_KEY_TYPE_EC, 66, false, SA_ELLIPTIC_CURVE_NIST_P521}, {"ECC-X25519", SA_KEY_TYPE_EC, 32, false, SA_ELLIPTIC_CURVE_X25519},
        {"ECC-ED25519", SA_KEY_TYPE_EC, 32, false, SA_ELLIPTIC_CURVE_ED25519}};
static bool soc_make(Rng& r, const Prof& p, int proc, Op& o, Issued& is) {
    if (W.root_seed.empty()) return false;
    o.fmt = SA_KEY_FORMAT_SOC;
    Soc s;
    s.ver = r.chance(1, 4) ? 4 : 5 + (long long) r.below(r.chance(1, 4) ? 200 : 2);
    s.root = s.ver >= 5 ? (int) r.below(3) : 0;
    const SocType& t = SOC_TYPES[r.chance(2, 3) ? r.below(6) : r.chance(p.slow, 1000) ? r.below(13) : r.chance(1, 2) ? 6 : 8];
    s.type = t.name;
    auto k = std::make_shared<KeyM>();
    k->type = t.type;
    k->size = (size_t) t.size;
    k->curve = t.type == SA_KEY_TYPE_EC ? t.curve : 0;
    if (t.type == SA_KEY_TYPE_SYMMETRIC) k->val = r.bytes((size_t) t.size);
    else if (t.type == SA_KEY_TYPE_RSA) k->val = M.rsa_p8[t.size == 256];
    else {
        if (M.ec_raw[t.curve].empty()) return false;
        k->val = r.pick(M.ec_raw[t.curve]);
    }
    if (t.type == SA_KEY_TYPE_RSA) k->priv = k->pub = pk_from_pkcs8(k->val);
    if (t.type == SA_KEY_TYPE_EC) k->priv = k->pub = pk_ec_from_pkcs8(t.curve, k->val);
    s.iv = r.bytes(12);
    s.c1 = r.bytes(16);
    s.c2 = r.bytes(16);
    s.c3 = r.bytes(16);
    s.use = 1 + (int) r.below(3);
    if (t.hmac && s.use == 2 && !r.chance(p.tamper, 5000)) s.use = 1;
    s.dec = 1 + (int) r.below(3);
    if (r.chance(1, 3)) { s.tas = ta_list(r, proc); s.has_tas = true; s.upper = r.chance(1, 3); }
    memset(&k->rights, 0, sizeof k->rights);
    k->rights.not_on_or_after = ~0ULL;
    k->rights.usage_flags = BIT(SA_USAGE_FLAG_CACHEABLE) | SA_USAGE_OUTPUT_PROTECTIONS_MASK | use_bits((int) s.use, t.type, t.hmac);
    if (s.use == 2) k->rights.child_usage_flags = use_bits((int) s.dec, t.type, t.hmac);
    if (s.tas.empty()) memset(&k->rights.allowed_tas[0], 0xff, sizeof(sa_uuid));
    else memcpy(k->rights.allowed_tas, s.tas.data(), s.tas.size() * sizeof(sa_uuid));

    bool bad = r.chance(p.tamper, 2500);
    o.pre = r.chance(1, 3);
    o.n = r.next();
    o.n2 = 2 + r.below(2);
    if (o.pre && r.chance(p.bad, 1000)) { if (r.chance(1, 2)) o.n2 = r.chance(1, 2) ? 1 : 4; else o.null1 = true; }
    if (!bad) {
        soc_seal(r, s, k->val);
        Flds f = soc_fields(r, s);
        extras(r, f);
        is.header = soc_header(r, s);
        is.payload = json(r, f);
        o.in = soc_text(is.header, is.payload, s.tag);
        is.fmt = o.fmt;
        is.in = o.in;
        is.key = k;
        if (t.hmac && s.use == 2) return true;     // this combination must be refused
        W.sealed[o.in] = k;
        W.issued.push_back(is);
        return true;
    }
    // altered on the way, or ill-formed from the start
    count_fault(FK_CORRUPT);
    Bytes key = k->val;
    unsigned w = (unsigned) r.below(30);
    if (w < 2 && t.type != SA_KEY_TYPE_SYMMETRIC) w = 9;
    if (w == 0) key.push_back(1);                         // the sealed key has the wrong length for its type
    if (w == 1 && key.size() > 1) key.pop_back();
    if (w == 2) s.type = "AES-192";
    if (w == 3) s.type = std::string(1 + r.below(5000), 'k');
    if (w == 4) s.use = 0;
    if (w == 5) s.use = 4 + (long long) r.below(100);
    if (w == 6) { s.use = 2; s.dec = r.chance(1, 2) ? 0 : 4; }
    if (w == 7) s.ver = 1 + (long long) r.below(3);
    if (w == 8) s.alg = r.chance(1, 2) ? "A256GCM" : r.chance(1, 2) ? "" : std::string(r.below(3000), 'A');
    soc_seal(r, s, key);
    if (w == 1 && key == k->val) w = 9;
    std::string header = soc_header(r, s);
    if (w == 9) s.tag[r.below(16)] ^= (uint8_t) (1u << r.below(8));
    if (w == 10) s.ct[r.below(s.ct.size())] ^= (uint8_t) (1u << r.below(8));
    if (w == 11) s.iv[r.below(12)] ^= (uint8_t) (1u << r.below(8));
    if (w == 12) { Bytes* c[] = {&s.c1, &s.c2, &s.c3}; (*c[r.below(3)])[r.below(16)] ^= (uint8_t) (1u << r.below(8)); }
    if (w == 13) s.use = s.use == 3 ? 1 : 3;
    if (w == 14) s.ver = s.ver == 4 ? 5 : 4, s.root = 0;
    if (w == 15) s.ver += 256;
    if (w == 16) s.use += 256;
    if (w == 17) { if (s.ver < 5) s.ver = 5; s.root = s.root == 1 ? 2 : 1; }
    if (w == 18) { if (s.tas.empty()) s.tas.push_back(proc_uuid(proc)); else if (r.chance(1, 2)) s.tas.pop_back(); else s.tas[0] = uuid_alt(201); s.has_tas = true; }
    if (w == 19) s.tas.assign(MAX_NUM_ALLOWED_TA_IDS + 1 + r.below(r.chance(1, 2) ? 4 : 200), uuid_alt(7)), s.has_tas = true;
    if (w == 20) s.tag.resize(r.below(16));                // only part of the tag
    if (w == 21) s.tag.push_back(0);
    if (w == 22) s.type = !strncmp(t.name, "AES-128", 7) ? "HMAC-128" : "AES-128";
    if (w == 23) s.type = s.type.substr(0, 1 + r.below(s.type.size() - 1));
    if (w == 24) s.type += std::string(1 + r.below(40), '8');
    Flds f = soc_fields(r, s);
    if (w == 25) { static const char* const m[] = {"containerVersion", "keyType", "encryptedKey", "iv", "keyUsage", "c1", "c2", "c3"}; drop(f, m[r.below(8)]); }
    if (w == 26) { static const char* const m[] = {"iv", "c1", "c2", "c3"}; const char* x = m[r.below(4)]; set(f, x, wrong_b64(r, *x == 'i' ? 12 : 16)); }
    if (w == 27) { static const char* const m[] = {"keyType", "encryptedKey"}; set(f, m[r.below(2)], wrong_string(r)); }
    if (w == 28) {
        if (r.chance(1, 2)) set(f, "entitledTaIds", r.chance(1, 3) ? "\"all\"" : r.chance(1, 2) ? "[null]" : "[\"" + std::string(r.below(80), 'a') + "\"]");
        else if (r.chance(1, 2)) { set(f, "containerVersion", "6"); set(f, "rootKeyType", r.chance(1, 3) ? "\"\"" : r.chance(1, 2) ? "\"u\"" : wrong_string(r)); }
        else set(f, "keyUsage", r.chance(1, 2) ? "-253" : "null");
    }
    std::string payload = json(r, f);
    if (w == 29) {
        switch (r.below(5)) {
            case 0: payload.resize(r.below(payload.size() - 4)); payload += "\""; break;
            case 1: payload = std::string(1 + r.below(3000), '['); break;
            case 2: {          // very deep or very long: the memory and stack it takes must stay bounded
                size_t n = 200 + r.below(3000);
                if (r.chance(1, 2)) {
                    std::string x;
                    for (size_t i = 0; i < n; i++) x += i ? ",1" : "1";
                    payload.insert(payload.find('{') + 1, "\"a\":[" + x + "],");
                    o.in = soc_text(header, payload, s.tag);
                    W.sealed_alike[o.in] = k;
                    return true;
                }
                if (r.chance(1, 2)) n = 5000 + r.below(60000);
                payload = "{\"a\":" + std::string(n, '[') + (r.chance(1, 2) ? "1" + std::string(n, ']') + "}" : payload);
                break;
            }
            case 3: payload = "7"; break;
            default: header = "[]"; break;
        }
    }
    o.in = soc_text(header, payload, s.tag);
    return true;
}

// a change of the text that may leave its meaning as it was (unused bits, white space, unknown members)
static void raw_tamper(Rng& r, Op& o, const Issued& is) {
    count_fault(FK_CORRUPT);
    Bytes& b = o.in;
    switch (r.below(6)) {
        case 0: b[r.below(b.size())] ^= (uint8_t) (1u << r.below(8)); break;
        case 1: b.resize(r.below(b.size())); break;
        case 2: { Bytes x = r.bytes(1 + r.below(8)); b.insert(b.begin() + (long) r.below(b.size()), x.begin(), x.end()); break; }
        case 3: b[r.below(b.size())] = (uint8_t) "=.-_ A\n\0"[r.below(8)]; break;
        case 4: {              // part of the tag is another container's
            const Bytes& x = r.pick(W.issued).in;
            size_t tail = b.size() - std::min<size_t>(b.size(), 1 + r.below(20));
            for (size_t i = 1; i <= x.size() && i <= b.size() - tail; i++) b[b.size() - i] = x[x.size() - i];
            break;
        }
        default: for (size_t i = 1 + r.below(4); i; i--) b[r.below(b.size())] = (uint8_t) r.next();
    }
    if (W.sealed.count(b)) return;
    if (is.fmt == SA_KEY_FORMAT_TYPEJ) {     // header and payload are authenticated as text: only the tag's encoding has room
        size_t tail = 0;
        for (size_t i = 0; i < is.in.size(); i++) if (is.in[i] == '.') tail = i + 1;
        if (b.size() < tail || !std::equal(is.in.begin(), is.in.begin() + (long) tail, b.begin())) return;
    }
    W.sealed_alike[b] = is.key;
}

// an object for sa_key_provision_ta
void prov_make(Rng& r, const Prof& p, int proc, Op& o) {
    NoPreempt np;
    static const int kinds[] = {WIDEVINE_OEM_PROVISIONING, PLAYREADY_MODEL_PROVISIONING, NETFLIX_PROVISIONING};
    auto soc = [&](Bytes& b) {
        Op t;
        Issued is;
        std::vector<const Issued*> old;
        for (auto& x : W.issued) if (x.fmt == SA_KEY_FORMAT_SOC) old.push_back(&x);
        if (!old.empty() && r.chance(1, 3)) {
            is = *r.pick(old);
            t.fmt = is.fmt;
            t.in = is.in;
            if (r.chance(p.tamper, 1000)) raw_tamper(r, t, is);
        } else if (!soc_make(r, p, proc, t, is)) return;
        b = t.in;
    };
    soc(o.in);
    if (o.in.empty()) { o.kind = O_INFO; o.n = 0; return; }
    o.type = kinds[r.below(3)];
    o.alg = (int) r.below(3);
    o.p5 = r.bytes(1 + r.below(60));
    o.pre = true;
    o.n = r.next();
    o.n2 = 2 + r.below(2);
    o.rights = gen_rights(r, p, proc);
    o.p4 = {1};
    if (o.type == NETFLIX_PROVISIONING) soc(o.p4);
    if (r.chance(p.bad, 1000))
        switch (r.below(6)) {
            case 0: o.type = r.chance(1, 2) ? 2 + (int) r.below(2) : 5 + (int) r.below(4); break;
            case 1: o.nullout = true; o.cap = r.below(6); break;
            case 2: o.n3 = 1 + r.below(20); break;
            case 3: o.n2 = r.chance(1, 2) ? 1 : 4; break;
            case 4: o.null1 = true; break;
            default: o.pre = false;
        }
}

bool sealed_make(Rng& r, const Prof& p, int proc, Op& o) {
    NoPreempt np;
    Issued is;
    if (!W.issued.empty() && r.chance(2, 5)) {
        is = r.pick(W.issued);
        o.fmt = is.fmt;
        o.in = is.in;
        bool swapped = false;
        if (is.fmt == SA_KEY_FORMAT_TYPEJ) {
            for (auto& kv : V[proc].st.keys) {
                if (kv.second->type != SA_KEY_TYPE_SYMMETRIC || !kv.second->known) continue;
                if (kv.second->val == is.kc && (o.h == INVALID_HANDLE || r.chance(1, 2))) o.h = kv.first;
                if (kv.second->val == is.kh && (o.h2 == INVALID_HANDLE || r.chance(1, 2))) o.h2 = kv.first;
            }
            swapped = r.chance(p.bad, 1000);
            if (swapped) std::swap(o.h, o.h2);
            o.p1 = is.kc;
            o.p2 = is.kh;
        } else {
            o.pre = r.chance(1, 3);
            o.n = r.next();
            o.n2 = 2 + r.below(2);
        }
        if (r.chance(p.tamper, 1000)) {
            if (is.fmt == SA_KEY_FORMAT_TYPEJ && r.chance(2, 3)) { typej_tamper(r, o, is, swapped); if (W.sealed.count(o.in)) return true; }
            else raw_tamper(r, o, is);
        }
        return true;
    }
    bool ok = r.chance(1, 2) ? typej_make(r, p, proc, o, is) : false;
    if (!ok) { o.h = o.h2 = INVALID_HANDLE; ok = soc_make(r, p, proc, o, is); }
    o.p1 = is.kc;
    o.p2 = is.kh;
    return ok;
}

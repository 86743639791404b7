// Operations, their recorded results, and the sequential meaning of the API (the reference model).
#pragma once
#include "rt.h"
#include <openssl/evp.h>
#include "sa.h"
#include "sa_cenc.h"
#include "sa_crypto.h"
#include "sa_key.h"
#include "sa_svp.h"

#define BIT(f) (1ULL << (f))
// ------------------------------------------------------------------ API table of one client process
#define API_LIST(X)                                                                                             \
    X(sa_get_version) X(sa_get_name) X(sa_get_device_id) X(sa_get_ta_uuid) X(sa_key_generate) X(sa_key_export)  \
    X(sa_key_import) X(sa_key_unwrap) X(sa_key_get_public) X(sa_key_derive) X(sa_key_exchange) X(sa_key_release)\
    X(sa_key_header) X(sa_key_digest) X(sa_key_provision_ta) X(sa_crypto_random) X(sa_crypto_cipher_init)       \
    X(sa_crypto_cipher_update_iv) X(sa_crypto_cipher_process) X(sa_crypto_cipher_process_last)                  \
    X(sa_crypto_cipher_release) X(sa_crypto_mac_init) X(sa_crypto_mac_process) X(sa_crypto_mac_process_key)     \
    X(sa_crypto_mac_compute) X(sa_crypto_mac_release) X(sa_crypto_sign) X(sa_svp_supported)                     \
    X(sa_svp_memory_alloc) X(sa_svp_buffer_alloc) X(sa_svp_buffer_create) X(sa_svp_memory_free)                 \
    X(sa_svp_buffer_free) X(sa_svp_buffer_release) X(sa_svp_buffer_write) X(sa_svp_buffer_copy)                 \
    X(sa_svp_key_check) X(sa_svp_buffer_check) X(sa_process_common_encryption)
struct Api {
#define X(n) decltype(&::n) n;
    API_LIST(X)
#undef X
};
extern Api api[NPROC];
void api_load();

// ------------------------------------------------------------------ reference cryptography (OpenSSL, not via seams)
Bytes r_digest(int dig, const Bytes& d);
size_t r_dlen(int dig);
const EVP_MD* r_md(int dig);
Bytes r_hmac(int dig, const Bytes& key, const Bytes& d);
Bytes r_cmac(const Bytes& key, const Bytes& d);
Bytes r_crypt(const EVP_CIPHER* c, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in);   // no padding
Bytes r_aes(const char* mode, bool enc, const Bytes& key, const Bytes& iv, const Bytes& in);
// AEAD: output of the data seen so far, and the tag of it
Bytes r_aead(bool chacha, bool enc, const Bytes& key, const Bytes& iv, const Bytes& aad, const Bytes& in, Bytes* tag);
Bytes r_pad(const Bytes& d);
bool r_unpad(const Bytes& d, Bytes& out);
Bytes r_hkdf(int dig, const Bytes& key, const Bytes& salt, const Bytes& info, size_t n);
Bytes r_concat(int dig, const Bytes& key, const Bytes& info, size_t n);
Bytes r_x963(int dig, const Bytes& key, const Bytes& info, size_t n);
Bytes r_kdf_cmac(const Bytes& key, const Bytes& other, unsigned counter, size_t n);
Bytes r_netflix_wrap(const Bytes& enc, const Bytes& hm);
typedef std::shared_ptr<EVP_PKEY> Pk;
Pk pk_wrap(EVP_PKEY* p);
Pk pk_ec_private(int curve, const Bytes& priv);       // may be null
Pk pk_generate(const char* what, int param);           // "RSA" bits, "EC" curve
Pk pk_generate_dh(const Bytes& p, const Bytes& g);
Pk pk_from_spki(const Bytes& der);
Bytes pk_spki(const Pk& p);
Bytes pk_pkcs8(const Pk& p);
bool pk_same_public(const Pk& a, const Pk& b);
Bytes pk_ecdh(const Pk& priv, const Pk& peer);
Bytes pk_ec_raw_private(const Pk& p, int curve);
Pk pk_from_pkcs8(const Bytes& b);
Pk pk_ec_from_pkcs8(int curve, const Bytes& b);        // null unless it is a key of that curve
size_t curve_size(int curve);
bool curve_nist(int curve);
bool curve_ed(int curve);
bool curve_x(int curve);
Bytes rsa_encrypt(const Pk& k, int alg, int dig, int mgf, const Bytes& label, const Bytes& pt);
bool rsa_decrypt(const Pk& k, int alg, int dig, int mgf, const Bytes& label, const Bytes& ct, Bytes& out);
Bytes elgamal_encrypt(const Pk& pub, int curve, const Bytes& pt, Rng& r);   // pt: curve size, may be empty on failure
bool elgamal_decrypt(const Bytes& priv, int curve, const Bytes& ct, Bytes& out);
bool verify_signature(const Pk& pub, int alg, int curve, int dig, int mgf, size_t salt, bool pre, const Bytes& in, const Bytes& sig);
Bytes hexb(const char* s);
std::string hex(const Bytes& b, size_t max = 24);

// ------------------------------------------------------------------ operations
enum OpKind {
    O_NONE = 0, O_KGEN, O_KIMPORT, O_KUNWRAP, O_KDERIVE, O_KEXCH, O_KEXPORT, O_KHEADER, O_KDIGEST, O_KPUBLIC, O_KRELEASE,
    O_CINIT, O_CIV, O_CPROC, O_CLAST, O_CREL, O_MINIT, O_MPROC, O_MPKEY, O_MCOMP, O_MREL, O_SIGN, O_RANDOM,
    O_SALLOC, O_SWRITE, O_SCOPY, O_SKCHECK, O_SBCHECK, O_SREL, O_SFREE, O_CENC, O_INFO, O_KPROV, O_OBS, O_MAX
};
extern const char* const op_names[O_MAX];

struct BufD {            // an sa_buffer argument
    bool null = false;
    int type = 0;        // sa_buffer_type
    uint32_t odd = 0;    // says it is of this unknown type
    uint64_t h = 0;      // svp handle
    size_t len = 0;      // clear: length of the buffer
    size_t off = 0;      // offset on entry
    size_t off_after = 0;
    Bytes data;          // clear input: its content.  clear output: the whole buffer after the call
};
struct SampleD {
    Bytes iv;
    size_t crypt = 0, skip = 0;
    std::vector<sa_subsample_length> subs;
    BufD in, out;
    uint64_t ctx = 0;
};
struct Op {
    int kind = O_NONE, proc = 0, life = 0, fiber = 0, index = 0;
    uint64_t id = 0, after = 0;   // after: takes effect later than that call (steps of one call)
    sa_uuid uuid{};
    uint64_t h = INVALID_HANDLE, h2 = INVALID_HANDLE, h3 = INVALID_HANDLE;
    int alg = 0, mode = 0, type = 0, fmt = 0, dig = 0, dig2 = 0, curve = 0;
    uint64_t n = 0, n2 = 0, n3 = 0;
    bool pre = false, nullout = false, null1 = false;
    sa_rights rights{}, rights2{}, rights3{};
    Bytes in, p1, p2, p3, p4, p5;
    BufD bi, bo;
    std::vector<sa_svp_offset> offs;
    std::vector<SampleD> samples;
    size_t cap = 0;             // room given for plain outputs
    // results
    int status = -1;
    uint64_t rh = INVALID_HANDLE, rh2 = INVALID_HANDLE, rh3 = INVALID_HANDLE;
    Bytes out;
    uint64_t olen = 0;
    sa_header hdr{};
    void* mem = nullptr;
    // how it ran
    unsigned faults = 0, fault_mask = 0, env_lo = 0, env_hi = 0;
    std::vector<Bytes> rng;
    uint64_t t0 = 0, t1 = 0;
    bool lenient = false;       // overlapped the end of its session
    bool foreign = false;       // the caller is not the one the session was opened for
    bool touched = false;       // refused, but clear output memory changed
    bool finished = false;
    unsigned overlap = 0;       // other calls of the session running at the same time
    unsigned env_sites = 0;
    bool oracle_free = false;
    uint64_t api_calls = 0;
    std::string str() const;
};

// ------------------------------------------------------------------ model
struct KeyM {
    int type = 0;
    sa_rights rights{};
    int curve = 0;
    size_t size = 0;
    Bytes val;                 // symmetric: the bytes; EC: raw private; RSA: pkcs8
    bool known = true;         // val is known
    Pk priv, pub;
    Bytes p, g;
    sa_uuid owner{};
    uint64_t uid = 0;          // identity (operation that made it)
    uint64_t hash() const;
};
typedef std::shared_ptr<const KeyM> KeyP;
struct CipM {
    int alg = 0, mode = 0;
    KeyP key;
    Bytes iv, aad, label;
    int dig = 0, dig2 = 0;
    Bytes data;                // input since the IV
    size_t produced = 0;
    bool undef = false, done = false, unk = false;
    sa_uuid owner{};
    uint64_t uid = 0, ver = 0;
};
typedef std::shared_ptr<const CipM> CipP;
struct MacM {
    int alg = 0, dig = 0;
    KeyP key;
    Bytes data;
    bool unk = false, done = false, undef = false;
    sa_uuid owner{};
    uint64_t uid = 0, ver = 0;
};
typedef std::shared_ptr<const MacM> MacP;
struct SvpM {
    void* mem = nullptr;
    std::vector<int16_t> c;    // content, -1 unknown
    std::vector<uint32_t> by;  // operation that wrote each byte
    sa_uuid owner{};
    uint64_t uid = 0, ver = 0;
    bool released_with_free = false;
};
typedef std::shared_ptr<const SvpM> SvpP;

struct Blob { KeyP key; Bytes mixin; bool has_mixin; uint64_t id = 0; };
struct State {
    std::map<uint64_t, KeyP> keys;
    std::map<uint64_t, CipP> ciphers;
    std::map<uint64_t, MacP> macs;
    std::map<uint64_t, SvpP> svps;
    std::shared_ptr<const std::map<Bytes, Blob>> blobs = std::make_shared<std::map<Bytes, Blob>>();
    uint64_t dev = 0;          // device id, once seen
    bool dev_seen = false;
    uint64_t hash() const;
};

struct Issued {                // a protected container and what its issuer put into it
    int fmt = 0;
    Bytes in, kc, kh;
    KeyP key;
    std::string header, payload;
};
struct World {                 // facts shared by all sessions of a run (known to the driver, not to the TA)
    std::map<Bytes, std::pair<Bytes, std::array<Bytes, 2>>> asym;   // ciphertext -> (spki, {params, plaintext})
    std::map<Bytes, Blob> blobs;         // containers exported in earlier session lives
    std::set<Bytes> all_blobs;           // every container ever returned
    std::map<Bytes, KeyP> sealed;        // Type-J / SoC containers made by the driver, with the key each must give
    struct TypeJ { int mode = 0; Bytes iv, ct; };
    std::map<Bytes, TypeJ> sealed_ct;    // what the Type-J key encrypts in each
    std::map<Bytes, KeyP> sealed_alike;  // altered text that may still mean the same: this key or none
    std::vector<Issued> issued;
    Bytes root_seed;                     // device root key as the reference computes it
    uint64_t device_id = 0;
    bool device_id_known = false;
    std::set<Bytes> derived_seen;
    size_t slots[4] = {0, 0, 0, 0};      // keys, ciphers, MACs, SVP buffers a session of a fresh TEE can hold (0: not known)
};
extern World W;

// successors of s under o; empty and `why` set if the recorded result is not one the API allows in s
typedef std::vector<State> States;
States model_apply(const State& s, const Op& o, std::string& why);
bool session_consistent(std::vector<Op>& ops, State start, std::string& why, State* end, uint64_t* nodes, const Op** culprit, bool* inconclusive = nullptr);

// ------------------------------------------------------------------ execution
void exec_op(Op& o);            // runs it against the real system (in the current fiber) and appends it to the history
extern std::vector<Op> H;       // completed operations, in completion order
extern std::vector<Op*> running;
struct View {
    State st;                   // best knowledge: exact when calls do not overlap
    std::vector<uint64_t> dead[4];
    bool open = false;
    int life = 0;
};
extern View V[NPROC];
extern bool G_no_probe;
void world_reset();
sa_rights rights_all(const char* id);
bool env_ok_time(const sa_rights& r, const Env& e);
bool env_ok_video(const sa_rights& r, const Env& e);

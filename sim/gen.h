// Workload generation: what the simulated clients ask of the TEE.
#pragma once
#include "world.h"

struct Prof {                      // one run's workload
    std::string name;
    int procs = 1, fibers = 2, ops = 12, setup = 10;
    unsigned w[O_MAX] = {0};
    // per thousand
    unsigned foreign = 0, dead = 10, wild = 5, bad = 50, tamper = 30, env_change = 0, slow = 30, unusual_rights = 300,
             windows = 0, output_rights = 0, ta_rights = 100, no_svp_opt = 200, big = 20, obs = 0, in_svp = 500, out_svp = 500, lenq = 50;
    bool alt = false;              // some fibers call as another identity
    int env_fiber = 0;             // changes made by an environment fiber
    bool uuids = true;             // processes have their own identities
    unsigned sync_key = 0;         // per thousand: ops of all fibers concentrate on few handles
    int pool = 0;                  // >0: prefer the first `pool` objects of each kind
    bool sealed = false;
};
struct Mat {
    Pk rsa[2];
    Bytes rsa_p8[2];
    std::map<int, std::vector<Bytes>> ec_raw;      // curve -> private keys
    std::map<int, std::vector<Bytes>> peers;       // curve -> SPKI of peers whose private half the driver holds
    Bytes dh_p[2], dh_g[2];
    std::vector<Bytes> dh_peers[2];
    std::map<Bytes, KeyP> known_peers;
};
extern Mat M;
void mat_init();
void gen_op(Rng& r, const Prof& p, int proc, Op& o);
void gen_kind(Rng& r, const Prof& p, int proc, int kind, Op& o);
sa_rights gen_rights(Rng& r, const Prof& p, int proc);
void env_init(Rng& r, const Prof& p);
void env_step(Rng& r, const Prof& p);
void uuid_setup(Rng& r);
sa_uuid uuid_of(int proc);
sa_uuid uuid_alt(int i);
void prov_make(Rng& r, const Prof& p, int proc, Op& o);
bool sealed_make(Rng& r, const Prof& p, int proc, Op& o);   // a Type-J or SoC container for an import

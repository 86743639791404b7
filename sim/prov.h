// The OpenSSL provider under simulation (property C20).
#pragma once
#include "rt.h"
void prov_begin();
int prov_kind(Rng& r);
void prov_step(int kind, uint64_t id, uint64_t rs);
void prov_get(uint64_t id);
void prov_drop_keys();
void prov_end_checks();
bool prov_may_stay();

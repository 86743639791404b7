#pragma once
#include "rt.h"
bool raw_active(int fiber);
bool raw_sent(int fiber, const uint8_t* b, size_t n);
bool raw_running(int fiber);
unsigned raw_accepted(int fiber);
void raw_begin(int fiber, uint64_t seed);
void raw_end(int fiber);
void raw_load(uintptr_t a, size_t n);
sa_status raw_invoke(void* fn, void* ctx, uint32_t id, const uint32_t* types, void* params);

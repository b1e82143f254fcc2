#pragma once
#include "query.h"
void print_results();
void prop_init();
void prop_case(Rng &r, u64 index);
void prop_done();
inline void start_library() { if (squash_start() != SQFS_OK) violation("start", "squash_start failed"); }
// runs f in a thread with that much stack
void with_stack(size_t bytes, std::function<void()> f);

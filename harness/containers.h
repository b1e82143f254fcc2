// The containers against their models, with allocations that fail if asked for
#pragma once
#include "prop.h"
namespace {
struct HashRun { sqfs_hash h; size_t vs; map<u32, vector<string>> model; size_t entries = 0; };
string value(Rng &r, size_t n) { string s; for (size_t i = 0; i < n; ++i) s += (char)r.next(); return s; }
void check_key(HashRun &x, u32 k) { void *p = sqfs_hash_get(&x.h, k); auto it = x.model.find(k); bool want = it != x.model.end() && !it->second.empty(); if (!want) { if (p) violation("hash-ghost", fmt("the key %u is found, but nothing is stored", k)); return; } if (!p) violation("hash-lost", fmt("the key %u is not found among %zu entries", k, x.entries)); if (memcmp(p, it->second.back().data(), x.vs)) violation("hash-value", fmt("the key %u has another value than stored last", k)); count("keys compared"); }
void hash_case(Rng &r, bool faults = false, bool huge = false) {
	HashRun x; static const size_t vss[] = {1, 2, 4, 7, 8, 12, 16, 100, 1000}; x.vs = vss[r.below(huge ? 7 : 9)]; size_t init = r.chance(20) ? 0 : (size_t)1 << r.below(8); Ledger before; memset(&x.h, 0xa5, sizeof x.h);
	if (r.chance(10)) { sqfs_hash y; size_t odd = 3 + r.below(100); while (!(odd & (odd - 1))) ++odd; if (!sqfs_hash_init(&y, 4, odd)) violation("hash-init", fmt("an initial capacity of %zu is accepted", odd)); string w = Ledger().against(before); if (!w.empty()) violation("leak", "a hash table that was refused: " + w); }
	if (faults && r.chance(20)) { sqfs_hash y; ip.arm(Interpose::MALLOC, 1, false); sqfs_err e = sqfs_hash_init(&y, x.vs, init); ip.disarm(); if (!e) sqfs_hash_destroy(&y); string w = Ledger().against(before); if (!w.empty()) violation("leak", "a hash table that could not be created: " + w); }
	if (sqfs_hash_init(&x.h, x.vs, init)) violation("hash-init", fmt("sqfs_hash_init failed with an initial capacity of %zu", init)); note(fmt("hash of values of %zu bytes, initial capacity %zu", x.vs, init));
	int style = huge ? (r.chance(70) ? 1 : 5) : (int)r.below(5); auto key = [&]() -> u32 { switch (style) { case 0: return (u32)r.below(20); case 1: return (u32)r.next(); case 2: return (u32)(r.below(200) << 20); case 3: return (u32)(r.below(300) * 64 + 5); case 5: return (u32)(r.below(200000)); default: { static const u32 e[] = {0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 256, 0xfffffffe}; return e[r.below(7)] ^ (u32)r.below(3) << r.below(30); } } };
	int ops = 20 + (int)r.below(r.chance(20) ? 6000 : 400), dups = r.chance(40) ? 100 : 0, removes = 5 + (int)r.below(40); if (huge) { ops = 130000 + (int)r.below(80000); removes = 3; count("tables of a hundred thousand entries"); } u64 hh = x.vs * 100 + init; size_t most = 0, sizes = 0; vector<u32> known;
	for (int i = 0; i < ops; ++i) {
		u32 k = !known.empty() && r.chance(huge ? 4 : 40) ? r.pick(known) : key(); hh = mix64(hh ^ k);
		if (r.chance(removes)) { auto it = x.model.find(k); bool had = it != x.model.end() && !it->second.empty(); note(fmt("remove %u", k)); sqfs_err e = sqfs_hash_remove(&x.h, k); if (e) violation("hash-remove", "sqfs_hash_remove failed"); if (had) { it->second.pop_back(); --x.entries; } check_key(x, k); count("removals"); }
		else if (r.chance(75)) { auto &v = x.model[k]; if (!v.empty() && !dups) { sqfs_hash_remove(&x.h, k); v.pop_back(); --x.entries; } string s = value(r, x.vs); char *exact = (char *)malloc(x.vs); memcpy(exact, s.data(), x.vs); note(fmt("add %u", k)); bool fault = faults && r.chance(30); if (fault) ip.arm(Interpose::MALLOC, 1 + r.below(2), r.chance(50)); sqfs_err ae = sqfs_hash_add(&x.h, k, exact); bool hit = fault && ip.fired(); ip.disarm(); memset(exact, 0x33, x.vs); free(exact);
			if (ae && !hit) violation("hash-add", "sqfs_hash_add failed"); if (hit) count(ae ? "failed container calls" : "container calls that coped"); if (ae) { check_key(x, k); if (r.chance(30)) for (auto &m : x.model) check_key(x, m.first); evaluated(); continue; } v.push_back(s); ++x.entries; known.push_back(k); check_key(x, k); count("additions"); if (x.entries > most) most = x.entries; }
		else check_key(x, k);
		if (x.entries != sizes && (x.entries & (x.entries - 1)) == 0 && ops < 1000) { for (auto &m : x.model) check_key(x, m.first); sizes = x.entries; } // about when it grows
		if (r.chance(2)) for (int j = 0; j < 20; ++j) check_key(x, key());
		evaluated();
	}
	for (auto &m : x.model) check_key(x, m.first); for (int j = 0; j < 100; ++j) check_key(x, key()); if (most > init) count("tables that grew");
	if (r.chance(30)) { for (auto &m : x.model) while (!m.second.empty()) { sqfs_hash_remove(&x.h, m.first); m.second.pop_back(); check_key(x, m.first); } }
	sqfs_hash_destroy(&x.h); string w = Ledger().against(before); if (!w.empty()) violation("leak", "after destroying a hash table: " + w); distinct(hh);
}
thread_local vector<u64> released; thread_local size_t item_size;
void release(void *p) { u64 id = 0; memcpy(&id, p, std::min<size_t>(8, item_size)); released.push_back(id); memset(p, 0xdd, item_size); }
void stack_case(Rng &r, bool faults = false, bool huge = false) {
	sqfs_stack s; memset(&s, 0xa5, sizeof s); static const size_t vss[] = {2, 4, 8, 9, 24, 100, 1000}; size_t vs = vss[r.below(huge ? 5 : 7)]; item_size = vs; size_t init = r.chance(40) ? 0 : r.below(20); bool freer = r.chance(80); Ledger before; if (r.chance(50)) sqfs_stack_init(&s); if (r.chance(10)) { sqfs_stack_init(&s); sqfs_stack_destroy(&s); }
	if (faults && r.chance(20)) { ip.arm(Interpose::MALLOC, 1, false); sqfs_err e = sqfs_stack_create(&s, vs, init, nullptr); ip.disarm(); (void)e; sqfs_stack_destroy(&s); string w = Ledger().against(before); if (!w.empty()) violation("leak", "a stack that could not be created: " + w); }
	if (sqfs_stack_create(&s, vs, init, freer ? release : nullptr)) violation("stack-create", "sqfs_stack_create failed"); note(fmt("stack of items of %zu bytes, initial capacity %zu", vs, init)); released.clear(); vector<string> model; u64 id = 1, hh = vs * 64 + init; size_t want_released = 0; size_t most = 0;
	auto check_at = [&](size_t i) { void *p = nullptr; if (sqfs_stack_at(&s, i, &p)) violation("stack-at", fmt("sqfs_stack_at(%zu) of %zu failed", i, model.size())); if (memcmp(p, model[i].data(), vs)) violation("stack-item", fmt("item %zu of %zu has changed", i, model.size())); count("items compared"); };
	int ops = 20 + (int)r.below(r.chance(20) ? 3000 : 300), pops = 20 + (int)r.below(50); if (huge) { ops = 110000 + (int)r.below(90000); pops = 5; count("stacks of a hundred thousand items"); }
	for (int i = 0; i < ops; ++i) {
		int k = (int)r.below(100); hh = mix64(hh ^ (k < pops)); evaluated();
		if (k < pops) { bool has = !model.empty(); short g = sqfs_stack_pop(&s); if (!!g != has) violation("stack-pop", fmt("sqfs_stack_pop with %zu items returned %d", model.size(), g)); if (has) { u64 top = 0; memcpy(&top, model.back().data(), std::min<size_t>(8, vs)); if (freer) { ++want_released; if (released.size() != want_released || released.back() != top) violation("stack-release", "the release function was not called once for the item popped"); } model.pop_back(); count("pops"); } }
		else { void *p = nullptr; bool fault = faults && r.chance(30); if (fault) ip.arm(Interpose::MALLOC, 1, r.chance(50)); sqfs_err pe = sqfs_stack_push(&s, &p); bool hit = fault && ip.fired(); ip.disarm(); if (pe && !hit) violation("stack-push", "sqfs_stack_push failed"); if (hit) count(pe ? "failed container calls" : "container calls that coped"); if (pe) { if (sqfs_stack_size(&s) != model.size()) violation("stack-size", "a failed push changed the size"); for (size_t j = 0; j < model.size(); ++j) check_at(j); continue; } string v = value(r, vs); u64 t = id++; memcpy(&v[0], &t, std::min<size_t>(8, vs)); memcpy(p, v.data(), vs); model.push_back(v); count("pushes"); most = std::max(most, model.size()); }
		if (sqfs_stack_size(&s) != model.size()) violation("stack-size", fmt("sqfs_stack_size is %zu, expected %zu", sqfs_stack_size(&s), model.size()));
		void *p = (void *)1; sqfs_err e = sqfs_stack_top(&s, &p); if (model.empty() ? !e : (e || memcmp(p, model.back().data(), vs))) violation("stack-top", "sqfs_stack_top gave something else"); if (!model.empty()) check_at(r.below(model.size()));
		if (r.chance(20)) { size_t bad = r.chance(50) ? model.size() : model.size() + r.below(1000); void *q = nullptr; if (!sqfs_stack_at(&s, bad, &q)) violation("stack-at", fmt("sqfs_stack_at(%zu) of %zu succeeded", bad, model.size())); if (!sqfs_stack_at(&s, (size_t)-1, &q)) violation("stack-at", "sqfs_stack_at(-1) succeeded"); }
		if ((most & (most - 1)) == 0 && ops < 500) for (size_t j = 0; j < model.size(); ++j) check_at(j);
	}
	vector<u64> left; for (size_t j = model.size(); j--;) { u64 t = 0; memcpy(&t, model[j].data(), std::min<size_t>(8, vs)); left.push_back(t); } if (released.size() != (freer ? want_released : 0)) violation("stack-release", "the release function was called too often"); released.clear(); sqfs_stack_destroy(&s); if (freer) { vector<u64> a = released, b = left; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) violation("stack-release", fmt("destroying a stack of %zu items released %zu", left.size(), released.size())); } else if (!released.empty()) violation("stack-release", "something was released without a release function"); if (r.chance(50)) sqfs_stack_destroy(&s);
	string w = Ledger().against(before); if (!w.empty()) violation("leak", "after destroying a stack: " + w); if (most > init) count("stacks that grew"); distinct(hh ^ 1);
}
}

#include "seam.h"
#include <sanitizer/common_interface_defs.h>
#include <cstdlib>
#include <algorithm>
#include <cstring>
#include <sanitizer/asan_interface.h>
extern "C" {
#include "DuckLib/core.h"
#include "DuckLib/memory.h"
}

Seam g_seam;
Counters g_counters;
States g_states;

bool Seam::shouldFail(size_t size) {
	totalRequests++;
	static const char *where = getenv("DSIM_WHERE");  // for people: who makes this request?
	if (where && totalRequests == strtoull(where, nullptr, 10)) __sanitizer_print_stack_trace();
	if (g_yield) g_yield();
	if (!active) return false;
	uint64_t n = requests++;
	if (opBudget && n > opBudget) {
		requests = 0;
		throw Violation("no progress: more than " + std::to_string(opBudget) + " allocation requests in one operation");
	}
	bool fail = false;
	if (failForever && injected) fail = true;
	for (auto &w : plan) if (n >= w.first && n - w.first < w.count) fail = true;
	if (failAbove && size > failAbove) fail = true;
	if (fail) { injected++; totalInjected++; }
	return fail;
}
static void fillNew(void *p, size_t from, size_t to) {
	if (to <= from) return;
	unsigned char *c = (unsigned char *) p;
	switch (g_seam.fill) {
	case Fill::Zero: memset(c + from, 0, to - from); break;
	case Fill::A5: memset(c + from, 0xA5, to - from); break;
	case Fill::FF: memset(c + from, 0xFF, to - from); break;
	case Fill::Random: for (size_t i = from; i < to; i++) c[i] = (unsigned char) g_seam.fillRng.next(); break;
	}
}
void Seam::note(void *p, size_t size) {
	live[p] = Block{size, owner, totalRequests};
	liveBytes += size;
	if (liveBytes > peakLive) peakLive = liveBytes;
}
void Seam::forget(void *p) {
	auto it = live.find(p);
	if (it == live.end()) return;
	liveBytes -= it->second.size;
	live.erase(it);
	totalFrees++;
}
size_t Seam::liveOf(int o) const {
	size_t n = 0;
	for (auto &kv : live) if (kv.second.owner == o) n++;
	return n;
}
std::string Seam::describeLive(int o) const {
	std::vector<std::pair<uint64_t, size_t>> v;
	for (auto &kv : live) if (kv.second.owner == o) v.push_back({kv.second.ordinal, kv.second.size});
	std::sort(v.begin(), v.end());
	std::string s;
	for (size_t i = 0; i < v.size() && i < 8; i++)
		s += " [request " + std::to_string(v[i].first) + ", " + std::to_string(v[i].second) + " bytes]";
	return s;
}
void Seam::resetAll() {
	// Blocks the previous run leaked (already reported) must not disturb the next one.
	for (auto &kv : live) {
#ifndef DSIM_POOL
		free(kv.first);
#endif
	}
	*this = Seam();
}

extern "C" {
#ifndef DSIM_POOL
void *dsim_malloc(size_t size) {
	if (g_seam.shouldFail(size)) return nullptr;
	void *p = malloc(size ? size : 1);
	if (!p) abort();
	fillNew(p, 0, size);
	// Zero bytes are none of the caller's business.
	if (!size) ASAN_POISON_MEMORY_REGION(p, 1);
	g_seam.note(p, size);
	return p;
}
void dsim_free(void *p) {
	if (!p) return;
	if (g_yield) g_yield();
	auto it = g_seam.live.find(p);
	if (it == g_seam.live.end()) {
		g_seam.complaints.push_back("free of a pointer that is not a live block");
		fprintf(stderr, "DSIM-BADFREE %p\n", p);
		free(p);  // AddressSanitizer explains.
		abort();
	}
	g_seam.forget(p);
	free(p);
}
void *dsim_realloc(void *p, size_t size) {
	if (!p) return dsim_malloc(size);
	auto it = g_seam.live.find(p);
	if (it == g_seam.live.end()) {
		fprintf(stderr, "DSIM-BADREALLOC %p\n", p);
		free(p);
		abort();
	}
	if (!size) { dsim_free(p); return nullptr; }
	if (g_seam.shouldFail(size)) return nullptr;
	size_t old = it->second.size;
	void *q = malloc(size);
	if (!q) abort();
	memcpy(q, p, old < size ? old : size);
	fillNew(q, old, size);
	g_seam.forget(p);
	free(p);
	g_seam.note(q, size);
	return q;
}
#else
// The portable build: the real pool allocator, wrapped. Bytes of the pool that no block owns are poisoned.
dl_error_t dsim_dl_malloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size) {
	if (size && g_seam.shouldFail(size)) { *memory = nullptr; return dl_error_outOfMemory; }
	void *p = *memory;
	dl_error_t e = dl_malloc(ma, &p, size);
	if (e) { *memory = p; return e; }
	ASAN_UNPOISON_MEMORY_REGION(p, size);
	fillNew(p, 0, size);
	if (g_seam.live.count(p)) throw Violation("the pool handed out a block that is still live");
	g_seam.note(p, size);
	*memory = p;
	return e;
}
dl_error_t dsim_dl_free(dl_memoryAllocation_t *ma, void **memory) {
	if (g_yield) g_yield();
	void *p = *memory;
	auto it = g_seam.live.find(p);
	if (p && it == g_seam.live.end()) {
		fprintf(stderr, "DSIM-BADFREE %p\n", p);
		abort();
	}
	dl_error_t e = dl_free(ma, memory);
	if (p && !e) {
		ASAN_POISON_MEMORY_REGION(p, it->second.size);
		g_seam.forget(p);
	}
	return e;
}
dl_error_t dsim_dl_realloc(dl_memoryAllocation_t *ma, void **memory, dl_size_t size) {
	void *p = *memory;
	if (!p) return dsim_dl_malloc(ma, memory, size);
	auto it = g_seam.live.find(p);
	if (it == g_seam.live.end()) {
		fprintf(stderr, "DSIM-BADREALLOC %p\n", p);
		abort();
	}
	if (size && g_seam.shouldFail(size)) return dl_error_outOfMemory;
	size_t old = it->second.size;
	void *q = p;
	dl_error_t e = dl_realloc(ma, &q, size);
	if (e) return e;
	ASAN_POISON_MEMORY_REGION(p, old);
	g_seam.forget(p);
	if (g_seam.live.count(q)) throw Violation("the pool moved a block onto a live one");
	ASAN_UNPOISON_MEMORY_REGION(q, size);
	fillNew(q, old, size);
	g_seam.note(q, size);
	*memory = q;
	return e;
}
#endif
}


// P11: histories of requests to the pool allocator, against a shadow of what is live.
#include "scen.h"
#include <cstring>
#include <cstdlib>

#ifdef DSIM_POOL
extern "C" {
#include "DuckLib/memory.h"
}
namespace {
struct Blk { unsigned char *p = nullptr; size_t size = 0; uint32_t pat = 0; };

struct PoolSim {
	dl_memoryAllocation_t ma{};
	unsigned char *mem = nullptr;
	size_t size = 0;
	std::map<int, Blk> live;
	std::map<int, unsigned char *> stale;  // where the last block of that name was
	uint32_t nextPat = 1;
	RunLog &log;
	explicit PoolSim(RunLog &l) : log(l) {}
	~PoolSim() { free(mem); }

	static unsigned char byteAt(uint32_t pat, size_t i) { return (unsigned char) ((pat * 2654435761u + i * 40503u) >> 7); }
	void paint(Blk &b, size_t from) { for (size_t i = from; i < b.size; i++) b.p[i] = byteAt(b.pat, i); }
	[[noreturn]] void bad(const std::string &s) { throw Violation("pool: " + s); }

	void check(const char *when, bool contents = true) {
		std::map<unsigned char *, const Blk *> order;
		for (auto &kv : live) {
			const Blk &b = kv.second;
			if (b.p < mem || b.p + b.size > mem + size) bad(std::string("a live block lies outside of the pool after ") + when);
			if ((uintptr_t) b.p % DL_ALIGNMENT) bad(std::string("a live block isn't aligned after ") + when);
			if (!order.insert({b.p, &b}).second) bad(std::string("two live blocks at one address after ") + when);
			if (contents)
				for (size_t i = 0; i < b.size; i++)
					if (b.p[i] != byteAt(b.pat, i)) bad("byte " + std::to_string(i) + " of block " + std::to_string(kv.first) + " changed during " + when);
		}
		unsigned char *end = mem;
		for (auto &kv : order) {
			if (kv.first < end) bad(std::string("live blocks overlap after ") + when);
			end = kv.first + kv.second->size;
		}
		// What the pool says about its use.
		dl_size_t used = 0, least = ma.blockList_length * sizeof *ma.blockList, most = least + 2 * DL_ALIGNMENT;
		dl_memory_usage(&used, ma);
		for (auto &kv : live) { least += kv.second.size; most += slack(kv.second.size); }
		if (!partial && (used < least || used > most)) bad("the pool counts " + std::to_string(used) + " bytes in use instead of " + std::to_string(least) + " to " + std::to_string(most) + " after " + when);
		// The descriptors live in the pool, too.
		unsigned char *t = (unsigned char *) ma.blockList, *tEnd = t + ma.blockList_length * sizeof *ma.blockList;
		if (t < mem || tEnd > mem + size) bad(std::string("the block table lies outside of the pool after ") + when);
		for (auto &kv : order)
			if (kv.first < tEnd && kv.first + kv.second->size > t) bad(std::string("a live block overlaps the block table after ") + when);
	}
	// The largest request that certainly fits: how much lies between two neighbors, when no new descriptor is needed.
	bool partial = false;  // a block is taken to be smaller than it is
	size_t certain() {
		size_t spare = 0;
		for (size_t i = 0; i < ma.blockList_length; i++) spare += ma.blockList[i].unlinked ? 1 : 0;
		if (!spare) return 0;
		std::map<unsigned char *, unsigned char *> used;
		for (auto &kv : live) used[kv.second.p] = kv.second.p + slack(kv.second.size);
		unsigned char *t = (unsigned char *) ma.blockList;
		used[t] = t + ma.blockList_length * sizeof *ma.blockList + 2 * DL_ALIGNMENT;
		unsigned char *at = mem;
		size_t best = 0;
		used[mem + size] = mem + size;
		for (auto &u : used) {
			if (u.first > at && (size_t) (u.first - at) > best) best = u.first - at;
			if (u.second > at) at = u.second;
		}
		return best > 2 * DL_ALIGNMENT ? best - 2 * DL_ALIGNMENT : 0;
	}
	static size_t slack(size_t n) { return n + 2 * DL_ALIGNMENT; }

	void alloc(int id, size_t n) {
		if (live.count(id)) return;
		size_t sure = certain();
		void *p = (void *) 0x5a5a;
		dl_error_t e = dl_malloc(&ma, &p, n);
		log.add("malloc " + std::to_string(id) + " " + std::to_string(n) + " -> " + (e ? errName(e) : std::to_string((unsigned char *) p - mem)));
		if (e) {
			g_counters["pool_refused"]++;
			if (n && n <= sure) bad("a request for " + std::to_string(n) + " bytes failed (" + errName(e) + ") with " + std::to_string(sure) + " free bytes in one piece");
			if (p) bad("a failed request returned a pointer");
		}
		else {
			if (!n) bad("a request for nothing succeeded");
			if (n > size) bad("a request for more than the pool succeeded");
			Blk b;
			b.p = (unsigned char *) p; b.size = n; b.pat = nextPat++;
			live[id] = b;
			check("malloc's bookkeeping", false);
			paint(live[id], 0);
		}
		check("malloc");
	}
	void release(int id) {
		auto it = live.find(id);
		if (it == live.end()) return;
		stale[id] = it->second.p;
		void *p = it->second.p;
		live.erase(it);
		dl_error_t e = dl_free(&ma, &p);
		log.add("free " + std::to_string(id) + " -> " + errName(e));
		if (e) bad(std::string("free of a live block: ") + errName(e));
		if (p) bad("free left the pointer");
		check("free");
	}
	// What was just given back is there for the next request of its size.
	void again(int id) {
		auto it = live.find(id);
		if (it == live.end()) return;
		size_t n = it->second.size, spare = 0;
		release(id);
		// Without a spare descriptor the table may have to grow first.
		for (size_t i = 0; i < ma.blockList_length; i++) spare += ma.blockList[i].unlinked ? 1 : 0;
		if (!spare) { alloc(id, n); return; }
		void *p = (void *) 0x5a5a;
		dl_error_t e = dl_malloc(&ma, &p, n);
		log.add("again " + std::to_string(id) + " -> " + (e ? errName(e) : std::to_string((unsigned char *) p - mem)));
		if (e) bad("a request for the " + std::to_string(n) + " bytes just given back failed: " + errName(e));
		Blk b;
		b.p = (unsigned char *) p; b.size = n; b.pat = nextPat++;
		live[id] = b;
		check("malloc's bookkeeping", false);
		paint(live[id], 0);
		check("malloc");
	}
	void resize(int id, size_t n) {
		auto it = live.find(id);
		if (it == live.end()) return;
		Blk &b = it->second;
		size_t sure = certain();
		void *p = b.p;
		dl_error_t e = dl_realloc(&ma, &p, n);
		log.add("realloc " + std::to_string(id) + " " + std::to_string(n) + " -> " + (e ? errName(e) : std::to_string((unsigned char *) p - mem)));
		if (e) {
			g_counters["pool_refused"]++;
			if (p != b.p) bad("a failed resize moved the pointer");
			if (n && (n <= sure || n <= b.size) && sure) bad("a resize to " + std::to_string(n) + " bytes failed (" + errName(e) + ") with room for it");
		}
		else {
			if (!n) bad("a resize to nothing succeeded");
			if (n > size) bad("a resize to more than the pool succeeded");
			stale[id] = b.p;
			size_t old = b.size;
			b.p = (unsigned char *) p;
			b.size = n < old ? n : old;
			partial = true;
			check("realloc");
			partial = false;
			b.size = n;
			check("realloc's bookkeeping", false);
			paint(b, old < n ? old : n);
		}
		check("realloc");
	}
	// Pointers that aren't live blocks.
	void wrong(const std::string &how, int id, bool re, size_t n) {
		unsigned char *p = nullptr;
		if (how == "stale") { auto it = stale.find(id); if (it == stale.end()) return; p = it->second; }
		else if (how == "inside") { auto it = live.find(id); if (it == live.end() || it->second.size < 2) return; p = it->second.p + it->second.size / 2; }
		else if (how == "out") p = mem + size + 64;
		else if (how == "table") p = (unsigned char *) ma.blockList;
		else if (how == "null") { if (re) return; p = nullptr; }
		for (auto &kv : live) if (kv.second.p == p) return;
		void *q = p;
		dl_error_t e = re ? dl_realloc(&ma, &q, n) : dl_free(&ma, &q);
		log.add(std::string(re ? "bad realloc " : "bad free ") + how + " -> " + errName(e));
		if (!e) bad(std::string(re ? "resizing" : "freeing") + " something that isn't a live block (" + how + ") succeeded");
		g_counters["pool_bad_pointer"]++;
		check("a rejected request");
	}
};
}
void runPool(const Scenario &s, RunLog &log) {
	PoolSim ps(log);
	ps.size = s.num("size", 4096);
	ps.mem = (unsigned char *) malloc(ps.size);
	Rng fr(s.num("fillseed", 1));
	std::string fill = s.get("fill", "a5");
	for (size_t i = 0; i < ps.size; i++) ps.mem[i] = fill == "zero" ? 0 : fill == "a5" ? 0xA5 : fill == "ff" ? 0xFF : (unsigned char) fr.next();
	std::string fit = s.get("fit", "best");
	dl_memoryFit_t f = fit == "first" ? dl_memoryFit_first : fit == "next" ? dl_memoryFit_next : fit == "worst" ? dl_memoryFit_worst : dl_memoryFit_best;
	dl_error_t e = dl_memory_init(&ps.ma, ps.mem, ps.size, f);
	log.add("init " + std::to_string(ps.size) + " " + fit + " -> " + errName(e));
	if (e) {
		if (ps.size > 4 * sizeof(dl_memoryBlock_t)) ps.bad("a pool with room for blocks was refused");
		log.outcome = "refused";
		return;
	}
	g_counters["fit_" + fit]++;
	size_t done = 0;
	for (auto &st : s.steps) {
		auto num = [&](const char *k) -> uint64_t { auto i = st.opt.find(k); return i == st.opt.end() ? 0 : strtoull(i->second.c_str(), 0, 10); };
		int id = (int) num("id");
		size_t n = num("n");
		if (st.op == "m") ps.alloc(id, n);
		else if (st.op == "f") ps.release(id);
		else if (st.op == "r") ps.resize(id, n);
		else if (st.op == "again") ps.again(id);
		else if (st.op == "badfree") ps.wrong(st.opt.count("how") ? st.opt.at("how") : "null", id, false, 0);
		else if (st.op == "badrealloc") ps.wrong(st.opt.count("how") ? st.opt.at("how") : "stale", id, true, n ? n : 8);
		else if (st.op == "fill") {  // until it is exhausted
			int k = 100000 + 1000 * id;
			for (int i = 0; i < 600; i++) {
				uint64_t before = g_counters["pool_refused"];
				ps.alloc(k + i, n);
				if (g_counters["pool_refused"] != before) { g_counters["pool_exhausted"]++; break; }
			}
		}
		else if (st.op == "drain") {
			std::vector<int> ids;
			for (auto &kv : ps.live) ids.push_back(kv.first);
			Rng r(num("seed"));
			for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]);
			size_t keep = num("keep");
			for (size_t i = keep; i < ids.size(); i++) ps.release(ids[i]);
		}
		else throw std::runtime_error("unknown step " + st.op);
		done++;
		g_states.add(hashStr(fit) ^ ps.live.size() * 31 ^ ps.ma.blockList_length * 1009 ^ (uint64_t) ps.ma.blockList_indexOfBlockList * 65537);
	}
	// Everything goes back; what is left must be in one piece on either side of the table.
	while (!ps.live.empty()) ps.release(ps.live.begin()->first);
	size_t sure = ps.certain();
	if (sure) {
		ps.alloc(1, sure);
		ps.release(1);
	}
	dl_size_t used = 0;
	dl_memory_usage(&used, ps.ma);
	if (used != ps.ma.blockList_length * sizeof *ps.ma.blockList) ps.bad("bytes are in use after everything was freed");
	dl_memory_quit(&ps.ma);
	log.nontrivial = done >= 8;
	log.outcome = "ok";
}
#else
void runPool(const Scenario &, RunLog &) { throw std::runtime_error("the pool kind needs a pool variant"); }
#endif

Scenario genPool(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 7919 + 11);
	Scenario s;
	static const char *fits[] = {"first", "next", "best", "worst"};
	static const char *fills[] = {"zero", "a5", "ff", "random"};
	size_t size = r.chance(1, 12) ? r.range(1, 400) : r.chance(1, 3) ? r.range(400, 1500) : r.chance(1, 2) ? r.range(1500, 6000) : r.range(6000, 60000);
	s.head["size"] = std::to_string(size);
	s.head["fit"] = fits[r.below(4)];
	s.head["fill"] = fills[r.below(4)];
	s.head["fillseed"] = std::to_string(r.below(1000));
	int ids = (int) r.range(2, 40), n = (int) r.range(6, tier ? 400 : 150);
	size_t usual = r.chance(1, 2) ? size / (ids * 2) + 1 : r.chance(1, 2) ? 24 : size / 6 + 1;
	auto sz = [&]() -> size_t {
		switch (r.below(12)) {
		case 0: return r.below(3) ? 1 + r.below(16) : 0;
		case 1: return 8 * (1 + r.below(20));
		case 2: return size / 2 + r.below(size);
		case 3: if (r.chance(1, 6)) return (size_t) -1 - r.below(40);
			return sizeof(void *) * 6 * (1 + r.below(6));
		default: return 1 + r.below(usual * 2);
		}
	};
	// Phases lean towards growing or towards shrinking.
	int lean = 5;
	for (int i = 0; i < n; i++) {
		if (r.chance(1, 20)) lean = (int) r.range(1, 9);
		Step st;
		auto set = [&](const char *k, uint64_t v) { st.opt[k] = std::to_string(v); };
		unsigned k = r.below(100);
		if (k < 2) { st.op = "drain"; set("seed", r.below(1000)); set("keep", r.below(ids)); }
		else if (k < 3) { st.op = "fill"; set("id", i); set("n", 1 + r.below(usual * 2)); }
		else if (k < 9) {
			static const char *how[] = {"stale", "stale", "stale", "inside", "out", "table", "null"};
			st.op = r.chance(2, 3) ? "badfree" : "badrealloc";
			st.opt["how"] = how[r.below(7)];
			set("id", r.below(ids)); set("n", 1 + r.below(usual));
		}
		else if (k < 14) { st.op = "again"; set("id", r.below(ids)); }
		else if (k < 37) { st.op = "r"; set("id", r.below(ids)); set("n", sz()); }
		else if ((int) r.below(10) < lean) { st.op = "m"; set("id", r.below(ids)); set("n", sz()); }
		else { st.op = "f"; set("id", r.below(ids)); }
		s.steps.push_back(st);
	}
	return s;
}

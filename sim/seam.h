// The seams the simulator controls: allocator, collector, instruction clock.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <stdexcept>
#include <functional>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a + 1)); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// A broken property seen by an invariant while the run proceeds.
struct Violation : std::runtime_error {
	explicit Violation(const std::string &s) : std::runtime_error(s) {}
};

enum class Fill { Zero, A5, FF, Random };

// One request window: requests [first, first+count) of the current operation fail.
struct FaultWindow { uint64_t first = 0, count = 0; };

struct Seam {
	// Allocator
	bool active = false;               // requests are counted and may be failed
	uint64_t requests = 0;             // requests since the operation began
	uint64_t injected = 0;             // failures injected since the operation began
	std::vector<FaultWindow> plan;     // which of them fail
	uint64_t failAbove = 0;            // 0: off, otherwise requests for more bytes fail
	bool failForever = false;          // set by tests of persistent exhaustion: after the first failure everything fails
	Fill fill = Fill::A5;
	Rng fillRng{7};
	uint64_t totalRequests = 0, totalInjected = 0, totalFrees = 0, peakLive = 0;
	uint64_t opBudget = 0;             // requests allowed in one operation; 0: unlimited
	struct Block { size_t size; int owner; uint64_t ordinal; };
	std::unordered_map<void *, Block> live;
	uint64_t liveBytes = 0;
	int owner = 0;                     // instance on whose behalf requests are made
	std::vector<std::string> complaints;  // invalid frees and the like: recorded, raised at the end of the operation
	bool shouldFail(size_t size);
	void note(void *p, size_t size);
	void forget(void *p);
	size_t liveOf(int owner) const;
	std::string describeLive(int owner) const;
	void beginOp() { requests = 0; injected = 0; }
	void resetAll();
};
extern Seam g_seam;
extern std::function<void()> g_yield;  // where a scheduler may switch to another instance

// Number of kinds of faults injected in this process, for the evidence.
struct Counters {
	std::map<std::string, uint64_t> c;
	uint64_t &operator[](const std::string &k) { return c[k]; }
};
extern Counters g_counters;
// Covered abstract states (hash set) for the evidence.
struct States {
	std::set<uint64_t> s;
	void add(uint64_t h) { if (s.size() < 2000000) s.insert(h); }
};
extern States g_states;

inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *c = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

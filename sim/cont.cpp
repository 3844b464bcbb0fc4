// P17: histories of container operations with failing allocations, against plain sequences, maps and texts.
#include "scen.h"
#include <cstring>
#include <algorithm>
#include <sanitizer/asan_interface.h>
extern "C" {
#include "DuckLib/array.h"
#include "DuckLib/trie.h"
#include "DuckLib/string.h"
}
namespace {
struct Arr { dl_array_t a{}; std::vector<unsigned char> m; size_t es = 1; size_t n() const { return m.size() / es; } };
struct Tri { dl_trie_t t{}; std::map<std::string, int64_t> m; int64_t null = -1; };

struct Conts {
	RunLog &log;
	dl_memoryAllocation_t ma{};
	void *pool = nullptr;
	std::map<int, Arr> arrs;
	std::map<int, Tri> tries;
	std::vector<std::string> keys;  // every key the history mentions
	explicit Conts(RunLog &l) : log(l) {}
	[[noreturn]] void bad(const std::string &s) { throw Violation("container: " + s); }
	std::string show(const Arr &a) { return escapeBytes(std::string(a.m.begin(), a.m.end())); }

	void checkArr(int id, const char *when) {
		Arr &a = arrs[id];
		if (a.a.elements_length != a.n()) bad(std::string("an array has ") + std::to_string(a.a.elements_length) + " elements instead of " + std::to_string(a.n()) + " after " + when);
		if (a.a.element_size != a.es) bad(std::string("an array's element size changed after ") + when);
		if (a.a.elements_memorySize < a.m.size()) bad(std::string("an array claims less memory than it uses after ") + when);
		std::vector<unsigned char> e(a.es);
		for (size_t i = 0; i < a.n(); i++) {
			dl_error_t er = dl_array_get(&a.a, e.data(), i);
			if (er || memcmp(e.data(), a.m.data() + i * a.es, a.es)) bad("element " + std::to_string(i) + " of an array isn't what was stored, after " + when);
		}
		// Too far on either side
		std::vector<unsigned char> g(a.es, 0x77), h = g;
		if (!dl_array_get(&a.a, g.data(), a.n()) || !dl_array_get(&a.a, g.data(), -1) || g != h) bad(std::string("an element outside of an array could be read after ") + when);
	}
	void checkTrie(int id, const char *when) {
		Tri &t = tries[id];
		auto one = [&](const std::string &k) {
			// The key isn't followed by anything readable.
			char *p = (char *) malloc(k.size() ? k.size() : 1);
			memcpy(p, k.data(), k.size());
			dl_ptrdiff_t got = 0x7777;
			if (k.empty()) { dl_trie_find(t.t, &got, (const dl_uint8_t *) p, 0); }
			else dl_trie_find(t.t, &got, (const dl_uint8_t *) p, k.size());
			free(p);
			auto i = t.m.find(k);
			int64_t want = i != t.m.end() ? i->second : k.empty() ? t.null : -1;
			if (got != want) bad("key \"" + escapeBytes(k) + "\" maps to " + std::to_string(got) + " instead of " + std::to_string(want) + " after " + when);
		};
		for (auto &k : keys) {
			one(k);
			if (!k.empty()) { one(k.substr(0, k.size() - 1)); one(k.substr(0, k.size() / 2)); }
			one(k + "x");
			one(k + std::string(1, '\0'));
		}
	}
	void checkAll(const char *when) {
		for (auto &p : arrs) checkArr(p.first, when);
		for (auto &p : tries) checkTrie(p.first, when);
		checkComplaints(when);
	}
};
std::string unhex(const std::string &s) {
	std::string o;
	for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char) std::stoi(s.substr(i, 2), nullptr, 16);
	return o;
}
std::string hex(const std::string &s) {
	std::string o;
	for (unsigned char c : s) { char b[4]; snprintf(b, sizeof b, "%02x", c); o += b; }
	return o;
}
}
void runContainers(const Scenario &s, RunLog &log) {
	Conts c(log);
	std::string fill = s.get("fill", "a5");
	g_seam.fill = fill == "zero" ? Fill::Zero : fill == "ff" ? Fill::FF : fill == "random" ? Fill::Random : Fill::A5;
	g_seam.owner = 1;
#ifdef DSIM_POOL
	size_t psize = s.num("pool", 1 << 18);
	c.pool = malloc(psize);
	if (dl_memory_init(&c.ma, c.pool, psize, dl_memoryFit_best)) throw std::runtime_error("pool");
	ASAN_POISON_MEMORY_REGION(c.pool, psize);
	struct Freer { void *p; size_t n; ~Freer() { ASAN_UNPOISON_MEMORY_REGION(p, n); free(p); } } freer{c.pool, psize};
#endif
	for (auto &st : s.steps) if (st.opt.count("key")) c.keys.push_back(unhex(st.opt.at("key")));
	c.keys.push_back("");
	std::sort(c.keys.begin(), c.keys.end());
	c.keys.erase(std::unique(c.keys.begin(), c.keys.end()), c.keys.end());
	size_t done = 0, failed = 0;
	for (auto &st : s.steps) {
		auto num = [&](const char *k) -> int64_t { auto i = st.opt.find(k); return i == st.opt.end() ? 0 : (int64_t) strtoll(i->second.c_str(), 0, 10); };
		int id = (int) num("id");
		std::string data = st.opt.count("data") ? unhex(st.opt.at("data")) : "";
		dl_error_t e = dl_error_ok;
		bool injected = false, wantError = false, skip = false;
		auto run = [&](auto f) { Plan pl(st, nullptr); e = f(); injected = g_seam.injected != 0; };
		std::string what = st.op;
		if (st.op == "anew") {
			if (c.arrs.count(id)) { continue; }
			Arr &a = c.arrs[id];
			a.es = num("es") ? num("es") : 1;
			dl_array_init(&a.a, &c.ma, a.es, num("fit") ? dl_array_strategy_fit : dl_array_strategy_double);
		}
		else if (st.op == "tnew") {
			if (c.tries.count(id)) continue;
			Tri &t = c.tries[id];
			t.null = st.opt.count("null") ? num("null") : -1;
			dl_trie_init(&t.t, &c.ma, t.null);
		}
		else if (st.op[0] == 'a' || st.op[0] == 'x') {
			if (!c.arrs.count(id)) continue;
			Arr &a = c.arrs[id];
			if (st.op[0] == 'x' && a.es != 1) continue;
			size_t es = a.es, n = a.n();
			auto need = [&](size_t k) { data.resize(k * es, 0x31); };
			size_t k = (size_t) num("n");
			dl_ptrdiff_t at = (dl_ptrdiff_t) num("at");
			if (n) { if (st.opt.count("frac")) at = (dl_ptrdiff_t) (num("frac") % n); }
			if (st.op == "apush") {
				need(1);
				bool nul = num("nul");
				run([&] { return dl_array_pushElement(&a.a, nul ? nullptr : (void *) data.data()); });
				if (nul) data.assign(es, 0);
				if (!e) a.m.insert(a.m.end(), data.begin(), data.end());
			}
			else if (st.op == "apushn") {
				need(k);
				bool nul = num("nul");
				run([&] { return dl_array_pushElements(&a.a, nul ? nullptr : (void *) data.data(), k); });
				if (nul) data.assign(es * k, 0);
				if (!e) a.m.insert(a.m.end(), data.begin(), data.end());
			}
			else if (st.op == "apop" || st.op == "apopn") {
				bool one = st.op == "apop";
				if (one) k = 1;
				bool nul = num("nul");
				std::vector<unsigned char> out(k * es + 1, 0x55);
				run([&] { return one ? dl_array_popElement(&a.a, nul ? nullptr : out.data()) : dl_array_popElements(&a.a, nul ? nullptr : out.data(), k); });
				wantError = k > n;
				if (!wantError && !e) {
					if (!nul && memcmp(out.data(), a.m.data() + (n - k) * es, k * es)) c.bad("popped elements aren't the ones on top");
					a.m.resize((n - k) * es);
				}
			}
			else if (st.op == "aget" || st.op == "atop") {
				std::vector<unsigned char> out(es, 0x55);
				bool top = st.op == "atop";
				run([&] { return top ? dl_array_getTop(&a.a, out.data()) : dl_array_get(&a.a, out.data(), at); });
				if (top) { wantError = !n; at = n - 1; }
				else wantError = at < 0 || (size_t) at >= n;
				if (!wantError && !e && memcmp(out.data(), a.m.data() + at * es, es)) c.bad("the element read isn't the one stored");
			}
			else if (st.op == "aset" || st.op == "asettop") {
				need(1);
				bool top = st.op == "asettop";
				run([&] { return top ? dl_array_setTop(&a.a, (void *) data.data()) : dl_array_set(&a.a, data.data(), at); });
				if (top) { wantError = !n; at = n - 1; }
				else wantError = at < 0 || (size_t) at >= n;
				if (!wantError && !e) memcpy(a.m.data() + at * es, data.data(), es);
			}
			else if (st.op == "aclear") {
				run([&] { return dl_array_clear(&a.a); });
				if (!e) a.m.clear();
			}
			else if (st.op == "aquit") {
				run([&] { return dl_array_quit(&a.a); });
				if (e) c.bad(std::string("an array couldn't be released: ") + errName(e));
				c.arrs.erase(id);
			}
			else if (st.op == "xint" || st.op == "xsize" || st.op == "xu8" || st.op == "xbool") {
				int64_t v = num("v");
				std::string t;
				if (st.op == "xint") { run([&] { return dl_string_fromPtrdiff(&a.a, (dl_ptrdiff_t) v); }); t = std::to_string((long long) (dl_ptrdiff_t) v); }
				else if (st.op == "xsize") { run([&] { return dl_string_fromSize(&a.a, (dl_size_t) v); }); t = std::to_string((unsigned long long) (dl_size_t) v); }
				else if (st.op == "xu8") { run([&] { return dl_string_fromUint8(&a.a, (dl_uint8_t) v); }); t = std::to_string((unsigned) (dl_uint8_t) v); }
				else { run([&] { return dl_string_fromBool(&a.a, v ? dl_true : dl_false); }); t = v ? "true" : "false"; }
				size_t before = a.m.size();
				if (e) {
					// A part of the new text may be there, but what was there before is untouched.
					size_t extra = a.a.elements_length < before ? (size_t) -1 : a.a.elements_length - before;
					if (extra > t.size()) c.bad("a failed append left more text than it was to append");
					a.m.insert(a.m.end(), t.begin(), t.begin() + extra);
				}
				else a.m.insert(a.m.end(), t.begin(), t.end());
			}
			else if (st.op == "xread") {
				// Texts are read back: a number in both notations, spoilt ones, and truth values.
				int64_t v = num("v") / 4;
				char b[64];
				std::string t;
				bool want = true;
				switch (k % 6) {
				case 0: t = std::to_string((long long) v); break;
				case 1: snprintf(b, sizeof b, v < 0 ? "-0x%llx" : "0x%llx", (unsigned long long) (v < 0 ? -v : v)); t = b; break;
				case 2: snprintf(b, sizeof b, v < 0 ? "-0X%llX" : "0X%llX", (unsigned long long) (v < 0 ? -v : v)); t = b; break;
				case 3: t = std::to_string((long long) v); t.insert(t.begin() + (at < 0 ? 0 : (size_t) at % (t.size() + 1)), v & 1 ? 'g' : '.'); want = false; break;
				case 4: t = v & 1 ? "" : "-"; want = false; break;
				default: t = v % 3 == 0 ? "true" : v % 3 == 1 ? "false" : v & 4 ? "tru" : "falsey"; break;
				}
				dl_uint8_t *p = (dl_uint8_t *) malloc(t.size() ? t.size() : 1);
				memcpy(p, t.data(), t.size());
				if (k % 6 == 5) {
					dl_bool_t r = 2;
					e = dl_string_toBool(&r, p, t.size());
					want = t == "true" || t == "false";
					if (!e && want && (r != 0) != (t == "true")) c.bad("a truth value isn't read as it is written");
				}
				else {
					dl_ptrdiff_t r = 77;
					e = dl_string_toPtrdiff(&r, p, t.size());
					if (!e && want && r != v) c.bad("a number isn't read as it is written: " + t);
				}
				if (k % 6 != 5 || want) {
					dl_bool_t same = 2;
					std::vector<unsigned char> &m = a.m;
					dl_string_compare(&same, p, t.size(), (const dl_uint8_t *) a.a.elements, m.size());
					if ((same != 0) != (t.size() == m.size() && !memcmp(t.data(), m.data(), t.size()))) c.bad("texts aren't compared right");
				}
				free(p);
				wantError = !want;
			}
			else if (st.op == "xtrie") {
				int tid = (int) num("t");
				if (!c.tries.count(tid)) continue;
				size_t before = a.m.size();
				run([&] { return dl_trie_prettyPrint(&a.a, c.tries[tid].t); });
				if (a.a.elements_length < before) c.bad("a text lost what was in it");
				for (size_t i = 0; i < before; i++)
					if (((unsigned char *) a.a.elements)[i] != a.m[i]) c.bad("appending to a text changed what was in it");
				// The format isn't checked here.
				a.m.assign((unsigned char *) a.a.elements, (unsigned char *) a.a.elements + a.a.elements_length);
			}
			else throw std::runtime_error("unknown step " + st.op);
		}
		else if (st.op[0] == 't') {
			if (!c.tries.count(id)) continue;
			Tri &t = c.tries[id];
			std::string key = st.opt.count("key") ? unhex(st.opt.at("key")) : "";
			if (st.op == "tins") {
				int64_t v = num("v");
				char *p = (char *) malloc(key.size() ? key.size() : 1);
				memcpy(p, key.data(), key.size());
				run([&] { return dl_trie_insert(&t.t, (const dl_uint8_t *) p, key.size(), (dl_ptrdiff_t) v); });
				free(p);  // The trie keeps its own copy.
				if (!e) t.m[key] = v;
			}
			else if (st.op == "tquit") {
				run([&] { return dl_trie_quit(&t.t); });
				if (e) c.bad(std::string("a trie couldn't be released: ") + errName(e));
				c.tries.erase(id);
			}
			else throw std::runtime_error("unknown step " + st.op);
		}
		else throw std::runtime_error("unknown step " + st.op);
		if (wantError && !e) c.bad(what + " outside of the container succeeded");
		if (!wantError && e && !injected) {
#ifdef DSIM_POOL
			if (e != dl_error_outOfMemory)
#endif
			c.bad(what + " failed: " + errName(e));
		}
		if (e && injected) { failed++; if (e != dl_error_outOfMemory) c.bad(what + " reports " + errName(e) + " instead of outOfMemory"); }
		log.add(what + " " + std::to_string(id) + " -> " + errName(e));
		c.checkAll(what.c_str());
		done++;
		g_states.add(hashStr(what) ^ (uint64_t) e * 7919 ^ c.arrs.size() * 31 ^ c.tries.size() * 1009);
	}
	for (auto &a : c.arrs) if (dl_error_t e = dl_array_quit(&a.second.a)) c.bad(std::string("an array couldn't be released: ") + errName(e));
	for (auto &t : c.tries) if (dl_error_t e = dl_trie_quit(&t.second.t)) c.bad(std::string("a trie couldn't be released: ") + errName(e));
	checkComplaints("release");
	if (g_seam.liveOf(1)) c.bad("memory was lost:" + g_seam.describeLive(1));
	log.nontrivial = done >= 6 && failed >= 1;
	log.outcome = "ok";
}

Scenario genContainers(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 104729 + 3);
	Scenario s;
	static const char *fills[] = {"zero", "a5", "ff", "random"};
	s.head["fill"] = fills[r.below(4)];
	if (r.chance(1, 4)) s.head["pool"] = std::to_string(r.range(1500, 12000));
	int n = (int) r.range(8, tier ? 200 : 90);
	int na = (int) r.range(1, 3), nt = (int) r.range(0, 2);
	// A family of keys
	std::vector<std::string> keys;
	std::string alpha = r.chance(1, 3) ? "ab" : r.chance(1, 2) ? std::string("a\0\xff", 3) : "abcdefgh-19";
	for (int i = 0; i < (int) r.range(2, 16); i++) {
		std::string k;
		if (!keys.empty() && r.chance(2, 3)) {
			k = r.pick(keys);
			if (r.chance(1, 2) && !k.empty()) k.resize(r.below(k.size() + 1));
		}
		for (uint64_t j = r.below(r.chance(1, 8) ? 60 : 6); j > 0; j--) k += alpha[r.below(alpha.size())];
		keys.push_back(k);
	}
	auto mk = [&](const char *op, int id) { Step st; st.op = op; st.opt["id"] = std::to_string(id); return st; };
	for (int i = 0; i < na; i++) {
		Step st = mk("anew", i);
		st.opt["es"] = std::to_string(i == 0 || r.chance(1, 3) ? 1 : r.range(1, 24));
		st.opt["fit"] = std::to_string(r.below(2));
		s.steps.push_back(st);
	}
	for (int i = 0; i < nt; i++) {
		Step st = mk("tnew", i);
		st.opt["null"] = std::to_string(r.chance(1, 2) ? -1 : (int) r.below(5));
		s.steps.push_back(st);
	}
	unsigned faults = (unsigned) r.range(0, 4);
	auto bytes = [&](size_t k) { std::string d; for (size_t i = 0; i < k; i++) d += (char) r.below(256); return hex(d); };
	for (int i = 0; i < n; i++) {
		Step st;
		if (nt && r.chance(nt == 1 ? 2 : 3, 5)) {
			int id = (int) r.below(nt);
			unsigned k = r.below(30);
			if (k == 0) { st = mk("tquit", id); s.steps.push_back(st); st = mk("tnew", id); }
			else if (k == 1) { st = mk("xtrie", 0); st.opt["t"] = std::to_string(id); }
			else { st = mk("tins", id); st.opt["key"] = hex(r.pick(keys)); st.opt["v"] = std::to_string(r.chance(1, 10) ? -1 : r.range(0, 1000)); }
		}
		else {
			int id = (int) r.below(na);
			static const char *ops[] = {"apush", "apush", "apush", "apushn", "apushn", "apop", "apopn", "aget", "atop", "aset", "asettop", "aclear", "aquit", "xint", "xint", "xsize", "xu8", "xbool", "xread"};
			st = mk(ops[r.below(19)], id);
			if (st.op == "xread") { st.opt["n"] = std::to_string(r.below(6)); st.opt["at"] = std::to_string(r.below(20)); }
			if (st.op == "aquit" && r.chance(3, 4)) st.op = "apush";
			if (st.op == "aquit") { s.steps.push_back(st); st = mk("anew", id); st.opt["es"] = std::to_string(id == 0 ? 1 : r.chance(1, 3) ? 1 : r.range(1, 24)); st.opt["fit"] = std::to_string(r.below(2)); }
			else if (st.op[0] == 'x') {
				static const int64_t vs[] = {0, 1, -1, 9, 10, -10, 127, 128, 255, 256, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN};
				st.opt["v"] = std::to_string((long long) (r.chance(1, 2) ? vs[r.below(14)] : (int64_t) (r.next() >> r.below(64))));
				st.opt["id"] = "0";
			}
			else {
				if (r.chance(1, 6)) st.opt["nul"] = "1";
				if (st.op == "apushn" || st.op == "apopn") { size_t k = r.below(r.chance(1, 6) ? 60 : 8); st.opt["n"] = std::to_string(k); if (st.op == "apushn") st.opt["data"] = bytes(k * 3); }
				else if (st.op == "apush" || st.op[1] == 's') st.opt["data"] = bytes(24);
				if (st.op == "aget" || st.op == "aset") { if (r.chance(3, 4)) st.opt["frac"] = std::to_string(r.below(100000)); else st.opt["at"] = std::to_string(r.range(-2, 8)); }
			}
		}
		if (st.op != "anew" && st.op != "tnew" && r.below(8) < faults) {
			st.opt["alloc"] = std::to_string(r.below(6)) + ":" + std::to_string(r.chance(1, 2) ? 1 : r.range(1, 4));
			if (r.chance(1, 5)) { st.opt["alloc"] = std::to_string(r.below(4)) + ":1"; st.opt["forever"] = "1"; }
		}
		s.steps.push_back(st);
	}
	return s;
}

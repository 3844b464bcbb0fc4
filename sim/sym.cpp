// P16: names and their numbers over a history of loads, lookups, interned and generated names, and failures.
#include "scen.h"
#include <algorithm>
#include <cstring>

namespace {
std::vector<std::string> lines(const std::string &t) {
	std::vector<std::string> v;
	size_t i = 0;
	while (i < t.size()) {
		size_t j = t.find('\n', i);
		if (j == std::string::npos) j = t.size();
		if (j > i) v.push_back(t.substr(i, j - i));
		i = j + 1;
	}
	return v;
}
// What one event has to be. Numbers of names are looked up once the script is compiled.
struct Want { char kind; std::string a, b; };  // n: number of a, s: text, f: a fresh number, t: a fresh name
struct Program { std::string source; std::vector<Want> want; std::map<std::string, int> globals; };
Program build(const std::vector<std::string> &items) {
	Program p;
	std::string s;
	bool macro = false;
	for (auto &l : items) {
		char k = l[0];
		std::string a = l.size() > 2 ? l.substr(2) : "", b;
		if (k == 'e' || k == 'E' || k == 'G') {
			size_t sp = a.find(' ');
			if (sp == std::string::npos) continue;
			b = a.substr(sp + 1);
			a = a.substr(0, sp);
		}
		auto text = [&](const std::string &t) { p.want.push_back({'s', t, ""}); };
		switch (k) {
		case 'q':  // in the bytecode
			s += " (emit (symbol-id (quote " + a + "))) (emit (symbol-string (quote " + a + "))) (emit (quote " + a + "))";
			p.want.push_back({'n', a, ""}); text("\"" + escapeBytes(a) + "\""); text("'" + escapeBytes(a));
			break;
		case 'c':  // in the compiler
			s += " (emit (comptime (symbol-id (quote " + a + ")))) (emit (comptime (symbol-string (quote " + a + "))))";
			p.want.push_back({'n', a, ""}); text("\"" + escapeBytes(a) + "\"");
			break;
		case 'e': s += " (emit (= (quote " + a + ") (quote " + b + ")))"; text(a == b ? "true" : "false"); break;
		case 'E': s += " (emit (comptime (= (intern \"" + a + "\") (quote " + b + "))))"; text(a == b ? "true" : "false"); break;
		case 'i':
			s += " (emit (comptime (symbol-id (intern \"" + a + "\")))) (emit (comptime (symbol-string (intern \"" + a + "\"))))";
			p.want.push_back({'n', a, ""}); text("\"" + escapeBytes(a) + "\"");
			break;
		case 'l': {
			std::vector<std::string> w = splitWords(a);
			if (w.empty()) break;
			s += " ((var l (quote (" + a + ")))";
			for (auto &x : w) { s += " (emit (symbol-id (car l))) (setq l (cdr l))"; p.want.push_back({'n', x, ""}); }
			s += ")";
			break;
		}
		case 'g': s += " (emit (comptime (symbol-id (gensym))))"; p.want.push_back({'f', "", ""}); break;
		case 'h': s += " (emit (comptime (symbol-string (gensym))))"; p.want.push_back({'t', "", ""}); break;
		case 'j': s += " (emit (comptime (funcall (lambda (x) (= x x)) (gensym)))) (emit (comptime (= (gensym) (gensym))))"; text("true"); text("false"); break;
		case 'm':
			if (!macro) s = " (defmacro made () (list (quote quote) (gensym)))" + s;
			macro = true;
			s += " (emit (= (made) (made))) (emit (symbol-id (made)))";
			text("false"); p.want.push_back({'f', "", ""});
			break;
		case 'k':  // a generated name under another name
			s += " (emit (comptime (funcall (lambda (x) (= (intern (symbol-string x)) x)) (gensym))))";
			text("true");
			break;
		case 'G': {
			s += " (global " + a + " " + b + ") (emit " + a + ")";
			text(b);
			p.globals[a] = atoi(b.c_str());
			break;
		}
		case 'u':  // control flow uses generated labels
			s += " (emit (if (= " + std::to_string(a.size()) + " 1) 1 (if true 2 3)))";
			text(a.size() == 1 ? "1" : "2");
			break;
		default: throw std::runtime_error("unknown item " + l);
		}
	}
	p.source = "(()" + s + " 0)";
	return p;
}
struct Syms {
	const Scenario &sc;
	RunLog &log;
	Inst in;
	std::vector<std::string> known;       // by number
	std::map<std::string, size_t> number;
	std::set<std::string> freshNumbers, freshNames;
	std::map<std::string, int> globals;   // as far as they are certain
	struct Code { std::string bytecode; std::vector<Want> want; std::vector<std::string> got; std::map<std::string, int> globals; };
	std::vector<Code> codes;
	size_t looked = 0;
	bool truncated = false;
	Syms(const Scenario &s, RunLog &l) : sc(s), log(l) {
		std::string f = s.get("fill", "a5");
		g_seam.fill = f == "0" ? Fill::Zero : f == "ff" ? Fill::FF : f == "rand" ? Fill::Random : Fill::A5;
		setupInst(in, s);
		in.regrow = false;
	}
	dl_ptrdiff_t find(const std::string &n) {
		looked++;
		// A private copy shows when more than the name is read.
		dl_uint8_t *p = (dl_uint8_t *) malloc(n.size() ? n.size() : 1);
		memcpy(p, n.data(), n.size());
		dl_ptrdiff_t k = duckLisp_symbol_nameToValue(&in.dl, p, n.size());
		free(p);
		return k;
	}
	std::string nameAt(size_t i) {
		duckLisp_ast_identifier_t *a = (duckLisp_ast_identifier_t *) in.dl.symbols_array.elements;
		if (a[i].value_length && !a[i].value) throw Violation("name number " + std::to_string(i) + " is lost");
		return std::string((char *) a[i].value, a[i].value_length);
	}
	void audit(const std::string &what) {
		CurScope c(&in);
		checkComplaints(what.c_str());
		size_t n = in.dl.symbols_array.elements_length;
		if (n < known.size()) throw Violation("after " + what + " there are " + std::to_string(n) + " names instead of at least " + std::to_string(known.size()));
		for (size_t i = 0; i < n; i++) {
			std::string s = nameAt(i);
			if (i < known.size()) {
				if (s != known[i]) throw Violation("after " + what + " number " + std::to_string(i) + " is named \"" + escapeBytes(s) + "\" instead of \"" + escapeBytes(known[i]) + "\"");
			}
			else {
				if (number.count(s)) throw Violation("after " + what + " the name \"" + escapeBytes(s) + "\" has the numbers " + std::to_string(number[s]) + " and " + std::to_string(i));
				known.push_back(s);
				number[s] = i;
				if (s.compare(0, 10, "host-name-")) log.add("  new " + std::to_string(i) + " " + escapeBytes(s));
			}
			dl_ptrdiff_t k = find(s);
			if (k != (dl_ptrdiff_t) i) throw Violation("after " + what + " the name \"" + escapeBytes(s) + "\" has number " + std::to_string((long long) k) + " instead of " + std::to_string(i));
		}
		// Names next to these are unknown.
		size_t from = known.size() > 60 ? known.size() - 60 : 0;
		for (size_t i = from; i < known.size(); i++) {
			const std::string &s = known[i];
			for (int q = 0; q < 4; q++) {
				std::string t = q == 0 ? s.substr(0, s.size() / 2) : q == 1 ? s + (char) ('a' + i % 3) : q == 2 ? s : s.size() > 1 ? s.substr(0, s.size() - 1) : s + "\xff";
				if (q == 2) { if (t.empty()) continue; t[i % t.size()] ^= 1 << (i % 8); }
				dl_ptrdiff_t k = find(t), want = number.count(t) ? (dl_ptrdiff_t) number[t] : -1;
				if (k != want) throw Violation("after " + what + " the name \"" + escapeBytes(t) + "\" has number " + std::to_string((long long) k) + " instead of " + std::to_string((long long) want));
			}
		}
		auditHeap(&in.dl.vm);
		if (!in.vmUp) return;
		auditHeap(&in.vm);
		std::vector<std::string> g;
		std::map<std::string, dl_ptrdiff_t> keys;
		std::string want;
		for (auto &x : globals) {
			if (!number.count(x.first)) continue;
			g.push_back(x.first);
			keys[x.first] = number[x.first];
			want += x.first + "=" + std::to_string(x.second) + "; ";
		}
		std::string r = in.observe(&in.vm, g, keys);
		g_states.add(hashStr(r, hashStr(std::to_string(known.size()))));
		if (r != want) throw Violation("after " + what + " the globals are " + r.substr(0, 300) + " instead of " + want.substr(0, 300));
	}
	void dropVM() {
		in.quitVM();
		for (auto &c : globals) (void) c;
		globals.clear();
	}
	void exec(Code &c, const Step &s) {
		size_t ev = in.events.size();
		dl_error_t e;
		bool f;
		uint64_t ex = in.exhausted;
		{ Plan p(s, &in); e = in.exec(c.bytecode); f = g_seam.injected != 0; }
		log.add(e ? "  exec " + errName(e) : "  exec ok");
		if (e && in.exhausted != ex) { truncated = true; return; }
		if (e && !f) throw Violation("execution fails instead of succeeding: " + errName(e));
		for (size_t i = ev; i < in.events.size(); i++) log.add("  ev " + in.events[i]);
		size_t n = in.events.size() - ev;
		if (n > c.want.size() || (!e && n != c.want.size())) throw Violation("execution made " + std::to_string(n) + " events instead of " + std::to_string(c.want.size()));
		for (size_t i = 0; i < n; i++) {
			const std::string &x = in.events[ev + i];
			// What the same bytecode said before it says again.
			if (i < c.got.size()) {
				if (x != c.got[i]) throw Violation("bytecode names " + x + " what it named " + c.got[i] + " before");
				continue;
			}
			const Want &w = c.want[i];
			std::string want = w.a;
			switch (w.kind) {
			case 'n':
				if (!number.count(w.a)) throw Violation("the name \"" + escapeBytes(w.a) + "\" is used and has no number");
				want = std::to_string(number[w.a]);
				break;
			case 's': break;
			case 'f': {
				size_t k = strtoull(x.c_str(), nullptr, 10);
				if (k >= known.size() || known[k].empty() || known[k][0]) throw Violation("number " + x + " of a generated name is that of another name");
				if (!freshNumbers.insert(x).second) throw Violation("number " + x + " is generated twice");
				want = x;
				break;
			}
			default:
				if (!freshNames.insert(x).second) throw Violation("name " + x + " is generated twice");
				want = x;
			}
			if (x != want) throw Violation("event " + std::to_string(i) + " is " + x.substr(0, 200) + " instead of " + want.substr(0, 200));
			c.got.push_back(x);
		}
		if (!e) for (auto &g : c.globals) globals[g.first] = g.second;
		else {
			for (auto &g : c.globals) globals.erase(g.first);
			CurScope cs(&in);
			dl_error_t r = duckVM_softReset(&in.vm);
			if (r) throw Violation("soft reset failed: " + errName(r));
		}
	}
	void run() {
		if (in.initCompiler() || in.initVM()) throw Violation("initialisation failed");
		audit("initialisation");
		int n = 0;
		size_t faulted = 0;
		for (auto &s : sc.steps) {
			if (truncated) break;
			log.add("step " + std::to_string(n++) + " " + s.op);
			if (log.trace) log.add("  " + s.str());
			if (s.op == "create") {
				dl_error_t e;
				bool f;
				dl_uint8_t *p = (dl_uint8_t *) malloc(s.arg.size() ? s.arg.size() : 1);
				memcpy(p, s.arg.data(), s.arg.size());
				{ Plan q(s, &in); CurScope c(&in); e = duckLisp_symbol_create(&in.dl, p, s.arg.size()); f = g_seam.injected != 0; }
				memset(p, '!', s.arg.size());
				free(p);
				if (e && !f) throw Violation("a name cannot be made: " + errName(e));
				if (f) faulted++;
				audit("naming");
				if (!e && !number.count(s.arg)) throw Violation("the new name \"" + escapeBytes(s.arg) + "\" is unknown");
			}
			else if (s.op == "ask" || s.op == "bad") {
				Program p;
				if (s.op == "ask") p = build(lines(s.arg)); else p.source = s.arg;
				std::string b;
				dl_error_t e;
				bool f;
				uint64_t ex = in.exhausted;
				in.dl.errors.elements_length = 0;
				{ Plan q(s, &in); e = in.load(p.source, &b); f = g_seam.injected != 0; }
				log.add(e ? "  load " + errName(e) : "  load ok");
				if (e && in.exhausted != ex) { truncated = true; break; }
				if (e && !f && s.op == "ask") throw Violation("load fails instead of succeeding: " + errName(e) + " " + in.errorText(in.dl.errors));
				if (f) faulted++;
				audit(e ? "a failed load" : "a load");
				if (s.op == "bad" || e) continue;
				codes.push_back({b, p.want, {}, p.globals});
				Step t;
				if (s.opt.count("xalloc")) t.opt["alloc"] = s.opt.at("xalloc");
				exec(codes.back(), t);
			}
			else if (s.op == "again") {
				if (codes.empty()) continue;
				exec(codes[std::stoul(s.opt.at("k")) % codes.size()], s);
			}
			else if (s.op == "newvm") { dropVM(); if (in.initVM()) throw Violation("a new VM cannot be made"); }
			else if (s.op == "gc") { CurScope c(&in); if (duckVM_garbageCollect(&in.vm) || duckVM_garbageCollect(&in.dl.vm)) throw Violation("collection failed"); }
			else if (s.op == "restart") {
				dropVM();
				in.quitCompiler();
				codes.clear();
				known.clear();
				number.clear();
				freshNumbers.clear();
				freshNames.clear();
				if (in.initCompiler() || in.initVM()) throw Violation("initialisation failed");
			}
			else throw std::runtime_error("unknown step " + s.op);
			if (!truncated) audit(s.op);
		}
		in.quitVM();
		in.quitCompiler();
		checkComplaints("teardown");
		if (g_seam.liveOf(in.id)) throw Violation("memory lost: " + std::to_string(g_seam.liveOf(in.id)) + " blocks are live after teardown:" + g_seam.describeLive(in.id));
		in.quitPool();
		log.nontrivial = n >= 3;
		log.outcome = truncated ? "truncated" : "ok";
		if (truncated) g_counters["truncated_runs"]++;
		g_counters["instructions"] += in.steps;
		g_counters["operations"] += n;
		g_counters["operations_interrupted"] += faulted;
		g_counters["lookups"] += looked;
	}
};
}
void runSymbols(const Scenario &s, RunLog &log) {
	Syms y(s, log);
	y.run();
}
Scenario genSymbols(const std::string &, uint64_t seed, int tier) {
	Rng r(seed * 6364136223846793005ull + 99991);
	Scenario sc;
	static const char *fills[] = {"a5", "0", "ff", "rand"};
	sc.head["fill"] = fills[r.below(4)];
	switch (r.below(3)) {
	case 0: sc.head["gc"] = "every"; break;
	case 1: sc.head["gc"] = "none"; break;
	default: sc.head["gc"] = "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(1 + r.below(8));
	}
	sc.head["heap"] = std::to_string(300 + r.below(300));
	sc.head["ctheap"] = "500";
	bool faults = r.chance(2, 3), wide = r.chance(1, 2);
	std::vector<std::string> pool;   // names that can stand in a script
	auto word = [&]() {
		if (!pool.empty() && r.chance(1, 2)) {
			std::string b = pool[r.below(pool.size())];
			switch (r.below(5)) {
			case 0: return b;
			case 1: if (b.size() > 2) return b.substr(0, 1 + r.below(b.size() - 1)); return b;
			case 2: b[1 + r.below(b.size() - 1)] = (char) ('a' + r.below(wide ? 26 : 3)); return b;
			default: break;
			}
			b += wide ? (char) ('a' + r.below(26)) : "xyz"[r.below(3)];
			return b;
		}
		std::string s = "n";
		static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789-_!?*";
		int n = 1 + (int) r.below(r.chance(1, 12) ? 300 : 9);
		for (int i = 0; i < n; i++) s += wide ? al[r.below(sizeof al - 1)] : "abx-"[r.below(4)];
		return s;
	};
	auto name = [&]() { std::string s = word(); if (s.size() < 2) s += "a"; pool.push_back(s); return s; };
	auto raw = [&]() -> std::string {
		switch (r.below(5)) {
		case 0: return r.chance(1, 6) ? "" : std::string(1, (char) (1 + r.below(255)));
		case 1: { std::string s(1, (char) (1 + r.below(255))); int n = (int) r.below(r.chance(1, 10) ? 400 : 8); for (int i = 0; i < n; i++) s += (char) r.below(256); return s; }
		case 2: return name() + std::string(1, (char) r.below(256));
		case 3: { std::string s = name(); s[r.below(s.size())] ^= (char) (1 << r.below(8)); if (!s[0]) s[0] = 'q'; return s; }
		default: return name();
		}
	};
	// No line ends, quotes or escapes.
	auto printable = [&]() { std::string s = raw(); for (auto &c : s) if (c == '\n' || c == '"' || c == '\\' || c == '\0') c = '~'; return s; };
	int n = 3 + (int) r.below(tier ? 40 : 22);
	for (int i = 0; i < n; i++) {
		Step s;
		auto fault = [&](const char *k, int first) { s.opt[k] = std::to_string(r.below(first)) + ":" + std::to_string(r.chance(2, 3) ? 1 : 1 + r.below(1000)); };
		switch (r.below(12)) {
		case 0: case 1: case 2: case 3:
			s.op = "create"; s.arg = raw();
			if (faults && r.chance(1, 2)) fault("alloc", 6);
			break;
		case 4: if (r.chance(1, 8)) { s.op = r.chance(1, 3) ? "restart" : "newvm"; break; }
			[[fallthrough]];
		case 5: if (r.chance(1, 3)) { s.op = "again"; s.opt["k"] = std::to_string(r.below(8)); if (faults && r.chance(1, 3)) fault("alloc", 60); break; }
			if (r.chance(1, 6)) { s.op = "gc"; break; }
			[[fallthrough]];
		case 6: {
			static const char *b[] = {"(() (quote %) (var", "(() (defmacro % () (gensym)) (%) (nosuch))", "(() (comptime (error (quote %))))", "(() (emit (quote %)) (setq))",
			                          "(() (comptime (intern \"%\")) (comptime (gensym)) (car))", "(() (global % 1) (%) (goto nowhere))", "%", "((quote %) (if true", "(() (quote (% 1 2)) (while))",
			                          "(() (comptime ((gensym) (intern 5))))", "(() (defun % (%) (lambda (% %) %)) (comptime (car 5)))"};
			s.op = "bad";
			s.arg = b[r.below(11)];
			std::string x = name();
			for (size_t p; (p = s.arg.find('%')) != std::string::npos;) s.arg.replace(p, 1, x);
			if (faults && r.chance(1, 2)) fault("alloc", 300);
			break;
		}
		default: {
			s.op = "ask";
			int items = 1 + (int) r.below(6);
			for (int q = 0; q < items; q++) {
				std::string l, a = name();
				switch (r.below(14)) {
				case 0: case 1: case 2: l = "q " + a; break;
				case 3: l = "c " + a; break;
				case 4: l = "e " + a + " " + (r.chance(1, 3) ? a : name()); break;
				case 5: l = "E " + a + " " + (r.chance(1, 3) ? a : name()); break;
				case 6: case 7: l = "i " + printable(); break;
				case 8: l = "l " + a; for (int k = (int) r.below(5); k > 0; k--) l += " " + name(); break;
				case 9: l = "g"; break;
				case 10: l = "h"; break;
				case 11: l = r.chance(1, 2) ? "j" : r.chance(1, 2) ? "k" : "m"; break;
				case 12: l = "G " + a + " " + std::to_string(r.below(1000)); break;
				default: l = "u " + a; break;
				}
				s.arg += (q ? "\n" : "") + l;
			}
			if (faults && r.chance(1, 2)) { if (r.chance(1, 2)) fault("alloc", 600); else fault("xalloc", 60); }
			break;
		}
		}
		sc.steps.push_back(s);
	}
	return sc;
}

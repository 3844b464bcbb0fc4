// P15: the host drives one VM through the stack operations; a sequence of values stands for the stack.
#include "scen.h"
#include "ops.h"
#include <algorithm>

namespace {
struct Api {
	const Scenario &sc;
	RunLog &log;
	Inst in;
	Model m;
	std::vector<V> st;
	std::vector<std::string> bytecode, globals;
	std::vector<bool> have;
	std::map<std::string, dl_ptrdiff_t> keys;
	bool truncated = false;
	int done = 0, failed = 0, faulted = 0;
	Api(const Scenario &s, RunLog &l) : sc(s), log(l) {
		std::string g = s.get("globals");
		for (auto &c : g) if (c == ',') c = ' ';
		globals = splitWords(g);
		std::string f = s.get("fill", "a5");
		g_seam.fill = f == "0" ? Fill::Zero : f == "ff" ? Fill::FF : f == "rand" ? Fill::Random : Fill::A5;
		setupInst(in, s);
		in.regrow = false;  // a full heap ends the run
	}
	void compare(const std::string &what) {
		auditHeap(&in.vm);
		checkComplaints(what.c_str());
		if (in.stackLen() != in.vm.upvalue_stack.elements_length) throw Violation("after " + what + " the stacks have different lengths");
		for (auto &g : globals) {
			dl_ptrdiff_t k = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) g.data(), g.size());
			if (k >= 0) keys[g] = k;
		}
		std::string r = in.observe(&in.vm, globals, keys, true), e = m.observeWith(st, m.run, globals);
		log.add("  " + r);
		g_states.add(hashStr(r));
		if (r != e) throw Violation("after " + what + " the host sees " + r.substr(0, 400) + " instead of " + e.substr(0, 400));
	}
	void unwind(size_t keep) {
		CurScope c(&in);
		keep = std::min(keep, st.size());
		dl_error_t e = duckVM_unwind(&in.vm, keep, 0);
		if (e == dl_error_outOfMemory && !in.vm.gclist.freeObjects_length) { truncated = true; return; }
		if (e) throw Violation("unwinding the stack failed: " + errName(e));
		if (in.stackLen() != keep) throw Violation("unwinding left " + std::to_string(in.stackLen()) + " values instead of " + std::to_string(keep));
		st.resize(keep);
	}
	// Runs code; nothing is made to fail meanwhile.
	void code(const std::string &what, const Step &s, std::function<dl_error_t()> real, std::function<bool()> model, size_t keep) {
		size_t ev = in.events.size(), mev = m.events.size();
		uint64_t ex = in.exhausted;
		bool ok;
		// An earlier fault can have led to code that never ends.
		m.beginOp(-1);
		try { ok = model(); } catch (LispError &) { ok = false; } catch (ModelBudget &) { truncated = true; return; }
		m.afterOp();
		dl_error_t e;
		{ Step none; Plan p(none, &in); CurScope c(&in); e = real(); }
		if (e && in.exhausted != ex) { truncated = true; return; }
		if (ok == !!e) throw Violation(what + (e ? " fails instead of succeeding: " + errName(e) : " succeeds instead of failing"));
		for (size_t i = 0;; i++) {
			bool a = ev + i < in.events.size(), b = mev + i < m.events.size();
			if (!a && !b) break;
			std::string x = a ? in.events[ev + i] : "(nothing)", y = b ? m.events[mev + i] : "(nothing)";
			if (x != y) throw Violation(what + " events differ: number " + std::to_string(i) + " is " + x.substr(0, 300) + " instead of " + y.substr(0, 300));
			log.add("  ev " + x);
		}
		if (e) { failed++; unwind(keep); }
	}
	void run() {
		if (in.initCompiler() || in.initVM()) throw Violation("initialisation failed");
		int n = 0;
		for (auto &s : sc.steps) {
			if (truncated) break;
			log.add("step " + std::to_string(n++) + " " + s.op);
			if (log.trace) log.add("  " + s.str());
			size_t keep = s.opt.count("keep") ? std::stoul(s.opt.at("keep")) : 0;
			std::string what = s.op;
			if (s.op == "load") {
				std::string b;
				dl_error_t e;
				size_t ev = in.events.size(), mev = m.events.size(), scripts = m.scripts.size();
				uint64_t ex = in.exhausted;
				{ Step none; Plan p(none, &in); e = in.load(s.arg, &b); }
				if (e && in.exhausted != ex) { truncated = true; break; }
				bool ok = true;
				m.beginOp(-1);
				try { m.load(s.arg); } catch (LispError &) { ok = false; } catch (ModelBudget &) { truncated = true; break; }
				m.afterOp();
				if (!ok) m.failedLoad(scripts);
				if (ok == !!e) throw Violation(std::string("load ") + (e ? "fails instead of succeeding" : "succeeds instead of failing"));
				if (std::vector<std::string>(in.events.begin() + ev, in.events.end()) != std::vector<std::string>(m.events.begin() + mev, m.events.end())) throw Violation("load events differ");
				bytecode.push_back(b);
				have.push_back(ok);
			}
			else if (s.op == "exec") {
				if (have.empty()) continue;
				size_t k = s.opt.count("k") ? std::min<size_t>(std::stoul(s.opt.at("k")), have.size() - 1) : have.size() - 1;
				if (!have[k]) continue;
				code("execution", s, [&]() { return in.exec(bytecode[k]); }, [&]() { st.push_back(m.exec(m.scripts[k])); return true; }, keep);
			}
			else if (s.op == "reset") {
				CurScope c(&in);
				dl_error_t e = duckVM_softReset(&in.vm);
				if (e == dl_error_outOfMemory && !in.vm.gclist.freeObjects_length) { truncated = true; break; }
				if (e) throw Violation("soft reset failed: " + errName(e));
				st.clear();
			}
			else if (s.op == "do") {
				for (auto &o : parseOps(s.arg)) {
					std::string told, want;
					what = o.name;
					// Names the host uses are known to it beforehand.
					if (o.name == "call") {
						bool below = o.a < 0 || (size_t) o.a + 1 > st.size();
						code("call", s, [&]() { return realOp(in, &in.vm, o, 0, false, told); }, [&]() { return modelOp(m, m.run, st, o, false, want); }, below ? st.size() : std::min(keep, st.size() - 1 - (size_t) o.a));
						done++;
						continue;
					}
					dl_error_t e;
					bool f;
					uint64_t ex = in.exhausted;
					{ Plan p(s, &in); CurScope c(&in); e = realOp(in, &in.vm, o, 0, false, told); f = g_seam.injected != 0; }
					if (in.exhausted != ex) f = true;
					log.add("  " + o.name + " -> " + (e ? errName(e) : told));
					done++;
					if (e) failed++;
					if (e && f) {
						faulted++;
						// The number of a type may be used up.
						if (o.name == "newtype") m.run.nextType = (int64_t) in.vm.nextUserType;
						compare("interrupted " + what);
						continue;
					}
					m.beginOp(-1);
					bool ok = modelOp(m, m.run, st, o, false, want);
					if (ok == !!e) throw Violation(what + (e ? " fails instead of succeeding: " + errName(e) : " succeeds instead of failing"));
					if (ok && told != want) throw Violation(what + " told the host " + told.substr(0, 200) + " instead of " + want.substr(0, 200));
					compare((e ? "failed " : "") + what);
				}
			}
			else throw std::runtime_error("unknown step " + s.op);
			if (!truncated) compare(what);
		}
		in.quitVM();
		in.quitCompiler();
		for (auto &u : in.users) if (!u->destroyed) throw Violation("destructor missing: host object " + std::to_string(u->id) + " outlives its VM");
		checkComplaints("teardown");
		if (g_seam.liveOf(in.id)) throw Violation("memory lost: " + std::to_string(g_seam.liveOf(in.id)) + " blocks are live after teardown:" + g_seam.describeLive(in.id));
		in.quitPool();
		log.nontrivial = done >= 5;
		log.outcome = truncated ? "truncated" : "ok";
		if (truncated) g_counters["truncated_runs"]++;
		g_counters["instructions"] += in.steps;
		g_counters["operations"] += done;
		g_counters["operations_rejected"] += failed - faulted;
		g_counters["operations_interrupted"] += faulted;
	}
};
const char *names[] = {"g0", "g1", "g2", "g3", "g4", "h0", "h1", "h2", "k0", "k1"};
}
void runApi(const Scenario &s, RunLog &log) {
	Api a(s, log);
	a.run();
}
// One operation for a stack like this one.
std::string genOp(Rng &r, const std::vector<V> &st, bool callback, bool names_) {
	auto num = [&]() -> std::string { return std::to_string(r.chance(1, 2) ? r.range(-5, 9) : r.chance(1, 2) ? r.range(-3000000000ll, 3000000000ll) : (int64_t) r.next()); };
	auto index = [&]() -> std::string {
		int64_t n = (int64_t) st.size();
		if (callback) return std::to_string(r.chance(1, 3) ? -2 : r.range(-n, -1));
		if (r.chance(1, 12)) return std::to_string(r.range(-n - 2, n + 2));
		return std::to_string(r.chance(1, 3) ? -2 : r.chance(3, 4) ? r.range(-n, -1) : r.range(0, std::max<int64_t>(0, n - 1)));
	};
	auto small = [&]() -> std::string { return std::to_string(r.chance(1, 8) ? r.range(-3, 9) : r.range(0, 3)); };
	auto any = [&]() -> std::string {
		static const char *strs[] = {"", "a", "hello", "abc def", "0123456789abcdef0123456789abcdef0123456789"};
		switch (r.below(names_ ? 14 : 11)) {
		case 0: return "pint; setint " + num();
		case 1: return r.chance(1, 3) ? "pbool" : "pbool; setbool " + std::to_string(r.below(2));
		case 2: { static const char *f[] = {"0.5", "-2.25", "1e300", "0"}; return std::string("pflt; setflt ") + f[r.below(4)]; }
		case 3: case 4: return std::string("str '") + strs[r.below(5)] + "'";
		case 5: return "cons";
		case 6: return "vec " + std::to_string(r.chance(1, 10) ? r.below(40) : r.below(4));
		case 7: return "comp " + std::to_string(r.below(60));
		case 8: return r.chance(1, 3) ? "nil" : "type " + std::to_string(r.below(60));
		case 9: return !names_ ? "str 'x'" : std::string("pushg ") + names[r.below(8)];
		case 10: return "pint";
		case 11: case 12: { static const char *y[] = {"a", "b", "foo", "foobar", "fo", "brand-new"}; return std::string(r.chance(1, 4) ? "csym '" : "sym '") + y[r.below(6)] + "'"; }
		default: return r.chance(1, 2) ? "newtype" : std::string("pushg ") + names[r.below(10)];
		}
	};
	if (st.empty()) return r.chance(1, 10) ? "pop" : any();
	if (st.size() > 30) return "popn " + std::to_string(r.below(29));
	std::vector<std::string> c;
	V::Kind k = st.back().k;
	bool wrong = r.chance(1, 10);
	auto want = [&](V::Kind q) { return k == q || wrong; };
	for (int i = 0; i < 3; i++) c.push_back(any());
	c.push_back("push " + index());
	if (r.chance(1, 2)) c.push_back("push " + index());
	c.push_back("pop"); if (r.chance(1, 3)) c.push_back("popn " + std::to_string(r.below(std::min<size_t>(st.size() + 1, 6)))); c.push_back("copytop " + index());
	if (!callback && r.chance(1, 30)) c.push_back("popall");
	if (r.chance(1, 4)) c.push_back("typeof"); if (r.chance(1, 4)) c.push_back("is"); if (r.chance(1, 3)) c.push_back("gc");
	if (r.chance(1, 6)) c.push_back("empty"); if (r.chance(1, 6)) c.push_back("len");
	if (want(V::Bool)) { c.push_back("getbool"); c.push_back("setbool " + std::to_string(r.below(2))); }
	if (want(V::Int)) { c.push_back("getint"); c.push_back("getuint"); c.push_back("setint " + num()); }
	if (want(V::Flt)) { c.push_back("getflt"); c.push_back("setflt 1.5"); }
	if (want(V::Str)) c.push_back("getstr");
	if (want(V::Sym)) c.push_back("getsym");
	if (want(V::Type)) c.push_back("gettype");
	if (want(V::Clo)) c.push_back("arity");
	if (want(V::Comp)) { c.push_back("getctype"); c.push_back("cval"); c.push_back("cfn"); }
	if (want(V::List) || want(V::Vec) || want(V::Str)) {
		for (const char *s : {"first", "first 1", "rest", "rest", "rest 1", "len", "empty"}) c.push_back(s);
		c.push_back("elem " + small()); c.push_back("elem " + small());
	}
	// Anything can be put into anything that has room, also into itself.
	for (size_t i = 0; i < st.size(); i++) {
		std::string ix = callback || r.chance(3, 4) ? std::to_string((int64_t) i - (int64_t) st.size()) : std::to_string(i);
		bool odd = r.chance(1, 60);
		if (st[i].k == V::Comp || odd) { c.push_back("setcval " + ix); c.push_back("setcfn " + ix); }
		if (st[i].k == V::List || st[i].k == V::Vec || odd) { c.push_back("setfirst " + ix + (r.chance(1, 3) ? " 1" : "")); c.push_back("setelem " + small() + " " + ix); }
		if (st[i].k == V::List || odd) c.push_back("setrest " + ix + (r.chance(1, 3) ? " 1" : ""));
	}
	if (names_ && r.chance(1, 3)) c.push_back(std::string("setg ") + names[r.below(10)]);
	for (int i = 0; i < 3; i++) {
		size_t d = r.below(std::min<size_t>(st.size(), 4));
		V::Kind q = st[st.size() - 1 - d].k;
		if (q == V::Clo || q == V::Comp || q == V::Fun || r.chance(1, 20)) { c.push_back("call " + std::to_string(d)); c.push_back("call " + std::to_string(d)); }
	}
	return c[r.below(c.size())];
}
// A short sequence of operations on two values, for callbacks.
std::string genOps(Rng &r, int n) {
	std::string s;
	Model m;
	// The values are only known when the script runs: guess.
	std::vector<V> st = {m.str("ops"), r.chance(1, 2) ? m.makeCons() : r.chance(1, 2) ? m.makeVec(2) : r.chance(1, 2) ? m.makeComp(50) : V::n(1)};
	for (int i = 0; i < n; i++) {
		std::string o = genOp(r, st, true, false);
		for (auto &x : parseOps(o)) {
			std::string t;
			if (x.name == "call") continue;
			try { modelOp(m, m.run, st, x, true, t); } catch (LispError &) {}
		}
		s += (i ? "; " : "") + o;
	}
	return s;
}
Scenario genApi(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 2862933555777941757ull + 3037);
	for (int attempt = 0;; attempt++) {
		if (attempt > 40) throw ModelBudget();
		Scenario sc;
		static const char *fills[] = {"a5", "0", "ff", "rand"};
		sc.head["fill"] = fills[r.below(4)];
		switch (r.below(4)) {
		case 0: sc.head["gc"] = "every"; break;
		case 1: sc.head["gc"] = "none"; break;
		default: sc.head["gc"] = "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(1 + r.below(8));
		}
		bool faults = r.chance(1, 2);
		if (r.chance(1, 5)) { sc.head["oom"] = "1"; sc.head["heap"] = std::to_string(24 + r.below(60)); }
		else sc.head["heap"] = std::to_string(700 + r.below(800));
		sc.head["ctheap"] = std::to_string(1200);
		Model m;
		m.maxSteps = 6000;
		std::vector<V> st;
		std::vector<std::string> scripts;
		if (r.chance(4, 5)) {
			static const char *props[] = {"P01", "P03", "P04", "P09", "P09", "P02"};
			Scenario x;
			try { x = genLang(props[r.below(6)], seed * 16 + (uint64_t) attempt, tier); } catch (ModelBudget &) { continue; }
			for (auto &s : x.steps) if (s.op == "load" && s.arg.size() < 2500 && s.arg.compare(0, 10, "(() (quote") != 0 && scripts.size() < 2) scripts.push_back(s.arg);
		}
		static const char *fixed[] = {
			"(() (global g0 (lambda (a) (cons a g1))) (global g1 (list 1 2 3)) (global g2 (vector 1 (quote foo) \"s\")) (global g3 (make-instance (make-type) 5 (lambda (x y) (list x y)))) g2)",
			"(() (global h0 (lambda (a &rest b) (setq a b) a)) (var x 1) (global h1 (lambda () (setq x (+ x 1)))) (global g4 \"text\") h1)",
			"(() (global g0 mkuser) (global g1 (mkuser)) (global g2 (cdr (cdr (vector 1 2 3)))) (global g3 (cdr \"abc\")) (list g1 g2 (cons g3 4)))",
			"(() (global g2 (vector 1 2 3 4)) (global g3 (cdr (cdr g2))) (set-cdr g2 ()) (global g4 g3) (global g1 (cdr g2)) g3)",
			"(() (global h2 (lambda (v) (set-car v (list v)) v)) (global h1 emit) (global h0 (lambda () (host-fail 3))) (quote (a b foo)))",
			"(() (if (null? g0) 1 (car g0)))", "(() (host-ops \"push -1; cons; copytop -2; setrest -2; pop\" (list 1 2 g0)))",
		};
		scripts.push_back(fixed[r.below(7)]);
		if (r.chance(1, 2)) scripts.push_back(fixed[r.below(7)]);
		try {
			auto addExec = [&](size_t k) {
				Step s;
				s.op = "exec"; s.opt["k"] = std::to_string(k);
				size_t keep = r.chance(1, 2) ? st.size() : r.below(st.size() + 1);
				if (keep) s.opt["keep"] = std::to_string(keep);
				m.beginOp(-1);
				try { st.push_back(m.exec(m.scripts[k])); } catch (LispError &) { st.resize(keep); }
				m.afterOp();
				sc.steps.push_back(s);
			};
			for (auto &src : scripts) {
				size_t n = m.scripts.size();
				m.beginOp(-1);
				try { m.load(src); } catch (LispError &) { m.failedLoad(n); }
				m.afterOp();
				Step s;
				s.op = "load"; s.arg = src;
				sc.steps.push_back(s);
				if (m.scripts[n]) addExec(n);
			}
			int n = 5 + (int) r.below(tier ? 80 : 50);
			for (int i = 0; i < n; i++) {
				if (r.chance(1, 25)) { size_t k = r.below(m.scripts.size()); if (m.scripts[k] && st.size() < 20) { addExec(k); continue; } }
				if (r.chance(1, 60)) { Step s; s.op = "reset"; sc.steps.push_back(s); st.clear(); continue; }
				std::string o = genOp(r, st, false, true);
				Step s;
				s.op = "do"; s.arg = o;
				for (auto &x : parseOps(o)) {
					std::string t;
					size_t keep = 0;
					if (x.name == "call") {
						if (x.a < 0 || (size_t) x.a + 1 > st.size()) keep = st.size();
						else { keep = r.chance(1, 2) ? st.size() - 1 - (size_t) x.a : r.below(st.size() - (size_t) x.a); }
						if (keep) s.opt["keep"] = std::to_string(keep);
					}
					m.beginOp(-1);
					bool ok;
					try { ok = modelOp(m, m.run, st, x, false, t); } catch (LispError &) { ok = false; st.resize(std::min(keep, st.size())); }
					m.afterOp();
					m.observeWith(st, m.run, {"g0", "g1", "g2", "g3", "g4", "h0", "h1", "h2", "k0", "k1"});  // throws if it grows too large
				}
				if (faults && r.chance(1, 3)) s.opt["alloc"] = std::to_string(r.below(r.chance(1, 3) ? 12 : 4)) + ":" + std::to_string(r.chance(2, 3) ? 1 : 1 + r.below(1000));
				sc.steps.push_back(s);
			}
		}
		catch (ModelBudget &) { continue; }
		sc.head["globals"] = "g0,g1,g2,g3,g4,h0,h1,h2,k0,k1";
		return sc;
	}
}

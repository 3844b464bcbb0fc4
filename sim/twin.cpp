// P13: the same history of loads on compilers in different circumstances gives the same bytecode.
#include "scen.h"
#include <cstdlib>
#include <cstring>

namespace {
struct Twin {
	Inst in;
	std::vector<std::string> code;
	std::vector<int> err;
	std::vector<void *> noise;
	Rng r{1};
	~Twin() { for (void *p : noise) free(p); }
	void makeNoise() {
		for (int i = 0; i < 20; i++) {
			if (!noise.empty() && r.chance(1, 2)) { size_t k = r.below(noise.size()); free(noise[k]); noise[k] = noise.back(); noise.pop_back(); }
			else { size_t n = 1 + r.below(200); void *p = malloc(n); memset(p, (int) r.below(256), n); noise.push_back(p); }
		}
	}
};
Fill fillOf(const std::string &f) { return f == "0" ? Fill::Zero : f == "ff" ? Fill::FF : f == "rand" ? Fill::Random : Fill::A5; }
}
void runTwin(const Scenario &s, RunLog &log) {
	Step none;
	auto start = [&](Twin &t, int id, const std::string &p) {
		g_seam.fill = fillOf(s.get(p + "fill", "a5"));
		setupInst(t.in, s, p);
		t.in.regrow = false;
		t.in.id = id;
		t.r = Rng(s.num(p + "noise", 1));
		if (s.num(p + "noise", 0)) t.makeNoise();
		Plan plan(none, &t.in);
		dl_error_t e = t.in.initCompiler();
		if (!e) e = t.in.initVM();
		if (e) throw Violation("initialisation failed: " + errName(e));
	};
	Twin a, b;
	start(a, 1, "a.");
	start(b, 2, "b.");
	size_t done = 0, again = 0;
	std::vector<std::string> src;
	auto load = [&](Twin &t, const std::string &p, const std::string &text, std::string *code) {
		g_seam.fill = fillOf(s.get(p + "fill", "a5"));
		if (s.num(p + "noise", 0)) t.makeNoise();
		Plan plan(none, &t.in);
		return t.in.load(text, code);
	};
	auto diff = [&](const std::string &x, const std::string &y) {
		size_t i = 0;
		while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
		return "first difference at byte " + std::to_string(i) + " of " + std::to_string(x.size()) + " and " + std::to_string(y.size());
	};
	bool over = false;
	for (auto &st : s.steps) {
		if (over) break;
		if (st.op == "load") {
			std::string ca, cb;
			dl_error_t ea = load(a, "a.", st.arg, &ca);
			if (a.in.exhausted) { over = true; break; }
			dl_error_t eb = load(b, "b.", st.arg, &cb);
			if (b.in.exhausted) { over = true; break; }
			log.add("load " + errName(ea) + " " + std::to_string(hashStr(ca)));
			if (ea != eb) throw Violation("one compiler accepts what its twin refuses: " + errName(ea) + " and " + errName(eb));
			if (ca != cb) throw Violation("twin compilers emit different bytecode for load " + std::to_string(src.size()) + ": " + diff(ca, cb));
			a.code.push_back(ca); b.code.push_back(cb);
			a.err.push_back(ea); b.err.push_back(eb);
			src.push_back(st.arg);
			g_states.add(hashStr(ca));
			done++;
		}
		else if (st.op == "again") {
			// Nothing in these scripts has a lasting effect on the compiler but the names they mention, and it knows those.
			size_t k = st.opt.count("k") ? std::stoul(st.opt.at("k")) : 0;
			if (k >= src.size()) continue;
			std::string c1, c2;
			Twin &t = st.opt.count("b") ? b : a;
			dl_error_t e1 = load(t, st.opt.count("b") ? "b." : "a.", src[k], &c1);
			dl_error_t e2 = t.in.exhausted ? e1 : load(t, st.opt.count("b") ? "b." : "a.", src[k], &c2);
			if (t.in.exhausted) { over = true; break; }
			log.add("again " + errName(e1) + " " + std::to_string(hashStr(c1)));
			if (e1 != e2) throw Violation("compiling a script again gives " + errName(e2) + " instead of " + errName(e1));
			if (c1 != c2) throw Violation("compiling a script again gives other bytecode: " + diff(c1, c2));
			again++;
			// The other one mustn't be left behind.
			Twin &o = st.opt.count("b") ? a : b;
			std::string c3;
			for (int i = 0; i < 2; i++) (void) load(o, st.opt.count("b") ? "a." : "b.", src[k], &c3);
			if (o.in.exhausted) { over = true; break; }
			if (c3 != c1) throw Violation("twin compilers emit different bytecode when they compile a script again: " + diff(c1, c3));
		}
		else {
			// What happens on one side only
			Twin &t = st.opt.count("b") ? b : a;
			CurScope c(&t.in);
			if (st.op == "ctgc") (void) duckVM_garbageCollect(&t.in.dl.vm);
			else if (st.op == "gc") (void) duckVM_garbageCollect(&t.in.vm);
			else if (st.op == "noise") t.makeNoise();
			else if (st.op == "exec") {
				if (t.code.empty() || t.err.back()) continue;
				Step run;
				run.opt["limit"] = "200000";
				Plan plan(run, &t.in);
				dl_error_t e = t.in.exec(t.code.back());
				if (!e) (void) duckVM_pop(&t.in.vm);
				if (duckVM_softReset(&t.in.vm)) over = true;
				if (t.in.exhausted || t.in.cutDone) over = true;
			}
			else throw std::runtime_error("unknown step " + st.op);
			log.add(st.op);
		}
		checkComplaints("twin loads");
	}
	for (Twin *t : {&a, &b}) {
		t->in.quitVM(); t->in.quitCompiler();
		if (g_seam.liveOf(t->in.id)) throw Violation("memory lost:" + g_seam.describeLive(t->in.id));
		t->in.quitPool();
	}
	log.nontrivial = done >= 2;
	log.outcome = over ? "truncated" : "ok";
	g_counters["loads_compared"] += done;
	g_counters["recompilations_compared"] += again;
}
Scenario genTwin(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 2862933555777941757ull + 5);
	Scenario s;
	static const char *props[] = {"P13", "P13", "P13", "P12", "P05", "P03", "P08"};
	Scenario x = genLang(props[r.below(7)], seed * 4 + 1, tier);
	static const char *fills[] = {"a5", "0", "ff", "rand"}, *fits[] = {"best", "first", "next", "worst"};
	for (std::string p : {"a.", "b."}) {
		s.head[p + "fill"] = fills[r.below(4)];
		s.head[p + "fit"] = fits[r.below(4)];
		s.head[p + "ctheap"] = std::to_string(1500 + r.below(1500));
		s.head[p + "heap"] = std::to_string(1500 + r.below(1500));
		s.head[p + "noise"] = std::to_string(r.below(1000));
		s.head[p + "gc"] = r.chance(1, 2) ? "none" : "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(1 + r.below(30));
	}
	size_t n = 0;
	std::vector<size_t> pure;
	for (auto &st : x.steps) {
		if (st.op != "load") continue;
		Step l;
		l.op = "load";
		l.arg = st.arg;
		s.steps.push_back(l);
		if (st.arg.find("tick") == std::string::npos && st.arg.find("comptime") == std::string::npos && st.arg.find("cg") == std::string::npos && st.arg.find("mkuser") == std::string::npos) pure.push_back(n);
		n++;
		if (r.chance(1, 3)) { Step o; o.op = "load"; o.arg = oddScript(r); s.steps.push_back(o); n++; }
		while (r.chance(1, 3)) {
			static const char *ops[] = {"ctgc", "gc", "noise", "exec", "exec"};
			Step o;
			o.op = ops[r.below(5)];
			if (r.chance(1, 2)) o.opt["b"] = "1";
			s.steps.push_back(o);
		}
		if (!pure.empty() && r.chance(1, 3)) {
			Step o;
			o.op = "again";
			o.opt["k"] = std::to_string(r.pick(pure));
			if (r.chance(1, 2)) o.opt["b"] = "1";
			s.steps.push_back(o);
		}
	}
	return s;
}

// Runs histories of loads, executions, calls, collections, resets and faults, against the reference model.
#include "scen.h"
#include <algorithm>

namespace {
struct Sub {  // one elementary operation
	enum Op { Load, Exec, Call, Gc, CtGc, Reset, NewVM, Restart, QuitComp } op;
	std::string arg;
	std::vector<V> args;
	std::string name;
	size_t slot = 0;
};
struct Outcome {
	bool ok = true;
	std::string result;
	std::vector<std::string> ev;
	bool cut = false;
	bool operator==(const Outcome &o) const { return ok == o.ok && ev == o.ev && (!ok || result == o.result); }
};
struct Cand {
	std::unique_ptr<Model> m;
	std::vector<int64_t> cuts;  // per elementary operation so far
};
// Cuts: -1 runs to its end; k >= 0 stops before effect k, or, if it ends before, fails at its end.
Outcome advance(Model &m, const Sub &s, int64_t cut) {
	Outcome o;
	size_t before = m.events.size(), scripts = m.scripts.size();
	m.beginOp(cut);
	try {
		switch (s.op) {
		case Sub::Load: m.load(s.arg); break;
		case Sub::Exec:
			if (!m.scripts[s.slot]) break;
			o.result = m.render(m.exec(m.scripts[s.slot]));
			break;
		case Sub::Call: {
			// The arguments are fresh values of this model.
			std::vector<V> a;
			for (auto &v : s.args) a.push_back(v.k == V::Str ? m.str(*(std::string *) v.p) : v);
			o.result = m.render(m.call(s.name, a));
			break;
		}
		case Sub::NewVM: m.resetRuntime(); break;
		case Sub::Restart: {
			std::string dummy;
			m.restart();
			break;
		}
		default: break;
		}
		if (cut >= 0) o.ok = false;
	}
	catch (LispError &) { o.ok = false; }
	catch (CutHere &) { o.ok = false; o.cut = true; }
	m.afterOp();
	if (s.op == Sub::Load && !o.ok) m.failedLoad(scripts);
	o.ev.assign(m.events.begin() + before, m.events.end());
	return o;
}

struct Lang {
	const Scenario &sc;
	RunLog &log;
	Inst in;
	std::vector<Cand> cands;
	std::vector<Sub> hist;
	std::vector<std::string> bytecode;
	std::vector<bool> have;
	std::vector<std::string> globals;
	std::map<std::string, dl_ptrdiff_t> keys;
	std::deque<std::string> argText;
	bool oom, truncated = false, compUp = true;
	int faultsHit = 0, opsDone = 0;

	Lang(const Scenario &s, RunLog &l) : sc(s), log(l), oom(s.num("oom", 0)) {
		std::string g = s.get("globals");
		for (auto &c : g) if (c == ',') c = ' ';
		globals = splitWords(g);
		std::string f = s.get("fill", "a5");
		g_seam.fill = f == "0" ? Fill::Zero : f == "ff" ? Fill::FF : f == "rand" ? Fill::Random : Fill::A5;
		setupInst(in, s);
	}
	std::vector<std::string> observeReal() {
		std::vector<std::string> o;
		if (in.vmUp) o.push_back(in.observe(&in.vm, globals, keys));
		if (in.dlUp) o.push_back(in.observe(&in.dl.vm, globals, keys));
		return o;
	}
	std::vector<std::string> observeModel(Model &m, bool vm, bool dl) {
		std::vector<std::string> o;
		if (vm) o.push_back(m.observe(m.run, globals));
		if (dl) o.push_back(m.observe(m.ct, globals));
		return o;
	}
	void learnKeys() {
		if (!in.dlUp) return;
		CurScope c(&in);
		for (auto &g : globals) {
			dl_ptrdiff_t k = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) g.data(), g.size());
			if (k >= 0) keys[g] = k;
		}
	}
	static std::string show(const Outcome &o) {
		std::string s = o.ok ? "ok " + o.result : "error";
		if (!o.ev.empty()) s += " after " + std::to_string(o.ev.size()) + " events";
		return s;
	}
	static std::string firstDiff(const std::vector<std::string> &a, const std::vector<std::string> &b) {
		for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
			std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
			if (x != y) return "number " + std::to_string(i) + " is " + x.substr(0, 300) + " instead of " + y.substr(0, 300);
		}
		return "";
	}
	// `faulted`: the operation may have been stopped anywhere.
	void settle(const Sub &s, const Outcome &real, bool faulted) {
		std::vector<Cand> next;
		Outcome first;
		bool any = false;
		bool expand = faulted && !real.ok;
		if (expand) {
			faultsHit++;
			std::set<std::string> seen;
			for (auto &c : cands) {
				// How far does it get by itself?
				std::vector<int64_t> base = c.cuts;
				for (int64_t k = 0;; k++) {
					std::unique_ptr<Model> m(new Model); m->maxSteps = c.m->maxSteps;
					for (size_t i = 0; i < hist.size(); i++) advance(*m, hist[i], base[i]);
					Outcome o = advance(*m, s, k);
					bool end = !o.cut;
					if (!any) { first = o; any = true; }
					if (o == real) {
						std::string f = m->fingerprint();
						if (seen.insert(f).second) {
							Cand n;
							n.cuts = base;
							n.cuts.push_back(k);
							n.m = std::move(m);
							next.push_back(std::move(n));
						}
					}
					if (o.ev.size() > real.ev.size() || end) break;
				}
			}
		}
		else {
			for (auto &c : cands) {
				Outcome o = advance(*c.m, s, -1);
				if (!any) { first = o; any = true; }
				if (o == real) { c.cuts.push_back(-1); next.push_back(std::move(c)); }
			}
		}
		if (next.empty()) {
			std::string what = opName(s);
			if (expand) throw Violation("interrupted " + what + " did something else than a prefix of its work: " + firstDiff(real.ev, first.ev));
			if (real.ok != first.ok) throw Violation(what + (real.ok ? " succeeds instead of failing: " : " fails instead of succeeding: ") + show(real) + " instead of " + show(first));
			if (real.ev != first.ev) throw Violation(what + " events differ: " + firstDiff(real.ev, first.ev));
			throw Violation(what + " result differs: " + real.result.substr(0, 300) + " instead of " + first.result.substr(0, 300));
		}
		hist.push_back(s);
		cands = std::move(next);
		// What the host can see now.
		learnKeys();
		auto ro = observeReal();
		for (auto &x : ro) { log.add("  " + x); g_states.add(hashStr(x)); }
		std::vector<std::string> expected;
		std::vector<Cand> keep;
		for (auto &c : cands) {
			auto mo = observeModel(*c.m, in.vmUp, in.dlUp);
			if (expected.empty()) expected = mo;
			if (mo == ro) keep.push_back(std::move(c));
		}
		if (keep.empty()) throw Violation("state after " + std::string(faulted ? "interrupted " : "") + opName(s) + " differs: " + firstDiff(ro, expected));
		cands = std::move(keep);
		if (cands.size() > 48) truncated = true;
	}
	static std::string opName(const Sub &s) {
		static const char *n[] = {"load", "execution", "call", "collection", "compile-time collection", "reset", "new VM", "restart", "compiler teardown"};
		return n[s.op];
	}
	Outcome realLoad(const std::string &src) {
		Outcome o;
		std::string b;
		dl_error_t e = in.load(src, &b);
		o.ok = !e;
		lastError = e;
		bytecode.push_back(b);
		have.push_back(!e);
		if (!e) log.add("  bytecode " + std::to_string(hashStr(b)));
		if (e && log.trace) {
			log.add("  messages " + in.errorText(in.dl.errors));
#ifdef USE_PARENTHESIS_INFERENCE
			log.add("  inference " + in.errorText(in.dl.inferrerLog));
#endif
		}
		return o;
	}
	dl_error_t lastError = dl_error_ok;
	void afterFailure() {
		CurScope c(&in);
		dl_error_t e = duckVM_softReset(&in.vm);
		// Captured variables that take up the whole heap can't be moved off the stack.
		if (e == dl_error_outOfMemory && in.vm.gclist.freeObjects_length == 0) { g_counters["reset_exhausted"]++; truncated = true; return; }
		if (e) throw Violation("soft reset failed: " + errName(e));
		if (in.stackLen() != 0) throw Violation("soft reset left " + std::to_string(in.stackLen()) + " values on the stack");
	}
	Outcome realExec(size_t slot) {
		Outcome o;
		size_t before = in.stackLen();
		dl_error_t e = in.exec(bytecode[slot]);
		lastError = e;
		o.ok = !e;
		if (!e) {
			if (in.stackLen() != before + 1) throw Violation("execution left " + std::to_string((long) in.stackLen() - (long) before) + " values instead of one");
			o.result = in.render(*in.top());
			CurScope c(&in);
			if (duckVM_pop(&in.vm)) throw Violation("the result cannot be popped");
		}
		return o;
	}
	Outcome realCall(const Sub &s) {
		Outcome o;
		CurScope c(&in);
		duckVM_t *v = &in.vm;
		auto run = [&]() -> dl_error_t {
			dl_error_t e;
			if ((e = duckVM_pushInteger(v))) return e;
			if ((e = duckVM_setInteger(v, 424242))) return e;
			auto k = keys.find(s.name);
			if (k == keys.end()) return dl_error_invalidValue;
			if ((e = duckVM_pushGlobal(v, k->second))) return e;
			for (auto &a : s.args) {
				switch (a.k) {
				case V::Int: if ((e = duckVM_pushInteger(v))) return e; if ((e = duckVM_setInteger(v, a.i))) return e; break;
				case V::Bool: if ((e = duckVM_pushBoolean(v))) return e; if ((e = duckVM_setBoolean(v, a.i))) return e; break;
				case V::Flt: if ((e = duckVM_pushFloat(v))) return e; if ((e = duckVM_setFloat(v, a.f))) return e; break;
				case V::Str: {
					std::string &t = *(std::string *) a.p;
					if ((e = duckVM_pushString(v, (dl_uint8_t *) t.data(), t.size()))) return e;
					break;
				}
				default: if ((e = duckVM_pushNil(v))) return e; break;
				}
			}
			return duckVM_call(v, -1 - (dl_ptrdiff_t) s.args.size(), (dl_uint8_t) s.args.size());
		};
		dl_error_t e = run();
		lastError = e;
		o.ok = !e;
		if (!e) {
			if (in.stackLen() != 3) throw Violation("a call left " + std::to_string(in.stackLen()) + " values instead of what was below it, the function and the result");
			o.result = in.render(*in.top());
			std::string below = in.render(*in.top(2));
			if (below != "424242") throw Violation("a call changed what was below it: " + below);
			for (int i = 0; i < 3; i++) if (duckVM_pop(v)) throw Violation("the result cannot be popped");
		}
		return o;
	}
	void one(Sub s, const Step &st) {
		if (truncated) return;
		if (s.op == Sub::Load && !compUp) return;
		if (s.op == Sub::Exec) {
			if (have.empty()) return;
			if (s.slot >= have.size()) s.slot = have.size() - 1;
			if (!have[s.slot]) return;
		}
		size_t ev = in.events.size();
		Outcome real;
		bool fault;
		uint64_t exhausted = in.exhausted;
		{
			Plan plan(st, &in);
			try {
			switch (s.op) {
			case Sub::Load: real = realLoad(s.arg); break;
			case Sub::Exec: real = realExec(s.slot); break;
			case Sub::Call: real = realCall(s); break;
			case Sub::Gc: { CurScope c(&in); dl_error_t e = duckVM_garbageCollect(&in.vm); lastError = e; real.ok = !e; break; }
			case Sub::CtGc: { if (!compUp) return; CurScope c(&in); dl_error_t e = duckVM_garbageCollect(&in.dl.vm); lastError = e; real.ok = !e; break; }
			case Sub::Reset: { afterFailure(); break; }
			case Sub::NewVM: {
				in.quitVM();
				checkUsersGone(in.dlUp ? 1 : 0);
				g_seam.plan.clear();
				if (!compUp) { truncated = true; return; }
				dl_error_t e = in.initVM();
				if (e) throw Violation("a new VM cannot be initialised: " + errName(e));
				break;
			}
			case Sub::Restart: {
				in.quitVM(); in.quitCompiler();
				leakCheck();
				dl_error_t e = in.initCompiler();
				if (!e) e = in.initVM();
				if (e) throw Violation("a new compiler cannot be initialised: " + errName(e));
				compUp = true;
				keys.clear();
				for (size_t i = 0; i < have.size(); i++) have[i] = false;
				break;
			}
			case Sub::QuitComp: in.quitCompiler(); compUp = false; break;
			}
			}
			catch (Violation &v) {
				// A program that runs for very long isn't stuck.
				if (std::string(v.what()).compare(0, 11, "no progress") == 0) for (auto &c : cands) (void) advance(*c.m, s, -1);
				throw;
			}
			fault = g_seam.injected || in.cutDone;
			if (in.cutDone && s.op != Sub::Load && real.ok) throw Violation("an error of an instruction was lost");
		}
		if (oom && !real.ok && in.exhausted != exhausted) {  // no free object was left after a collection
			fault = true;
			g_counters["heap_exhausted"]++;
		}
		if (!real.ok && (s.op == Sub::Exec || s.op == Sub::Call)) afterFailure();
		if (truncated) return;
		if (in.vmUp) auditHeap(&in.vm);
		if (in.dlUp) auditHeap(&in.dl.vm);
		checkComplaints(opName(s).c_str());
		real.ev.assign(in.events.begin() + ev, in.events.end());
		for (auto &e : real.ev) log.add("  ev " + e);
		log.add(std::string(opName(s)) + " -> " + (real.ok ? "ok " + real.result : errName(lastError)) + (fault ? " (faulted)" : ""));
		if (!real.ok && log.trace) log.add("");
		opsDone++;
		settle(s, real, fault);
		if (s.op == Sub::Gc && real.ok) checkCollected();
	}
	// After a full collection outside of any execution nothing unreachable may be left.
	void checkCollected() {
		std::set<int64_t> reach;
		for (auto &c : cands) { auto r = c.m->reachableUsers(); reach.insert(r.begin(), r.end()); }
		for (auto &u : in.users) {
			if (u->destroyed || reach.count(u->id) || ctUser(u->id)) continue;
			throw Violation("garbage not collected: unreachable host object " + std::to_string(u->id) + " survives a full collection");
		}
		size_t most = 0;
		for (auto &c : cands) most = std::max(most, c.m->reachableValues());
		// The VM needs a few objects per value the globals lead to, and none for garbage.
		if (liveObjects(in.vm) > 60 + 4 * most) throw Violation("garbage not collected: " + std::to_string(liveObjects(in.vm)) + " objects are left by a full collection where the globals lead to " + std::to_string(most) + " values");
		g_counters["live_checked"]++;
	}
	size_t liveObjects(duckVM_t &vm) { return vm.gclist.objects_length - vm.gclist.freeObjects_length; }
	bool ctUser(int id) { return in.users[id]->comptime; }
	void checkUsersGone(int onlyRun) {
		for (auto &u : in.users)
			if (!u->destroyed && !(onlyRun && u->comptime)) throw Violation("destructor missing: host object " + std::to_string(u->id) + " outlives its VM");
	}
	void leakCheck() {
		checkUsersGone(0);
		checkComplaints("teardown");
		if (g_seam.liveOf(in.id)) throw Violation("memory lost: " + std::to_string(g_seam.liveOf(in.id)) + " blocks are live after teardown:" + g_seam.describeLive(in.id));
	}
	void start() {
		// Initialisation itself may be made to fail; tearing down and starting again has to work then.
		for (int which = 0; which < 2; which++) {
			std::string p = sc.get(which ? "vminit" : "compinit");
			for (int attempt = 0; attempt < 2; attempt++) {
				Step st;
				if (!attempt && !p.empty()) st.opt["alloc"] = p;
				dl_error_t e;
				bool f;
				{
					Plan plan(st, &in);
					e = which ? in.initVM() : in.initCompiler();
					f = g_seam.injected;
				}
				log.add(std::string(which ? "VM" : "compiler") + " init " + errName(e));
				if (!e) break;
				if (!f) throw Violation(std::string(which ? "VM" : "compiler") + " initialisation failed: " + errName(e));
				faultsHit++;
				if (which) in.quitVM(); else in.quitCompiler();
				if (!which && g_seam.liveOf(in.id)) throw Violation("memory lost: blocks are live after a failed initialisation:" + g_seam.describeLive(in.id));
			}
		}
	}
	void run() {
		start();
		Cand c;
		c.m.reset(new Model);
		c.m->maxSteps = sc.num("steps", 60000);
		cands.push_back(std::move(c));
		int n = 0;
		for (auto &st : sc.steps) {
			if (truncated) break;
			log.add("step " + std::to_string(n++) + " " + st.op);
			if (log.trace) log.add("  " + st.str());
			Sub s;
			if (st.op == "run" || st.op == "load") {
				s.op = Sub::Load; s.arg = st.arg;
				one(s, st);
				if (st.op == "run" && compUp) {
					Sub x;
					x.op = Sub::Exec;
					if (!have.empty()) { x.slot = have.size() - 1; if (have.back()) one(x, st); }
				}
			}
			else if (st.op == "exec") { s.op = Sub::Exec; s.slot = st.opt.count("k") ? std::stoul(st.opt.at("k")) : 999999; one(s, st); }
			else if (st.op == "call") {
				s.op = Sub::Call;
				NodeArena a;
				Node *f = readForm(a, "(" + st.arg + ")");
				s.name = st.opt.at("f");
				for (Node *k : f->kids) {
					V v;
					switch (k->kind) {
					case Node::Int: v = V::n(k->i); break;
					case Node::Bool: v = V::b(k->i); break;
					case Node::Flt: v = V::d(k->f); break;
					case Node::Str: argText.push_back(k->s); v.k = V::Str; v.p = &argText.back(); break;
					default: break;
					}
					s.args.push_back(v);
				}
				one(s, st);
			}
			else if (st.op == "gc") { s.op = Sub::Gc; one(s, st); }
			else if (st.op == "ctgc") { s.op = Sub::CtGc; one(s, st); }
			else if (st.op == "reset") { s.op = Sub::Reset; one(s, st); }
			else if (st.op == "newvm") { s.op = Sub::NewVM; one(s, st); }
			else if (st.op == "restart") { s.op = Sub::Restart; one(s, st); }
			else if (st.op == "quitcomp") { s.op = Sub::QuitComp; one(s, st); }
			else throw std::runtime_error("unknown step " + st.op);
		}
		in.quitVM();
		in.quitCompiler();
		leakCheck();
		in.quitPool();
		log.nontrivial = opsDone >= 2 && (in.events.size() >= 2);
		log.outcome = truncated ? "truncated" : "ok";
		if (truncated) g_counters["truncated_runs"]++;
		g_counters["instructions"] += in.steps;
		g_counters["operations"] += opsDone;
		g_counters["operations_interrupted"] += faultsHit;
	}
};
}
void runLang(const Scenario &s, RunLog &log) {
	Lang l(s, log);
	l.run();
}

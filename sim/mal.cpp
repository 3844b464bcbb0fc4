// P18: sources that may be broken, offered between good ones; a twin that never sees the rejected ones is the reference.
#include "scen.h"
#include <algorithm>

namespace {
struct Side {
	Inst in;
	std::vector<std::string> code;
	std::vector<int> err;
	std::map<std::string, dl_ptrdiff_t> keys;
	void learn(const std::vector<std::string> &g) {
		CurScope c(&in);
		for (auto &n : g) {
			dl_ptrdiff_t k = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) n.data(), n.size());
			if (k >= 0) keys[n] = k;
		}
	}
};
}
void runMalformed(const Scenario &s, RunLog &log) {
	struct Lenient { Lenient() { g_brokenSources = true; } ~Lenient() { g_brokenSources = false; } } lenient;
	std::string f = s.get("fill", "a5");
	g_seam.fill = f == "0" ? Fill::Zero : f == "ff" ? Fill::FF : f == "rand" ? Fill::Random : Fill::A5;
	std::string g = s.get("globals");
	for (auto &c : g) if (c == ',') c = ' ';
	std::vector<std::string> globals = splitWords(g);
	Side a, b;
	Step none;
	for (Side *x : {&a, &b}) {
		setupInst(x->in, s);
		x->in.regrow = false;
		x->in.exactSource = true;
		x->in.cfg.inference = s.num("infer", 0);
		x->in.id = x == &a ? 1 : 2;
		Plan plan(none, &x->in);
		dl_error_t e = x->in.initCompiler();
		if (!e) e = x->in.initVM();
		if (e) throw Violation("initialisation failed: " + errName(e));
	}
	size_t rejected = 0, accepted = 0, good = 0;
	bool over = false;
	auto offer = [&](Side &x, const Step &st, std::string *code, bool *cut) {
		Plan plan(st, &x.in);
		g_seam.failAbove = 64u << 20;
		if (!x.in.cutAt) x.in.cutAt = 30000;
		// The host takes note of messages and clears them.
		x.in.dl.errors.elements_length = 0;
		dl_error_t e = x.in.load(st.arg, code);
		*cut = x.in.cutDone || g_seam.injected;
		return e;
	};
	for (auto &st : s.steps) {
		if (over) break;
		size_t ea = a.in.events.size(), eb = b.in.events.size();
		if (st.op == "bad") {
			std::string ca, cb;
			bool cut, cutB;
			dl_error_t e = offer(a, st, &ca, &cut);
			if (a.in.exhausted) { over = true; break; }
			auditHeap(&a.in.dl.vm);
			checkComplaints("a load");
			log.add("offered " + std::to_string(st.arg.size()) + " bytes -> " + errName(e));
			if (e) {
				rejected++;
				g_counters["sources_rejected"]++;
				if (e == dl_error_cantHappen) g_counters["cant_happen"]++;
				if (!a.in.dl.errors.elements_length) g_counters["rejected_silently"]++;
				g_states.add(hashBytes(a.in.dl.errors.elements, a.in.dl.errors.elements_length > 60 ? 60 : a.in.dl.errors.elements_length));
				// One compiler may be offered the same broken source again and again.
				long times = st.opt.count("times") ? std::stol(st.opt.at("times")) : 1;
				for (long k = times; k > 1 && !a.in.exhausted && !cut; k--) {
					std::string code;
					dl_error_t again = offer(a, st, &code, &cut);
					g_counters["sources_rejected"]++;
					if (again != e && !a.in.exhausted && !cut) throw Violation("a source that is rejected with " + errName(e) + " gives " + errName(again) + " when it is offered " + std::to_string(times - k + 2) + " times");
				}
				if (a.in.exhausted) { over = true; break; }
				// Code it ran while it was compiled may have spoken.
				a.in.events.resize(ea);
				// What that code did to the compile-time VM stays done. The twin is told about types; globals end the history.
				b.in.dl.vm.nextUserType = a.in.dl.vm.nextUserType;
				a.learn(globals); b.learn(globals);
				if (a.in.observe(&a.in.dl.vm, globals, a.keys) != b.in.observe(&b.in.dl.vm, globals, b.keys)) { g_counters["compile_time_effects"]++; over = true; break; }
			}
			else {
				accepted++;
				g_counters["sources_accepted"]++;
				Step plain = st;
				plain.opt.erase("alloc");
				dl_error_t e2 = offer(b, plain, &cb, &cutB);
				if (b.in.exhausted || cutB) { over = true; break; }
				if (e2) throw Violation("a source is accepted after rejected ones, and is rejected without them: " + errName(e2));
				a.in.events.resize(ea); b.in.events.resize(eb);
			}
		}
		else if (st.op == "good") {
			std::string ca, cb;
			bool c1, c2;
			dl_error_t e1 = offer(a, st, &ca, &c1), e2 = offer(b, st, &cb, &c2);
			if (a.in.exhausted || b.in.exhausted || c1 || c2) { over = true; break; }
			log.add("load -> " + errName(e1));
			if (e1 != e2) throw Violation("a load after rejected sources gives " + errName(e1) + " instead of " + errName(e2));
			if (!e1) {
				Step run;
				run.opt["limit"] = "100000";
				dl_error_t x1, x2;
				std::string r1, r2;
				for (Side *x : {&a, &b}) {
					Plan plan(run, &x->in);
					dl_error_t e = x->in.exec(x == &a ? ca : cb);
					(x == &a ? x1 : x2) = e;
					if (!e) { (x == &a ? r1 : r2) = x->in.render(*x->in.top()); CurScope c(&x->in); (void) duckVM_pop(&x->in.vm); }
					CurScope c(&x->in);
					if (duckVM_softReset(&x->in.vm)) over = true;
					if (x->in.cutDone || x->in.exhausted) over = true;
				}
				if (over) break;
				log.add("execution -> " + errName(x1) + " " + r1);
				if (x1 != x2) throw Violation("an execution after rejected sources gives " + errName(x1) + " instead of " + errName(x2));
				if (r1 != r2) throw Violation("an execution after rejected sources gives " + r1.substr(0, 200) + " instead of " + r2.substr(0, 200));
				good++;
			}
			std::vector<std::string> va(a.in.events.begin() + ea, a.in.events.end()), vb(b.in.events.begin() + eb, b.in.events.end());
			for (auto &v : va) log.add("  ev " + v);
			if (va != vb) throw Violation("the events of a load and its execution after rejected sources aren't the same");
			checkComplaints("a load");
			a.learn(globals); b.learn(globals);
			std::string oa = a.in.observe(&a.in.vm, globals, a.keys), ob = b.in.observe(&b.in.vm, globals, b.keys);
			if (oa != ob) throw Violation("globals after rejected sources are " + oa.substr(0, 300) + " instead of " + ob.substr(0, 300));
		}
		else if (st.op == "ctgc") { CurScope c(&a.in); (void) duckVM_garbageCollect(&a.in.dl.vm); }
		else if (st.op == "gc") { CurScope c(&a.in); (void) duckVM_garbageCollect(&a.in.vm); }
		else throw std::runtime_error("unknown step " + st.op);
		if (a.in.dl.vm.stack.elements_length != b.in.dl.vm.stack.elements_length) throw Violation("a rejected source left something on the stack of the compile-time VM");
	}
	for (Side *x : {&a, &b}) {
		x->in.quitVM(); x->in.quitCompiler();
		if (g_seam.liveOf(x->in.id)) throw Violation(std::string("memory lost") + (x == &a ? " with" : " without") + " rejected sources:" + g_seam.describeLive(x->in.id));
		x->in.quitPool();
	}
	log.nontrivial = rejected && (good || accepted);
	log.outcome = over ? "truncated" : "ok";
}

namespace {
std::string mutate(Rng &r, const std::string &src, const std::vector<std::string> &all) {
	std::string s = src;
	static const char *bits[] = {"(", ")", "()", "((", "))", "'", "#", "\"", "\\", "\\\"", ";", "\n", " ", "\t", "&rest", "&rest)", "-", ".", "0x", "0xZ", "1e", "1e9", "1.", ".5", "-", "--1", "99999999999999999999",
	    "`", ",", "#(", "#\"", "#\\", "#'", "!", "(quote", "(quote)", "(lambda", "(lambda ())", "(lambda x x)", "(defun)", "(defun f)", "(defun 5 () 1)", "(defun f (a a) a)", "(defmacro)", "(defmacro m ())",
	    "(defmacro m (x))", "(defmacro 5 () 1)", "(var)", "(var x)", "(var x 1 2)", "(var (x) 1)", "(setq)", "(setq 5 1)", "(setq nope 1)", "(setq x)", "(if)", "(if 1)", "(if 1 2)", "(if 1 2 3 4)", "(when)", "(unless)",
	    "(while)", "(while ())", "(()", "(global)", "(global x)", "(funcall 5)", "(funcall nope)", "(apply)", "(apply f)", "(noscope (var a 1))", "(self)", "(self 1)", "(nope)", "(\"a\" 1)", "(5 5)", "(1.5)", "(true)", "((lambda ()) 1)", "(comptime)",
	    "(comptime (nope))", "(comptime (+ 1 \"a\"))", "(comptime (quote (1 . 2)))", "(comptime (() (var l (list 1 2)) (set-car l l) l))", "(comptime (() (var l (list 1 2 3)) (set-cdr l l) l))", "(comptime (() (var l (list 1 2 3)) (set-cdr (cdr l) l) l))",
	    "(comptime (() (var l (vector 1 2)) (set-car l l) l))", "(comptime (() (var l (list 1)) (var i 0) (while (< i 1200) (setq l (list l)) (setq i (+ i 1))) l))", "(comptime (() (var l (list 1)) (var i 0) (while (< i 1200) (setq l (cons i l)) (setq i (+ i 1))) l))",
	    "(() (defmacro cyc () (() (var l (list (quote emit) 2)) (set-car (cdr l) l) l)) (cyc))", "(() (defmacro cyc () (() (var l (list (quote emit) 2)) (set-cdr (cdr l) l) l)) (cyc))",
	    "(() (defmacro deep () (() (var l (quote (emit 1))) (var i 0) (while (< i 1200) (setq l (list l)) (setq i (+ i 1))) l)) (deep))", "(() (defmacro wide () (() (var l ()) (var i 0) (while (< i 1200) (setq l (cons 1 l)) (setq i (+ i 1))) (cons (quote list) l))) (wide))", "(vector", "(make-vector)", "(substring \"a\")", "(+)", "(+ 1)", "(+ 1 2 3)", "(/ 1 0)", "(list", "(cons 1)", "(car)", "(set-car)", "(emit)", "(emit 1 2)", "(host-call0)",
	    "(include \"nope\")", "(include)", "(error)", "(__declare x)", "(__infer-and-get-next-argument)", "(declare)", "(macro)", "(noscope)", "(goto x)", "(label x)", "(not)", "(null?)", "(string-length)", "(symbol-id 'a)", "(gensym)", "(intern \"x\")", "(read \"(1\")", "(read \"1\" 5 6 7)"};
	auto pos = [&]() { return s.empty() ? 0 : (size_t) r.below(s.size() + 1); };
	int n = r.chance(1, 2) ? 1 : 1 + (int) r.below(6);
	for (int i = 0; i < n; i++) {
		switch (r.below(14)) {
		case 0: s = s.substr(0, pos()); break;                                   // a torn write
		case 1: if (!s.empty()) s = s.substr(r.below(s.size())); break;
		case 2: if (!s.empty()) s.erase(r.below(s.size()), 1 + r.below(r.chance(1, 2) ? 1 : 12)); break;
		case 3: if (!s.empty()) s[r.below(s.size())] = (char) r.below(256); break;
		case 4: if (!s.empty()) s[r.below(s.size())] ^= (char) (1 << r.below(8)); break;
		case 5: s.insert(pos(), 1, (char) r.below(256)); break;
		case 6: case 7: case 8: s.insert(pos(), bits[r.below(sizeof bits / sizeof *bits)]); break;
		case 9: if (!s.empty()) { size_t p = r.below(s.size()), k = 1 + r.below(40); s.insert(pos(), s.substr(p, k)); } break;
		case 10: { const std::string &o = r.pick(all); if (!o.empty()) { size_t p = r.below(o.size()); s.insert(pos(), o.substr(p, 1 + r.below(60))); } break; }
		case 11: {  // drop or double a token
			std::vector<size_t> st;
			for (size_t k = 0; k < s.size(); k++) if (s[k] == '(') st.push_back(k);
			if (st.empty()) break;
			size_t p = r.pick(st), d = 0, q = p;
			for (; q < s.size(); q++) { if (s[q] == '(') d++; if (s[q] == ')' && !--d) break; }
			std::string form = s.substr(p, q - p + 1);
			if (r.chance(1, 2)) s.erase(p, form.size());
			else if (form.size() < 300) s.insert(p, form);
			break;
		}
		case 12: {  // replace one whole form
			std::vector<size_t> st;
			for (size_t k = 0; k < s.size(); k++) if (s[k] == '(') st.push_back(k);
			if (st.empty()) break;
			size_t p = r.pick(st), d = 0, q = p;
			for (; q < s.size(); q++) { if (s[q] == '(') d++; if (s[q] == ')' && !--d) break; }
			s.replace(p, q - p + 1, bits[r.below(sizeof bits / sizeof *bits)]);
			break;
		}
		default: {
			char c = "()'\"#;"[r.below(6)];
			size_t k = 1 + r.below(r.chance(1, 5) ? 200 : 5);
			s.insert(pos(), k, c);
			break;
		}
		}
	}
	if (s.size() > 20000) s.resize(20000);
	return s;
}
}
std::string oddForm(Rng &r, int depth) {
	static const char *names[] = {"*", "+", "-", "/", "<", "=", ">", "apply", "car", "cdr", "composite-function", "composite-value", "comptime", "concatenate", "cons", "declare", "funcall", "get-vector-element",
	    "if", "length", "list", "make-instance", "make-string", "make-type", "make-vector", "nop", "noscope", "not", "null?", "quote", "set-car", "set-cdr", "set-composite-function", "set-composite-value",
	    "set-vector-element", "setq", "substring", "symbol-id", "symbol-string", "type-of", "unless", "vector", "when", "while", "error", "var", "global", "lambda", "defun", "defmacro", "emit", "emit2", "self", "include", "f", "x", "m"};
	static const char *atoms[] = {"1", "0", "-3", "1.5", "true", "false", "\"s\"", "\"\"", "x", "x", "f", "nope", "()", "(quote a)", "(x)", "(a b)", "(a &rest b)", "(&rest)", "(a &rest)", "&rest", "(var q 1)", "(emit 1)", "(list 1 2)", "(f 1)", "(lambda (a) a)", "(() 1)", "self", "car", "(quote x)", "5000000000"};
	size_t n = sizeof names / sizeof *names;
	std::string name = names[r.below(n)];
	if (r.chance(1, 6) && name.size() > 2) name = "__" + name;
	std::string s = "(" + name;
	int args = (int) r.below(r.chance(1, 8) ? 9 : 5);
	for (int i = 0; i < args; i++) s += " " + (depth && r.chance(1, 5) ? oddForm(r, depth - 1) : std::string(atoms[r.below(sizeof atoms / sizeof *atoms)]));
	return s + ")";
}
// One or several of them where statements or operands go.
std::string oddScript(Rng &r) {
	std::string s = "(() (var x 1) (defun f (a) (setq x a)) (defmacro m (a) (list (quote emit) a))";
	int n = 1 + (int) r.below(3);
	for (int i = 0; i < n; i++) {
		std::string f = oddForm(r, 2);
		switch (r.below(7)) {
		case 0: f = "(emit " + f + ")"; break;
		case 1: f = "(if (= x 2) " + f + " " + oddForm(r) + ")"; break;
		case 2: f = "(var y" + std::to_string(i) + " " + f + ")"; break;
		case 3: f = "((lambda (z) " + f + " z) 1)"; break;
		case 4: f = "(m " + f + ")"; break;
		default: break;
		}
		s += " " + f;
	}
	return s + " (emit x) x)";
}
Scenario genMalformed(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 0xD6E8FEB86659FD93ull + 17);
	Scenario s;
	std::vector<std::string> src;
	std::string globals;
	for (int t = 0; t < 3 && src.size() < 4; t++) {
		static const char *props[] = {"P12", "P05", "P03", "P06", "P09"};
		Scenario x = genLang(props[r.below(5)], seed * 8 + t, tier);
		globals = x.get("globals");
		for (auto &st : x.steps) {
			if (st.op != "load" || st.arg.size() > 6000) continue;
			bool skip = false;
			for (const char *w : {"tick", "cg", "mkuser", "zz"}) if (st.arg.find(w) != std::string::npos) skip = true;
			if (!skip) src.push_back(st.arg);
		}
	}
	if (src.empty()) src.push_back("(() (var x 1) (defun f (a) (+ a x)) (f 2))");
	s.head["globals"] = globals;
	static const char *fills[] = {"a5", "0", "ff", "rand"};
	s.head["fill"] = fills[r.below(4)];
	s.head["heap"] = "2500"; s.head["ctheap"] = "2000";
	if (r.chance(1, 3)) s.head["gc"] = "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(1 + r.below(30));
	if (r.chance(1, 2)) s.head["infer"] = "1";
	int n = 2 + (int) r.below(8);
	size_t next = 0;
	for (int i = 0; i < n; i++) {
		Step st;
		unsigned k = r.below(10);
		if (k < 3) { st.op = "good"; st.arg = src[next++ % src.size()]; }
		else if (k == 3 && r.chance(1, 2)) st.op = r.chance(1, 2) ? "ctgc" : "gc";
		else {
			st.op = "bad";
			if (r.chance(1, 10)) { for (uint64_t j = r.below(200); j > 0; j--) st.arg += (char) r.below(256); }
			else if (r.chance(1, 8)) { static const char ch[] = "()()()'\"#; \n-.0123456789abcxyz&,\\"; for (uint64_t j = r.below(60); j > 0; j--) st.arg += ch[r.below(sizeof ch - 1)]; }
			else if (r.chance(1, 4)) st.arg = oddScript(r);
			else st.arg = mutate(r, r.chance(1, 4) ? std::string("(() (emit 1))") : r.pick(src), src);
			if (r.chance(1, 12)) st.opt["alloc"] = std::to_string(r.below(300)) + ":" + std::to_string(1 + r.below(3));
			if (st.arg.find("tick") != std::string::npos || st.arg.find("mkuser") != std::string::npos) st.arg = "(";
		}
		s.steps.push_back(st);
	}
	if (r.chance(1, 6)) {
		// A hail of one broken source, broken deep inside more often than not.
		Step st;
		st.op = "bad";
		static const char *nests[] = {"(emit %)", "((lambda (a) %) 1)", "(if x % 2)", "(+ 1 %)", "(list 1 %)", "(() (var y 1) %)", "(while (< x 0) %)", "(comptime %)", "(defun fn () %)", "(quote %)", "(var y %)", "(m %)"};
		st.arg = r.chance(1, 2) ? oddForm(r) : std::string(r.chance(1, 2) ? "(setq)" : "(");
		for (uint64_t k = r.below(12); k > 0; k--) {
			std::string f = nests[r.below(sizeof nests / sizeof *nests)];
			f.replace(f.find('%'), 1, st.arg);
			st.arg = f;
		}
		st.arg = "(() (var x 1) (defmacro m (a) (list (quote emit) a)) " + st.arg + ")";
		st.opt["times"] = std::to_string(50 + r.below(r.chance(1, 3) ? 1000 : 200));
		s.steps.push_back(st);
		// One that needs a good part of the depth there is.
		std::string deep = "1";
		for (uint64_t k = 50 + r.below(300); k > 0; k--) deep = "(+ 1 " + deep + ")";
		st = Step();
		st.op = "good"; st.arg = "(() (emit " + deep + "))";
		s.steps.push_back(st);
	}
	Step st;
	st.op = "good"; st.arg = src[next++ % src.size()];
	s.steps.push_back(st);
	return s;
}

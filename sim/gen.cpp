// Generates scripts and histories for the language scenarios. Every choice comes from the seed.
#include "scen.h"
#include <algorithm>

namespace {
enum T { I, B, F, S, Y, L, VV, C0, C1, Q, A, NT };
struct Var { std::string name; T t; bool frozen = false; };
struct Fn { std::string name; std::vector<T> params; bool variadic; T ret; };
struct Mac { std::string name; int kind; int arity = 1; bool runtime = false; };
struct X { std::string s; bool bare = false, impure = false; };

struct Weights {
	int closures = 3, mutate = 3, loops = 2, macros = 1, host = 1, errors = 0, comps = 1, strings = 2, users = 1, vectors = 2, calls = 3,
	    gcs = 1, apply = 1, padding = 0, overwrite = 0, wide = 0, wild = 0, longText = 0;
};
struct Gen {
	Rng r;
	Weights w;
	std::vector<Var> vars;
	std::vector<Fn> fns;
	std::vector<Mac> macs;
	std::vector<std::pair<std::string, T>> globals;   // declared so far
	std::vector<std::pair<std::string, int>> gfns;    // global closures and their arities (of int arguments)
	std::vector<std::string> gpool;
	int names = 0, budget = 0, loopDepth = 0, fnDepth = 0, ctNames = 0;
	bool ct = false;                                   // generating compile-time code
	bool inMacro = false;
	explicit Gen(uint64_t seed) : r(seed) {}

	std::string fresh(const char *p) { return std::string(p) + std::to_string(names++); }
	std::string lit(T t) {
		switch (t) {
		case I: {
			switch (r.below(8)) {
			case 0: return std::to_string(r.range(-130, 130));
			case 1: return std::to_string(r.range(-40000, 40000));
			case 2: return std::to_string(r.range(-2000000000, 2000000000));
			default: return std::to_string(r.range(-3, 9));
			}
		}
		case B: return r.chance(1, 2) ? "true" : "false";
		case F: { static const char *f[] = {"0.5", "1.25", "-2.75", "0.0", "3.0", "-0.5"}; return f[r.below(6)]; }
		case S: {
			if (w.longText && r.chance(w.longText, 100)) {
				// The code is as much longer as the text is: jumps and lengths near the bounds of their operands.
				size_t n = r.chance(1, 12) ? (r.chance(1, 2) ? 32600 + r.below(200) : 65300 + r.below(400)) : r.chance(1, 4) ? 225 + r.below(40) : 60 + r.below(80);
				std::string t = "\"";
				for (size_t i = 0; i < n; i++) t += (char) ('a' + (i * 7 + n) % 26);
				return t + '"';
			}
			static const char *f[] = {"\"\"", "\"a\"", "\"hello\"", "\"abc def\"", "\"xyz\"", "\"0123456789abcdef0123456789abcdef\""}; return f[r.below(6)]; }
		case Y: {
			if (w.longText && r.chance(w.longText, 400)) { std::string t = "(quote n"; for (size_t n = r.chance(1, 12) ? 65300 + r.below(400) : 200 + r.below(80); n > 0; n--) t += 'q'; return t + ")"; }
			static const char *f[] = {"a", "b", "foo", "foobar", "fo", "x", "long-symbol-name"}; return std::string("(quote ") + f[r.below(7)] + ")"; }
		case L: {
			switch (r.below(4)) {
			case 0: return "()";
			case 1: return "(quote (1 2 3))";
			case 2: return "(quote (a (b \"c\") 2.5 ()))";
			default: return "(list " + lit(I) + " " + lit(S) + ")";
			}
		}
		case VV: return r.chance(1, 6) ? "(vector)" : "(vector " + lit(I) + " " + lit(I) + " " + lit(S) + ")";
		case C0: return "(lambda () " + lit(I) + ")";
		case C1: return "(lambda (q) q)";
		default: return lit((T) r.below(VV + 1));
		}
	}
	std::string randVar(T t, bool assign, bool *ok) {
		std::vector<std::string> c;
		for (auto &v : vars) if ((v.t == t || (!assign && t == A)) && !(assign && v.frozen)) c.push_back(v.name);
		if (!ct) for (auto &g : globals) if (g.second == t || (!assign && t == A)) c.push_back(g.first);
		if (c.empty()) { *ok = false; return ""; }
		*ok = true;
		// Recently declared names are more interesting.
		return r.chance(1, 2) ? c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 3))] : r.pick(c);
	}
	X leaf(T t) {
		bool ok;
		std::string v = randVar(t, false, &ok);
		if (ok && !r.chance(1, 4)) return {v, true, v[0] == 'z'};  // anything at all replaces a macro's parameter
		if (t == Q || t == NT) return {"(make-instance (make-type) " + lit(I) + " " + lit(C0) + ")", false, false};
		return {lit(t == A ? (T) r.below(L + 1) : t), false, false};
	}
	static bool alias(const std::string &op) {
		static const std::set<std::string> n = {"+", "-", "*", "/", "<", ">", "=", "not", "cons", "car", "cdr", "set-car", "set-cdr", "null?", "list", "vector", "make-vector",
			"get-vector-element", "set-vector-element", "length", "type-of", "make-type", "make-instance", "composite-value", "composite-function", "set-composite-value",
			"set-composite-function", "concatenate", "substring", "make-string", "symbol-string", "symbol-id", "funcall", "apply"};
		return n.count(op);
	}
	std::string head(const std::string &op) { return r.chance(1, 60) ? "__" + op : op; }
	// Whatever can decide a branch: everything but a few types is true or false.
	X cond(int d) {
		switch (r.below(12)) {
		case 0: { static const char *c[] = {"true", "false", "0", "1", "-1", "0.0", "0.5", "\"\"", "\"a\"", "()"}; return {c[r.below(10)], false, false}; }
		case 1: return expr(I, d);
		case 2: return expr(L, d);
		case 3: { static const T t[] = {VV, S, Y, F, C1, A}; return expr(t[r.below(6)], d); }
		default: return expr(B, d);
		}
	}
	// A call of an operator that refers to its operands where they are.
	X prim(const std::string &op, std::vector<X> a) {
		bool imp = false;
		for (auto &x : a) imp |= x.impure;
		// Most operators have a second name.
		X o{(op != "emit" && op.find(' ') == std::string::npos && op[0] != '_' && op[0] != 'h' && alias(op) && r.chance(1, 60) ? "(__" : "(") + op, false, imp};
		for (auto &x : a) {
			if (imp && x.bare) o.s += " (() " + x.s + ")"; else o.s += " " + x.s;
		}
		o.s += ")";
		return o;
	}
	X call(const std::string &head, std::vector<X> a) { X o = prim(head, a); o.impure = true; return o; }
	std::string block(T t, int d, int stmts) {
		size_t nv = vars.size(), nf = fns.size(), nm = macs.size();
		std::string s;
		for (int i = 0; i < stmts; i++) s += stmt(d - 1) + " ";
		s += expr(t, d - 1).s;
		vars.resize(nv); fns.resize(nf); macs.resize(nm);
		return s;
	}
	X lambda(int arity, T ret, int d) {
		size_t nv = vars.size(), nf = fns.size(), nm = macs.size();
		std::string p;
		for (int i = 0; i < arity; i++) {
			std::string n = !ct && !fns.empty() && r.chance(1, 20) ? r.pick(fns).name : fresh("p");  // calls still reach the function
			p += (i ? " " : "") + n;
			vars.push_back({n, I});
		}
		int ld = loopDepth;
		loopDepth = 0;
		fnDepth++;
		std::string b = block(ret, d - 1, (int) r.below(3));
		fnDepth--;
		loopDepth = ld;
		vars.resize(nv); fns.resize(nf); macs.resize(nm);
		return {"(lambda (" + p + ") " + b + ")", false, false};
	}
	X expr(T t, int d) {
		if (d <= 0 || --budget < 0) return leaf(t);
		if (w.errors && r.chance(w.errors, 400)) { T u = (T) r.below(A); if (u != t) return expr(u, d - 1); }
		switch (r.below(10)) {
		case 0: case 1: return leaf(t);
		case 2: if (!r.chance(1, 2)) break; {
			X c = cond(d - 1), a = expr(t, d - 1), b = expr(t, d - 1);
			return {"(" + head("if") + " " + c.s + " " + a.s + " " + b.s + ")", false, c.impure || a.impure || b.impure};
		}
		case 3: if (!r.chance(1, 3)) break; return {"(() " + block(t, d, 1 + (int) r.below(2)) + ")", false, true};
		case 4: {  // assignment as an expression
			bool ok;
			if (!w.mutate || t == A) break;
			std::string v = randVar(t, true, &ok);
			if (!ok) break;
			return {"(setq " + v + " " + expr(t, d - 1).s + ")", false, true};
		}
		case 5: {  // calls
			if (!w.calls) break;
			std::vector<Fn *> c;
			for (auto &f : fns) if (f.ret == t || t == A) c.push_back(&f);
			if (c.empty()) break;
			Fn f = *c[r.below(c.size())];
			std::vector<X> a;
			for (T p : f.params) a.push_back(expr(p, d - 1));
			if (f.variadic) for (int i = (int) r.below(3); i > 0; i--) a.push_back(expr(A, d - 1));
			switch (r.below(6)) {
			case 0: {
				X o = call("funcall #" + f.name, a);
				return o;
			}
			case 1: {
				if (!w.apply || a.empty()) break;
				size_t k = r.below(a.size() + 1);
				std::vector<X> front(a.begin(), a.begin() + k), back(a.begin() + k, a.end());
				front.push_back(prim("list", back));
				return call("apply #" + f.name, front);
			}
			case 2: if (w.host && !f.variadic && a.size() < 3 && !ct) { return call("host-call" + std::to_string(a.size()) + " #" + f.name, a); }
			}
			return call(f.name, a);
		}
		case 6: {  // macros and compile time
			if (!w.macros || t == Q || t == C0 || t == C1 || t == VV) break;
			if (!macs.empty() && (t == I) && r.chance(2, 3)) return useMacro(d);
			if (inMacro || ct || !r.chance(1, 3)) break;
			return comptime(t, d);
		}
		default: break;
		}
		switch (t) {
		case I:
			switch (r.below(13)) {
			case 0: case 1: { static const char *o[] = {"+", "-", "*"}; return prim(o[r.below(3)], {expr(I, d - 1), expr(I, d - 1)}); }
			case 2: return prim("length", {expr(r.chance(1, 2) ? L : r.chance(1, 2) ? VV : S, d - 1)});
			case 3: return prim("/", {expr(I, d - 1), {std::to_string(r.range(2, 9)), false, false}});
			case 11: if (r.chance(1, 3)) { static const char *o[] = {"+", "-", "*"}; bool l = r.chance(1, 2); X b = expr(B, d - 1), i = expr(I, d - 1); return prim(o[r.below(3)], l ? std::vector<X>{b, i} : std::vector<X>{i, b}); } break;
			case 4: if (!ct) return {"(tick)", false, true}; break;
			case 5: return call("funcall", {expr(C0, d - 1)});
			case 6: return call("funcall", {expr(C1, d - 1), expr(I, d - 1)});
			case 7: if (w.host && !ct) return call(r.chance(1, 2) ? "host-call0" : "host-call1", {}), (r.chance(1, 2) ? call("host-call0", {expr(C0, d - 1)}) : call("host-call1", {expr(C1, d - 1), expr(I, d - 1)})); break;
			case 8: if (!gfns.empty() && !ct) {
				auto g = r.pick(gfns);
				std::vector<X> a;
				for (int i = 0; i < g.second; i++) a.push_back(expr(I, d - 1));
				return call(r.chance(1, 2) ? g.first : "funcall " + g.first, a);
			} break;
			case 9: if (w.strings) return prim("get-vector-element", {{"\"hello\"", false, false}, {std::to_string(r.below(5)), false, false}}); break;
			case 10: if (!ct) return call("emit", {expr(I, d - 1)}); break;
			}
			return leaf(I);
		case B:
			switch (r.below(6)) {
			case 0: { static const T ts[] = {I, I, I, I, F, B}; T x = ts[r.below(6)], y = ts[r.below(6)]; return prim(r.chance(1, 2) ? "<" : ">", {expr(x, d - 1), expr(y, d - 1)}); }
			case 1: return prim("null?", {expr(r.chance(1, 2) ? L : A, d - 1)});
			case 2: return prim("not", {expr(r.chance(1, 3) ? L : B, d - 1)});
			case 3: { T u = (T) (r.below(6)); return prim("=", {expr(u, d - 1), expr(r.chance(1, 4) ? (T) r.below(6) : u, d - 1)}); }
			case 4: { T u = r.chance(1, 2) ? L : VV; return prim("=", {expr(u, d - 1), expr(u, d - 1)}); }
			}
			return leaf(B);
		case F:
			if (r.chance(1, 2)) {
				static const char *o[] = {"+", "-", "*", "/"};
				int k = (int) r.below(4);
				X f = expr(F, d - 1), y = k == 3 ? X{"1.25", false, false} : expr(r.chance(1, 8) ? B : r.chance(1, 2) ? I : F, d - 1);
				return prim(o[k], k != 3 && r.chance(1, 2) ? std::vector<X>{y, f} : std::vector<X>{f, y});
			}
			return leaf(F);
		case S:
			switch (r.below(6)) {
			case 0: return prim("concatenate", {expr(r.chance(1, 5) ? Y : S, d - 1), expr(S, d - 1)});
			case 1: return prim("cdr", {expr(S, d - 1)});
			case 2: return prim("substring", {{"\"0123456789\"", false, false}, {std::to_string(r.below(5)), false, false}, {std::to_string(5 + r.below(6)), false, false}});
			case 3: return prim("symbol-string", {expr(Y, d - 1)});
			case 4: {
				std::vector<X> a;
				for (int i = (int) r.below(4); i > 0; i--) a.push_back(expr(I, d - 1));
				return prim("make-string", {prim(r.chance(1, 2) ? "list" : "vector", a)});
			}
			}
			return leaf(S);
		case Y: return leaf(Y);
		case L:
			switch (r.below(8)) {
			case 0: case 1: {
				std::vector<X> a;
				for (int i = (int) r.below(4); i > 0; i--) a.push_back(expr(A, d - 1));
				return prim("list", a);
			}
			case 2: case 3: return prim("cons", {expr(A, d - 1), expr(L, d - 1)});
			case 4: return prim("cdr", {expr(L, d - 1)});
			case 5: if (w.mutate) { X o = prim("set-car", {prim("cons", {expr(I, d - 1), expr(L, d - 1)}), expr(A, d - 1)}); return o; } break;
			case 6: if (r.chance(1, 3)) return prim("cons", {expr(A, d - 1), expr(A, d - 1)}); break;
			}
			return leaf(L);
		case VV:
			switch (r.below(6)) {
			case 0: case 1: {
				std::vector<X> a;
				for (int i = (int) r.below(5); i > 0; i--) a.push_back(expr(A, d - 1));
				return prim("vector", a);
			}
			case 2: return prim("make-vector", {{std::to_string(r.below(6)), false, false}, expr(A, d - 1)});
			case 3: return prim("cdr", {expr(VV, d - 1)});
			}
			return leaf(VV);
		case C0: case C1: {
			if (r.chance(1, 4)) {
				std::vector<Fn *> c;
				for (auto &f : fns) {
					if (f.variadic || f.ret != I || f.params.size() != (t == C1)) continue;
					if (t == C1 && f.params[0] != I) continue;
					bool hidden = false;
					for (auto &v : vars) hidden |= v.name == f.name;
					if (!hidden) c.push_back(&f);
				}
				if (!c.empty()) return {(r.chance(1, 2) ? "#" : "") + r.pick(c)->name, true, false};
			}
			if (r.chance(1, 8) && w.comps) return prim("make-instance", {{"(make-type)", false, false}, expr(A, d - 2), lambda(t == C1, I, d - 1)});
			if (t == C0 && w.comps && d > 0 && r.chance(1, 10)) return prim("composite-function", {expr(Q, d - 1)});
			return lambda(t == C1, I, d);
		}
		case Q: {
			if (r.chance(1, 4)) return prim("set-composite-value", {expr(Q, d - 1), expr(A, d - 1)});
			if (r.chance(1, 6)) return prim("set-composite-function", {expr(Q, d - 1), lambda((int) r.below(2), I, d - 1)});
			bool ok;
			return prim("make-instance", {{"(make-type)", false, false}, expr(A, d - 1), expr(C0, d - 1)});
		}
		default: {
			switch (r.below(9)) {
			case 0: return prim("car", {expr(r.chance(2, 3) ? L : r.chance(1, 2) ? VV : S, d - 1)});
			case 1: if (w.comps) return prim("composite-value", {expr(Q, d - 1)}); break;
			case 2: if (w.users && !ct) return {"(mkuser)", false, true}; break;
			case 3: if (!ct) return call("emit2", {expr(A, d - 1), expr(A, d - 1)}); break;
			case 4: return prim("type-of", {expr(A, d - 1)});
			case 5: if (w.comps) return r.chance(1, 2) ? expr(Q, d - 1) : prim("composite-function", {expr(Q, d - 1)}); break;
			case 6: return expr(r.chance(1, 2) ? C0 : C1, d - 1);
			}
			return expr((T) r.below(VV + 1), d - 1);
		}
		}
	}
	X useMacro(int d) {
		auto m = macs[r.below(macs.size())];
		auto no = [&] { return (m.kind > 4 && m.kind != 9) || (m.runtime && ct); };
		for (int i = 0; no() && i < 6; i++) m = macs[r.below(macs.size())];
		if (no()) return leaf(I);
		switch (m.kind) {
		case 0: return call(m.name, {expr(I, d - 1)});                       // (m x) -> (+ x k)
		case 1: return call(m.name, {expr(B, d - 1), expr(I, d - 1)});       // conditional
		case 2: {                                                           // &rest sum
			std::vector<X> a;
			for (int i = 1 + (int) r.below(3); i > 0; i--) a.push_back(expr(I, d - 1));
			X o = call(m.name, a);
			o.bare = a.size() == 1;  // it expands to its argument
			return o;
		}
		case 3: return call(m.name, {expr(I, d - 1)});                       // with a temporary
		case 9: {
			std::vector<X> a;
			for (int i = 0; i < m.arity; i++) a.push_back(expr(I, std::min(d - 1, 1)));
			X o = call(m.name, a);
			o.bare = true;  // it may expand to an argument
			return o;
		}
		default: return call(m.name, {});
		}
	}
	// Code that builds the code of `t`; names that begin with z are parameters.
	std::string quasi(const std::string &t, size_t &i, int &holes) {
		while (t[i] == ' ') i++;
		if (t[i] == '(') {
			std::vector<std::string> k;
			size_t from = i++;
			int before = holes;
			for (;;) {
				while (t[i] == ' ') i++;
				if (t[i] == ')') { i++; break; }
				if (i >= t.size()) throw std::runtime_error("unbalanced template: " + t);
				k.push_back(quasi(t, i, holes));
			}
			std::string all = t.substr(from, i - from);
			if (all.find(" z") == std::string::npos && all.find("(z") == std::string::npos && before == holes && r.chance(1, 3)) return "(quote " + all + ")";
			if (k.empty()) return r.chance(1, 2) ? "()" : "(list)";
			if (k.size() < 20 && r.chance(1, 6)) {
				std::string s = "()";
				for (size_t n = k.size(); n-- > 0;) s = "(cons " + k[n] + " " + s + ")";
				return s;
			}
			std::string s = "(list";
			for (auto &x : k) s += " " + x;
			return s + ")";
		}
		if (t[i] == '"') {
			size_t from = i++;
			while (t[i] != '"') i += t[i] == '\\' ? 2 : 1;
			i++;
			return t.substr(from, i - from);
		}
		size_t from = i;
		while (i < t.size() && t[i] != ' ' && t[i] != '(' && t[i] != ')' && t[i] != '"') i++;
		std::string a = t.substr(from, i - from);
		if (a[0] == 'z') return ++holes > 3 ? "1" : a;
		if (a == "true" || a == "false" || isdigit((unsigned char) a[0]) || (a[0] == '-' && a.size() > 1)) return a;
		return "(quote " + a + ")";
	}
	// A macro whose expansion is any expression at all.
	std::string templateMacro(const std::string &n) {
		Mac m{n, 9};
		m.arity = (int) r.below(3);
		m.runtime = r.chance(1, 2);
		auto sv = vars; auto sf = fns; auto sg = gfns;
		int ld = loopDepth, fd = fnDepth;
		bool oct = ct;
		vars.clear(); fns.clear(); gfns.clear();
		loopDepth = 0; fnDepth = 1;
		ct = !m.runtime;
		std::string p;
		for (int i = 0; i < m.arity; i++) {
			std::string z = fresh("z");
			p += (i ? " " : "") + z;
			vars.push_back({z, I});
			vars.back().frozen = true;
		}
		std::string t = r.chance(1, 2) ? "(() " + block(I, 3, 1 + (int) r.below(2)) + ")" : expr(I, 3).s;
		vars = sv; fns = sf; gfns = sg;
		loopDepth = ld; fnDepth = fd;
		ct = oct;
		size_t i = 0;
		int holes = 0;
		std::string b = quasi(t, i, holes);
		macs.push_back(m);
		return "(defmacro " + n + " (" + p + ") " + b + ")";
	}
	X comptime(T t, int d) {
		// Compile-time code sees only what is defined at compile time.
		auto sv = vars; auto sf = fns; auto sm = macs;
		vars.clear(); fns.clear();
		ct = true;
		std::string s;
		T u = t == A ? (T) r.below(S + 1) : t;
		if (u == Y || u == L) u = I;
		switch (r.below(4)) {
		case 0: s = "(emit " + expr(u, std::min(d - 1, 2)).s + ")"; break;
		case 1: s = "(() " + block(u, std::min(d, 3), 1) + ")"; break;
		case 2: if (u == I && !cglobals.empty()) { s = "(setq " + r.pick(cglobals) + " (+ " + r.pick(cglobals) + " 1))"; break; }
		// fall through
		default: s = expr(u, std::min(d - 1, 2)).s;
		}
		if (t == L && r.chance(1, 2)) s = "(list " + s + " " + lit(I) + ")";
		else if (t == L) s = "()";
		ct = false;
		vars = sv; fns = sf; macs = sm;
		if (t == Y) return leaf(Y);
		return {"(comptime " + s + ")", false, false};
	}
	std::vector<std::string> cglobals;
	std::string defmacro() {
		std::string n = fresh("m");
		if (r.chance(1, 3)) return templateMacro(n);
		int k = (int) r.below(9);
		std::string body, ev = r.chance(1, 3) ? "(emit (list (quote " + n + ") " : "", ee = ev.empty() ? "" : "))";
		switch (k) {
		case 0: body = "(x) (list (quote +) x " + lit(I) + ")"; if (!ev.empty()) body = "(x) " + ev + "x" + ee + " (list (quote +) x " + lit(I) + ")"; break;
		case 1: body = "(c x) (list (quote if) c x (list (quote -) x 1))"; break;
		case 2: body = "(x &rest xs) (if (null? xs) x (list (quote +) x (cons (quote " + n + "0) xs)))"; body = "(x &rest xs) (() (var acc x) (while (not (null? xs)) (setq acc (list (quote +) acc (car xs))) (setq xs (cdr xs))) acc)"; break;
		case 5: body = "(a b x) (list (quote noscope) (list (quote var) a x) (list (quote var) b (list (quote list) a " + lit(I) + ")))"; break;
		case 6: body = "(f x) (list (quote defun) f (list (quote p)) (list (quote +) x (quote p)))"; break;
		case 7: body = "(x &rest xs) (if (null? xs) x (list (quote +) x (cons (quote " + n + ") xs)))"; k = 2; break;
		case 8: {
			bool any = false;
			for (auto &m : macs) if (m.kind == 0) { body = "(x) (list (quote " + m.name + ") (list (quote " + m.name + ") x))"; any = true; }
			if (!any) body = "(x) (list (quote -) x " + lit(I) + ")";
			k = 0;
			break;
		}
		case 3: body = "(x) (() (var g (gensym)) (list (list) (list (quote var) g x) (list (quote +) g g)))"; break;
		default:
			if (cglobals.empty()) { k = 0; body = "(x) (list (quote *) x 2)"; }
			else body = "() (setq " + r.pick(cglobals) + " (+ 1 " + r.pick(cglobals) + "))";
		}
		macs.push_back({n, k});
		return "(defmacro " + n + " " + body + ")";
	}
	std::string defun(int d) {
		std::string n = fresh("f");
		std::vector<T> ps;
		size_t nv = vars.size(), nf = fns.size(), nm = macs.size();
		std::string p;
		int np = (int) r.below(4);
		if (r.chance(1, 5)) {  // recursion with a bound
			std::string a = fresh("n");
			std::string other = fresh("p");
			vars.push_back({a, I, true});
			vars.push_back({other, A});
			std::string base = expr(I, 2).s;
			std::string st = r.chance(1, 2) ? stmt(2) : "";
			vars.resize(nv); fns.resize(nf); macs.resize(nm);
			fns.push_back({n + "w", {A}, false, I});
			std::string s = "(defun " + n + " (" + a + " " + other + ") (if (< " + a + " 1) " + base + " (() " + st + " (+ 1 (self (- " + a + " 1) (cons " + a + " (list " + other + ")))))))";
			s += " (defun " + n + "w (z) (" + n + " " + std::to_string(2 + r.below(12)) + " z))";
			return s;
		}
		for (int i = 0; i < np; i++) {
			static const T ts[] = {I, I, L, A, VV, S};
			T t = ts[r.below(6)];
			std::string v = fresh("p");
			p += (i ? " " : "") + v;
			ps.push_back(t);
			vars.push_back({v, t});
		}
		bool va = r.chance(1, 6);
		if (va) { std::string v = fresh("r"); p += std::string(np ? " " : "") + "&rest " + v; vars.push_back({v, L}); }
		static const T rs[] = {I, I, L, C0, C1, VV, S, B};
		T ret = rs[r.below(8)];
		int ld = loopDepth;
		loopDepth = 0;
		fnDepth++;
		std::string b = block(ret, d, (int) r.below(4));
		fnDepth--;
		loopDepth = ld;
		vars.resize(nv); fns.resize(nf); macs.resize(nm);
		fns.push_back({n, ps, va, ret});
		return "(defun " + n + " (" + p + ") " + b + ")";
	}
	std::string stmt(int d) {
		if (d <= 0 || budget < 0) return ct ? "0" : "(emit " + leaf(A).s + ")";
		budget--;
		if (ct) {
			if (r.chance(1, 2)) return "(emit " + expr(A, 2).s + ")";
			std::string n = fresh("v");
			T t = r.chance(1, 2) ? I : L;
			std::string s = "(var " + n + " " + expr(t, 2).s + ")";
			vars.push_back({n, t});
			return s;
		}
		if (w.errors && r.chance(w.errors, 100)) return errorStmt(d);
		if (w.longText && w.calls && !inMacro && r.chance(1, 40)) return many(d);
		if (w.wild && r.chance(w.wild, 40)) return r.chance(1, 3) ? edge() : wild();
		for (int tries = 0; tries < 4; tries++) switch (r.below(29)) {
		case 0: case 1: case 2: {
			static const T ts[] = {I, I, L, VV, C0, C1, S, A, B, F, Q};
			T t = ts[r.below(11)];
			if (t == Q && !w.comps) t = I;
			std::string n = fresh("v");
			if (r.chance(1, 12) && !vars.empty() && !vars.back().frozen) n = vars.back().name;  // shadows or redeclares
			else if (!fns.empty() && r.chance(1, 25)) n = r.pick(fns).name;
			std::string s = "(var " + n + " " + expr(t, d).s + ")";
			vars.push_back({n, t});
			if (vars.size() > 1) for (size_t i = 0; i + 1 < vars.size(); i++) if (vars[i].name == n) vars[i].name = n, vars[i].t = t;
			return s;
		}
		case 3: case 4: return "(emit " + expr(A, d).s + ")";
		case 5: case 6: {
			static const T ts[] = {I, L, VV, C0, C1, S, A, Q};
			T t = ts[r.below(8)];
			if (w.mutate && !fns.empty() && r.chance(1, 8)) {
				// A function gets another body, that of course must not call it or what calls it.
				std::vector<Fn> old = fns;
				size_t i = r.below(fns.size());
				if (fns[i].variadic || fns[i].params.size() > 1 || (!fns[i].params.empty() && fns[i].params[0] != I)) break;
				fns.resize(i);
				std::string s = "(setq " + old[i].name + " " + lambda((int) old[i].params.size(), old[i].ret, d).s + ")";
				fns = old;
				return s;
			}
			bool ok;
			std::string v = randVar(t, true, &ok);
			if (!ok || !w.mutate) break;
			return "(setq " + v + " " + expr(t, d).s + ")";
		}
		case 7: case 8: {  // globals
			static const T ts[] = {I, L, VV, C0, C1, S, A, Q};
			T t = ts[r.below(8)];
			if (gpool.empty()) break;
			std::string g = gpool[r.below(gpool.size())];
			// A global keeps its type, so that later scripts know what to expect.
			for (auto &x : globals) if (x.first == g) t = x.second;
			std::string s = "(" + std::string(r.chance(2, 3) ? "global " : "setq ") + g + " " + expr(t, d).s + ")";
			if (fnDepth == 0 && loopDepth == 0 && condDepth == 0) noteGlobal(g, t);
			else { bool known = false; for (auto &x : globals) known |= x.first == g; if (!known) break; }
			return s;
		}
		case 9: if (w.loops && loopDepth < 2) {
			std::string i = fresh("i");
			size_t nv = vars.size(), nf = fns.size(), nm = macs.size();
			int n = 1 + (int) r.below(loopDepth ? 3 : 6);
			vars.push_back({i, I, true});
			loopDepth++;
			std::string b;
			for (int k = 1 + (int) r.below(3); k > 0; k--) b += stmt(d - 1) + " ";
			loopDepth--;
			vars.resize(nv); fns.resize(nf); macs.resize(nm);
			return "(() (var " + i + " 0) (while (< " + i + " " + std::to_string(n) + ") " + b + "(setq " + i + " (+ " + i + " 1))))";
		} break;
		case 10: {
			size_t nv = vars.size(), nf = fns.size(), nm = macs.size();
			if (w.loops && r.chance(1, 10)) {
				static const char *c[] = {"false", "0", "0.0", "()", "()"};  // the empty string is false only where a branch is selected while compiling
				condDepth++;
				std::string b = stmt(d - 1);
				condDepth--;
				vars.resize(nv); fns.resize(nf); macs.resize(nm);
				const char *k = c[r.below(5)];
				if (w.errors && fnDepth == 0 && r.chance(1, 12)) {
					std::string i = fresh("i");
					return "(() (var " + i + " 0) (" + head("while") + " " + (r.chance(1, 2) ? "true" : "1") + " (setq " + i + " (+ " + i + " 1)) (emit " + i + ") (/ 6 (- 4 " + i + "))))";
				}
				return "(" + head("while") + " " + k + " " + b + ")";
			}
			condDepth++;
			std::string c = cond(d - 1).s, b;
			for (int k = 1 + (int) r.below(2); k > 0; k--) b += " (() " + stmt(d - 1) + ")", vars.resize(nv), fns.resize(nf), macs.resize(nm);
			condDepth--;
			return "(" + head(r.chance(1, 2) ? "when" : "unless") + " " + c + b + ")";
		}
		case 11: case 12: {
			if (!w.calls || fnDepth > 1 || (loopDepth && r.chance(2, 3))) break;
			return defun(d);
		}
		case 13: if (w.macros && !inMacro && r.chance(std::min(w.macros, 4), 4)) {
			if (r.chance(1, 3) && fnDepth == 0) {
				std::string n = "cg" + std::to_string(r.below(3));
				if (std::find(cglobals.begin(), cglobals.end(), n) == cglobals.end()) cglobals.push_back(n);
				return "(comptime (() (global " + n + " " + lit(I) + ") 0))";
			}
			return defmacro();
		} break;
		case 14: if (w.mutate) {
			switch (r.below(4)) {
			case 0: return prim("set-car", {prim("cons", {expr(A, d - 1), expr(L, d - 1)}), expr(A, d - 1)}).s;
			case 1: { bool ok; std::string v = randVar(L, false, &ok); if (!ok) break; return "(unless (null? " + v + ") " + prim("set-car", {{v, true, false}, expr(A, d - 1)}).s + " " + (r.chance(1, 3) ? prim("set-cdr", {{v, true, false}, expr(L, d - 1)}).s : std::string("0")) + ")"; }
			case 2: { bool ok; std::string v = randVar(VV, false, &ok); if (!ok) break; return "(unless (null? " + v + ") " + prim("set-vector-element", {{v, true, false}, {"(- (length " + v + ") 1)", false, false}, expr(A, d - 1)}).s + ")"; }
			default: { bool ok; std::string v = randVar(Q, false, &ok); if (!ok) break; return prim("set-composite-value", {{v, true, false}, expr(A, d - 1)}).s; }
			}
		} break;
		case 15: if (w.gcs && r.chance(1, 2)) return "(host-gc)"; break;
		case 16: if (w.closures) {  // a closure with a counter shared by two closures
			std::string c = fresh("c"), v = fresh("v");
			vars.push_back({v, I});
			std::string s = "(var " + v + " " + leaf(I).s + ") (var " + c + " (lambda () (setq " + v + " (+ " + v + " 1))))";
			vars.push_back({c, C0});
			return s;
		} break;
		case 17: if (w.closures && loopDepth == 0 && !gpool.empty() && fnDepth == 0 && condDepth == 0) {
			std::string g = "h" + std::to_string(r.below(3));
			int ar = (int) r.below(3);
			std::string s = "(global " + g + " " + lambda(ar, I, d).s + ")";
			for (size_t i = 0; i < gfns.size(); i++) if (gfns[i].first == g) { gfns.erase(gfns.begin() + i); break; }
			gfns.push_back({g, ar});
			return s;
		} break;
		case 18: if (w.users && r.chance(1, 2)) {
			std::string n = fresh("v");
			vars.push_back({n, A});
			return "(var " + n + " (mkuser))";
		} break;
		case 20: if (w.closures && w.comps && w.mutate) {
			// A callable that replaces itself while it runs.
			std::string q = fresh("q"), v = fresh("v"), a = fresh("p");
			std::string s = "(var " + v + " " + leaf(I).s + ") (var " + q + " (make-instance (make-type) " + leaf(A).s + " 0)) ";
			vars.push_back({v, I});
			size_t nv = vars.size();
			int ld = loopDepth;
			vars.push_back({a, I});
			fnDepth++; loopDepth = 0;
			std::string nf = lambda(1, I, d - 1).s;
			std::string b = r.chance(1, 2) ? stmt(d - 1) + " " : "";
			vars.resize(nv);
			fnDepth--; loopDepth = ld;
			s += "(set-composite-function " + q + " (lambda (" + a + ") (set-composite-function " + q + " " + nf + ") " + (r.chance(1, 2) ? "(host-gc) " : "") + b + "(setq " + v + " (+ " + v + " " + a + ")) (list " + v + " " + a + ") " + v + "))";
			for (int k = 1 + (int) r.below(3); k > 0; k--) s += " (emit " + call(r.chance(1, 3) && w.host ? "host-call1" : "funcall", {{q, true, false}, expr(I, d - 1)}).s + ")";
			return s;
		} break;
		case 21: case 22: if (w.closures && fnDepth < 2) return chain(d); break;
		case 23: if (w.vectors && w.mutate) return slices(d); break;
		case 24: {  // declarations that belong to the surrounding scope
			std::string a = fresh("v"), b = fresh("v");
			std::string s = "(noscope (var " + a + " " + expr(I, d - 1).s + ") ";
			if (r.chance(1, 2)) { s += stmt(d - 1) + " "; }
			T t = r.chance(1, 2) ? I : L;
			s += "(var " + b + " " + expr(t, d - 1).s + "))";
			vars.push_back({a, I});
			vars.push_back({b, t});
			return s;
		}
		case 25: if (w.host) {  // callbacks are values
			if (!ct && r.chance(1, 3)) return "(emit (host-ops \"" + genOps(r, 1 + (int) r.below(7)) + "\" " + expr(r.chance(1, 2) ? A : r.chance(1, 2) ? L : VV, d - 1).s + "))";
			std::string n = fresh("v");
			static const char *c0[] = {"tick", "host-gc"};
			if (r.chance(1, 3)) return "(emit (funcall " + std::string(c0[r.below(2)]) + "))";
			if (r.chance(1, 2)) {
				std::string s = "(var " + n + " emit) (funcall " + n + " " + expr(A, d - 1).s + ")";
				vars.push_back({n, C1});
				return s;
			}
			std::string s = "(var " + n + " tick) (emit (funcall " + n + "))";
			vars.push_back({n, C0});
			return s;
		} break;
		case 26: if (w.calls && r.chance(1, 2)) {  // deep recursion; many arguments; big vectors
			switch (r.below(6)) {
			case 5: if (w.longText && !inMacro) return many(d); break;
			case 0: {
				std::string f = fresh("f"), a = fresh("n"), b = fresh("p"), x = randIntVar();
				return "(defun " + f + " (" + a + " " + b + ") (if (< " + a + " 1) " + x + " (+ 1 (self (- " + a + " 1) (cons " + a + " " + b + "))))) (emit (" + f + " " + std::to_string(30 + r.below(150)) + " ()))";
			}
			case 1: {
				if (w.longText && !inMacro && r.chance(1, 2)) return many(d);
				std::string f = fresh("f"), s, c, l;
				size_t last = 0;
				int n = 4 + (int) r.below(r.chance(1, 4) ? 40 : 9), va = r.chance(1, 2);
				for (int i = 0; i < n; i++) { std::string q = fresh("p"); if (i == n - 1 && va) s += " &rest"; s += " " + q; l += " " + q; last = c.size(); c += " " + expr(A, i < 3 ? d - 1 : 1).s; }
				if (va) for (int i = (int) r.below(20); i > 0; i--) { last = c.size(); c += " " + lit(I); }
				if (va && r.chance(1, 8)) c = c.substr(0, last);
				return "(defun " + f + " (" + s.substr(1) + ") (list" + l + ")) (emit (" + f + " " + c + "))";
			}
			case 2: {
				std::string v = fresh("v"), s = "(var " + v + " (vector";
				int n = r.chance(1, 2) ? 20 : 250 + (int) r.below(20);
				for (int i = 0; i < n; i++) s += " " + std::to_string(i);
				s += ")) (set-vector-element " + v + " " + std::to_string(r.below(n)) + " " + expr(A, d - 1).s + ") (emit (get-vector-element " + v + " " + std::to_string(r.below(n)) + ")) (emit (length " + v + "))";
				vars.push_back({v, VV});
				return s;
			}
			case 3: {
				std::string v = fresh("v"), i = fresh("i");
				std::string s = "(var " + v + " ()) (() (var " + i + " 0) (while (< " + i + " " + std::to_string(10 + r.below(60)) + ") (setq " + v + " (cons (list " + i + " " + leaf(A).s + ") " + v + ")) (setq " + i + " (+ " + i + " 1)))) (emit (length " + v + "))";
				if (loopDepth || fnDepth) break;
				vars.push_back({v, L});
				return s;
			}
			default: {
				std::string v = fresh("v");
				std::string s = "(var " + v + " (make-string (make-vector " + std::to_string(1 + r.below(300)) + " " + std::to_string(33 + r.below(90)) + "))) (emit (length (concatenate " + v + " " + v + ")))";
				vars.push_back({v, S});
				return s;
			}
			}
		} break;
		case 27: if (w.macros && !macs.empty() && !inMacro) {
			for (auto &m : macs) if (m.kind == 5) {
				std::string a = fresh("v"), b = fresh("v");
				std::string s = "(" + m.name + " " + a + " " + b + " " + expr(I, d - 1).s + ")";
				vars.push_back({a, I}); vars.push_back({b, L});
				return s;
			}
			else if (m.kind == 6) {
				std::string f = fresh("f");
				std::string s = "(" + m.name + " " + f + " " + expr(I, d - 1).s + ")";
				fns.push_back({f, {I}, false, I});
				return s;
			}
		} break;
		case 28: if (w.wide && !inMacro && fnDepth < 2) return farJump(d); break;
		case 19: if (w.closures && loopDepth == 0) {  // closures made in a loop
			std::string l = fresh("v"), i = fresh("i"), x = fresh("x");
			vars.push_back({l, L});
			return "(var " + l + " ()) (() (var " + i + " 0) (while (< " + i + " " + std::to_string(2 + r.below(3)) + ") (var " + x + " (* " + i + " 10)) (setq " + l +
			       " (cons (lambda () (setq " + x + " (+ " + x + " 1))) " + l + ")) (setq " + i + " (+ " + i + " 1)))) (emit (funcall (car " + l + "))) (emit (funcall (car " + l + ")))"
			       " (emit (funcall (car (cdr " + l + "))))";
		} break;
		}
		return "(emit " + expr(A, d).s + ")";
	}
	std::string randIntVar() { bool ok; std::string v = randVar(I, false, &ok); return ok ? v : lit(I); }
	// Jumps over code of about the lengths where their encoding changes.
	std::string farJump(int d) {
		std::string x = fresh("x"), i = fresh("i"), body;
		int n = r.chance(1, w.wide > 3 ? 60 : 400) ? 3000 + (int) r.below(3000) : (int) r.below(r.chance(1, 4) ? 300 : 70);
		int m = (int) r.below(4);
		static const char *fill[] = {" (setq X (+ X 1))", " 5", " X", " (() X)", " (setq X 3)", " (() (var Y 4) (setq X Y))"};
		bool mixed = r.chance(1, 2);
		int f = (int) r.below(6);
		for (int k = 0; k < n; k++) {
			std::string t = fill[mixed ? r.below(6) : f];
			size_t q;
			while ((q = t.find('X')) != std::string::npos) t.replace(q, 1, x);
			if ((q = t.find('Y')) != std::string::npos) { std::string y = fresh("y"); while ((q = t.find('Y')) != std::string::npos) t.replace(q, 1, y); }
			body += t;
		}
		std::string s = "(var " + x + " " + lit(I) + ") ";
		vars.push_back({x, I});
		std::string c = "(" + std::string(r.chance(1, 2) ? "<" : "=") + " " + x + " " + lit(I) + ")";
		switch (m) {
		case 0: s += "(emit (if " + c + " (()" + body + " " + x + ") " + lit(I) + "))"; break;
		case 1: s += "(emit (if " + c + " " + lit(I) + " (()" + body + " " + x + ")))"; break;
		case 2: s += std::string(r.chance(1, 2) ? "(when " : "(unless ") + c + body + " (emit " + x + "))"; break;
		default: s += "(() (var " + i + " 0) (while (< " + i + " " + std::to_string(1 + r.below(3)) + ")" + body + " (setq " + i + " (+ " + i + " 1)) (emit " + x + ")))"; break;
		}
		(void) d;
		return s;
	}
	// Functions inside functions, where only the innermost ones use the variables of the outermost ones.
	std::string chain(int d) {
		struct L1 { std::string pre, post, param; };
		std::string v = fresh("v"), w2 = fresh("v"), c = fresh("c");
		std::string s = "(var " + v + " " + leaf(I).s + ") (var " + w2 + " " + lit(I) + ") ";
		std::vector<std::string> cand = {v, v, w2};
		bool ok;
		std::string o = randVar(I, true, &ok);
		if (ok) cand.push_back(o);
		int k = 1 + (int) r.below(5);
		std::string open, close;
		std::vector<std::string> params;
		for (int j = 0; j < k; j++) {
			std::string p = r.chance(1, 3) ? fresh("p") : "";
			params.push_back(p);
			open += "(lambda (" + p + ") ";
			if (!p.empty()) cand.push_back(p);
			if (r.chance(1, 4)) { std::string x = fresh("x"); open += "(var " + x + " " + (r.chance(1, 2) ? "(+ " + r.pick(cand) + " 1)" : lit(I)) + ") "; cand.push_back(x); }
			if (r.chance(1, 5)) { std::string x = r.pick(cand); open += "(setq " + x + " (* " + x + " 2)) "; }
			if (r.chance(1, 6)) open += "(host-gc) ";
			if (r.chance(1, 6)) open += "(() (var " + fresh("x") + " (lambda () (setq " + r.pick(cand) + " " + lit(I) + "))) ";
			else { close = ")" + close; continue; }
			close = "))" + close;
		}
		std::string body;
		for (int i = 1 + (int) r.below(3); i > 0; i--) { std::string x = r.pick(cand); body += "(setq " + x + " (+ " + x + " " + (r.chance(1, 2) ? r.pick(cand) : std::to_string(r.below(9))) + ")) "; }
		if (r.chance(1, 4)) body += "(host-gc) ";
		std::string fin = "(lambda () " + body + r.pick(cand) + ")";
		if (r.chance(1, 4)) { std::string f = fresh("f"); fin = "(() (defun " + f + " () " + body + r.pick(cand) + ") #" + f + ")"; }
		s += "(var " + c + " " + open + fin + close + ") ";
		auto apply = [&](std::string f, int from, int to) {
			for (int j = from; j < to; j++) f = "(funcall " + f + (params[j].empty() ? "" : " " + lit(I)) + ")";
			return f;
		};
		int cut = (int) r.below(k + 1);
		std::string m = fresh("c"), e1 = fresh("c"), e2 = fresh("c");
		s += "(var " + m + " " + apply(c, 0, cut) + ") ";
		if (r.chance(1, 3)) s += "(setq " + c + " 0) ";
		s += "(var " + e1 + " " + apply(m, cut, k) + ") (var " + e2 + " " + apply(m, cut, k) + ") ";
		if (r.chance(1, 3)) s += "(setq " + m + " 0) ";
		for (int i = 1 + (int) r.below(4); i > 0; i--) {
			static const char *f[] = {"funcall ", "funcall ", "host-call0 "};
			s += "(emit (" + std::string(f[this->w.host ? r.below(3) : 0]) + (r.chance(1, 2) ? e1 : e2) + ")) ";
			if (r.chance(1, 3)) s += "(emit " + v + ") ";
			if (r.chance(1, 4)) s += "(setq " + v + " " + lit(I) + ") ";
		}
		s += "(emit " + w2 + ")";
		vars.push_back({v, I}); vars.push_back({w2, I}); vars.push_back({e1, C0}); vars.push_back({e2, C0});
		(void) d;
		return s;
	}
	// Several views of one vector, one string or one list, changed through each other.
	std::string slices(int d) {
		std::string v = fresh("v");
		int n = 2 + (int) r.below(7);
		int kind = (int) r.below(5);  // mostly vectors
		std::string s = "(var " + v + " ";
		if (kind == 4) { s += "\""; for (int i = 0; i < n; i++) s += (char) ('a' + r.below(26)); s += "\")"; }
		else { s += kind == 3 ? "(list" : "(vector"; for (int i = 0; i < n; i++) s += " " + (r.chance(1, 3) ? lit(L) : lit(I)); s += ")"; if (kind != 3 && r.chance(1, 6)) { s.clear(); s = "(var " + v + " (make-vector " + std::to_string(n) + " " + lit(I) + ")"; } s += ")"; }
		std::vector<std::pair<std::string, int>> views = {{v, 0}};
		for (int i = 1 + (int) r.below(3); i > 0; i--) {
			auto b = r.pick(views);
			int k = 1 + (int) r.below(3);
			std::string x = fresh("v"), e = b.first;
			for (int j = 0; j < k; j++) e = "(cdr " + e + ")";
			s += " (var " + x + " " + e + ")";
			views.push_back({x, b.second + k});
		}
		T t = kind == 4 ? S : kind == 3 ? L : VV;
		for (int i = 2 + (int) r.below(5); i > 0; i--) {
			auto b = r.pick(views);
			int left = n - b.second;
			std::string e;
			if (left <= 0) { s += " (emit (list " + b.first + " (null? " + b.first + ") (length " + b.first + ")))"; continue; }
			switch (kind == 4 ? 5 + r.below(5) : r.below(kind == 3 ? 5 : 7)) {
			case 0: e = "(set-car " + b.first + " " + expr(A, d - 1).s + ")"; break;
			case 1: e = kind == 3 ? "(set-cdr " + b.first + " " + expr(r.chance(1, 2) ? L : A, d - 1).s + ")" : r.chance(1, 3) ? "(set-cdr " + b.first + " " + (r.chance(1, 2) ? "()" : "(vector)") + ")" : "(car " + b.first + ")"; if (e[1] == 's') { s += " (emit " + e + ")"; i = 0; continue; } break;
			case 2: e = "(car " + b.first + ")"; break;
			case 3: e = "(length " + b.first + ")"; break;
			case 4: e = "(= " + b.first + " " + r.pick(views).first + ")"; break;
			case 5: e = "(get-vector-element " + b.first + " " + std::to_string(r.below(left)) + ")"; break;
			case 6: if (kind == 4) { e = "(concatenate " + b.first + " " + r.pick(views).first + ")"; break; } e = "(set-vector-element " + b.first + " " + std::to_string(r.below(left)) + " " + expr(A, d - 1).s + ")"; break;
			case 7: { int a = (int) r.below(left + 1), z = a + (int) r.below(left - a + 1); e = "(substring " + b.first + " " + std::to_string(a) + " " + std::to_string(z) + ")"; break; }
			case 8: e = "(list (car " + b.first + ") (length " + b.first + "))"; break;
			default: e = "(= " + b.first + " (concatenate " + b.first + " \"\"))"; break;
			}
			if (r.chance(1, 3)) { std::string x = fresh("v"); s += " (var " + x + " " + e + ") (emit " + x + ")"; }
			else s += " (emit " + e + ")";
			if (r.chance(1, 6) && w.gcs) s += " (host-gc)";
		}
		for (auto &b : views) { s += " (emit " + b.first + ")"; vars.push_back({b.first, t}); }
		return s;
	}
	int condDepth = 0;
	void noteGlobal(const std::string &g, T t) {
		for (auto &x : globals) if (x.first == g) { x.second = t; return; }
		globals.push_back({g, t});
	}
	// Operations whose operands may be of any kind; in most cases the last one fails.
	std::string wild() {
		static const char *operands[] = {"0", "1", "2", "-1", "3", "1.5", "true", "false", "\"\"", "\"hello\"", "(quote foo)", "()", "(list 1 2 3)", "(list (list 1) 2)", "(cons 1 2)", "(cons 1 (cons 2 3))", "(vector)", "(vector 1 2 3)",
		    "(cdr (vector 1 2 3))", "(cdr \"hello\")", "(vector 65 66)", "(list 65 66)", "(make-type)", "(make-instance (make-type) 1 (lambda (x) x))", "(make-instance (make-type) (list 1) 2)", "(lambda () 5)", "(lambda (x) x)", "(lambda (x &rest y) y)", "emit"};
		static const struct { const char *op; int n; } ops[] = {{"car", 1}, {"cdr", 1}, {"set-car", 2}, {"set-cdr", 2}, {"null?", 1}, {"cons", 2}, {"length", 1}, {"get-vector-element", 2}, {"set-vector-element", 3}, {"make-vector", 2},
		    {"concatenate", 2}, {"substring", 3}, {"make-string", 1}, {"symbol-string", 1}, {"symbol-id", 1}, {"type-of", 1}, {"composite-value", 1}, {"composite-function", 1}, {"set-composite-value", 2}, {"set-composite-function", 2},
		    {"make-instance", 3}, {"+", 2}, {"-", 2}, {"*", 2}, {"/", 2}, {"=", 2}, {"<", 2}, {">", 2}, {"not", 1}, {"funcall", 1}, {"funcall", 2}, {"funcall", 3}, {"apply", 2}, {"apply", 3}, {"host-call0", 1}, {"host-call1", 2}, {"emit", 1}, {"emit2", 2}};
		std::string s = "(()";
		int n = 1 + (int) r.below(4);
		for (int i = 0; i < n; i++) {
			auto &o = ops[r.below(sizeof ops / sizeof *ops)];
			std::string f = "(" + std::string(o.op);
			if (!w.host && (f == "(host-call0" || f == "(host-call1")) f = o.n == 1 ? "(emit" : "(emit2";
			std::vector<std::string> names;
			for (int k = 0; k < o.n; k++) {
				std::string x = operands[r.below(sizeof operands / sizeof *operands)];
				// Callbacks don't check how many arguments there are.
				if (x == "emit" && k == 0 && o.n != 2) x = "(lambda () 5)";
				if (r.chance(1, 2)) { f += " " + x; continue; }
				names.push_back(fresh("w"));
				s += " (var " + names.back() + " " + x + ")";
				f += " " + names.back();
			}
			f += ")";
			if (r.chance(1, 8)) { s += " (var " + fresh("w") + " " + f + ")"; }
			else s += r.chance(1, 4) ? " " + f : " (emit " + f + ")";
			for (auto &x : names) s += " (emit " + x + ")";
		}
		return s + ")";
	}
	// An operation on a part of a container, near and past the bounds of the part and of the whole.
	std::string edge() {
		int kind = (int) r.below(3), n = 1 + (int) r.below(6), k = (int) r.below(n + 1);
		std::string v = fresh("v"), u = fresh("u");
		std::string s = "(() (var " + v + " ";
		if (kind == 0) { s += '"'; for (int i = 0; i < n; i++) s += (char) ('a' + i); s += '"'; }
		else { s += kind == 1 ? "(vector" : "(list"; for (int i = 0; i < n; i++) s += " " + std::to_string(10 + i); s += ")"; }
		std::string part = v;
		if (kind == 0 && r.chance(1, 4)) { int z = k + (int) r.below(n - k + 1); part = "(substring " + v + " " + std::to_string(k) + " " + std::to_string(z) + ")"; }
		else for (int i = 0; i < k; i++) part = "(cdr " + part + ")";
		s += ") (var " + u + " " + part + ")";
		auto at = [&]() { int c[] = {-1, 0, 1, n - k - 1, n - k, n - k + 1, n - 1, n, n + 1}; return std::to_string(c[r.below(9)]); };
		for (int i = 1 + (int) r.below(3); i > 0; i--) {
			std::string f;
			switch (r.below(kind == 0 ? 8 : 7)) {
			case 0: f = "(get-vector-element " + u + " " + at() + ")"; break;
			case 1: f = kind ? "(set-vector-element " + u + " " + at() + " 99)" : "(substring " + u + " " + at() + " " + at() + ")"; break;
			case 2: f = "(car " + u + ")"; break;
			case 3: f = "(length (cdr " + u + "))"; break;
			case 4: f = "(set-car " + u + " 98)"; break;
			case 5: f = r.chance(1, 2) ? "(set-cdr " + u + " " + v + ")" : "(set-cdr " + u + " (cdr " + v + "))"; if (kind == 2) f = "(list (length " + u + ") (car " + v + "))"; break;
			case 6: f = "(concatenate " + u + " " + v + ")"; break;
			default: f = "(substring " + u + " 0 " + at() + ")"; break;
			}
			s += " (emit " + f + ") (emit " + u + ") (emit " + v + ")";
		}
		return s + ")";
	}
	// Counts at the bounds of what an instruction can hold: arguments, parameters, captured variables.
	std::string many(int d) {
		size_t n = r.chance(1, 3) ? 100 + r.below(150) : r.chance(1, 4) ? 250 + r.below(60) : 248 + r.below(8);
		auto seq = [&](const std::string &p, size_t k) { std::string s; for (size_t i = 0; i < k; i++) s += " " + p + std::to_string(i); return s; };
		auto args = [&](size_t k) { size_t at = r.below(k + 1); std::string s; for (size_t i = 0; i < k; i++) s += " " + (i == at ? expr(A, d - 1).s : std::to_string(i)); return s; };
		std::string p = fresh("q") + "x", f = fresh("f"), l = fresh("l");
		switch (r.below(7)) {
		case 0: return "(() (defun " + f + " (" + seq(p, n).substr(1) + ") (list " + p + "0 " + p + std::to_string(n - 1) + ")) (emit (" + f + args(r.chance(1, 12) ? n - 1 : n) + ")))";
		case 1: return "(() (defun " + f + " (" + p + " &rest " + l + ") (list " + p + " (length " + l + ") (car " + l + "))) (emit (" + (r.chance(1, 2) ? f : "funcall " + f) + args(n) + ")))";
		case 2: {  // a list that is longer than calls can be is fine
			size_t k = r.below(3);
			return "(() (var " + l + " (list" + args(n) + ")) (emit (apply (lambda (" + p + " &rest " + f + ") (list " + p + " (length " + f + "))) " + seq("", k) + " " + l + ")))";
		}
		case 3: return "(() (var " + l + " (list" + args(n) + ")) (defun " + f + " (" + seq(p, n).substr(1) + ") (list " + p + "0 " + p + std::to_string(n - 1) + ")) (emit (apply " + f + " " + l + ")))";
		case 4: {  // captured variables
			std::string s = "(() (var " + l + " 0)";
			for (size_t i = 0; i < n; i++) s += " (var " + p + std::to_string(i) + " " + std::to_string(i) + ")";
			std::string a = p + std::to_string(r.below(n)), b = p + std::to_string(n - 1);
			s += " (var " + f + " (lambda (" + l + ") (setq " + a + " (+ " + a + " " + l + "))" + (r.chance(1, 2) ? " (host-gc)" : "") + " (list " + seq(p, n).substr(1) + ")))";
			s += " (emit (funcall " + f + " 5)) (setq " + b + " " + expr(A, d - 1).s + ") (emit (length (funcall " + f + " 7))) (emit " + a + ") (emit (funcall (lambda () (list " + a + " " + b + "))))";
			return s + ")";
		}
		case 5: {
			if (!w.macros) break;
			return "(() (defmacro " + f + " (&rest " + l + ") (cons (quote list) " + l + ")) (emit (" + f + args(n) + ")))";
		}
		default: {
			return "(() (var " + l + " (vector" + args(n) + ")) (set-vector-element " + l + " " + std::to_string(n - 1) + " " + l + ") (emit (get-vector-element (cdr " + l + ") " + std::to_string(r.below(n)) + ")) (emit (length (cdr (list" + args(n) + ")))))";
		}
		}
		return "(emit " + leaf(A).s + ")";
	}
	// The program asks for the compilation to fail, itself or through a macro that doesn't like its argument.
	std::string compileError(int d) {
		if (r.chance(1, 3)) return "(__error \"sorry\")";
		if (r.chance(1, 3)) return r.chance(1, 2) ? "(if " + lit(B) + " (__error \"sorry\") " + expr(I, d - 1).s + ")" : "(unless " + lit(B) + " " + stmt(d - 1) + " (__error \"sorry\"))";
		std::string m = fresh("m"), x = fresh("x"), y = fresh("y"), c = r.chance(1, 2) ? "(= (type-of " + x + ") (type-of 1))" : "(null? " + x + ")";
		std::string s = "(() (defmacro " + m + " (" + x + (r.chance(1, 2) ? " &rest " + y : "") + ") ";
		if (r.chance(1, 2)) s += "(emit " + x + ") ";
		s += "(if " + c + " (list (quote __error) \"sorry\") (list (quote quote) " + x + "))) (emit (" + m + " foo))";
		if (r.chance(1, 2)) s += " " + stmt(d - 1);
		s += r.chance(1, 2) ? " (emit (" + m + " " + lit(r.chance(1, 2) ? I : S) + "))" : " (emit (" + m + " ()))";
		return s + ")";
	}
	std::string errorStmt(int d) {
		if (r.chance(1, 6)) return edge();
		if (r.chance(1, 2)) return wild();
		if (r.chance(1, 16)) return compileError(d);
		switch (r.below(15)) {
		case 0: return "(emit undefined-" + std::to_string(r.below(3)) + ")";
		case 1: return "(no-such-function " + expr(A, d - 1).s + ")";
		case 2: if (r.chance(1, 3)) return "(funcall host-fail " + expr(A, d - 1).s + ")"; if (r.chance(1, 3)) return "(host-call1 host-fail " + expr(A, d - 1).s + ")"; return "(host-fail " + expr(A, d - 1).s + ")";
		case 3: return "(+ " + expr(S, d - 1).s + " 1)";
		case 4: return "(get-vector-element (vector 1 2) " + std::to_string(r.range(-2, 4)) + ")";
		case 5: return "(set-vector-element (vector 1 2) " + std::to_string(r.range(-2, 4)) + " 7)";
		case 6: return "(funcall " + expr(I, d - 1).s + ")";
		case 7: return "(funcall (lambda (a b) a) " + expr(A, d - 1).s + ")";
		case 8: return "(/ " + expr(I, d - 1).s + " " + (r.chance(1, 2) ? "0" : "0.0") + ")";
		case 9: return "(substring \"hello\" " + std::to_string(r.range(-1, 6)) + " " + std::to_string(r.range(-1, 7)) + ")";
		case 10: return "(apply (lambda (a b) a) " + expr(I, d - 1).s + " " + expr(r.chance(1, 3) ? A : L, d - 1).s + ")";
		case 11: return "(host-call1 (lambda () 1) 2)";
		case 12: return "(host-call0 (lambda () " + errorStmt(d - 1) + "))";
		case 13: return "(length " + expr(I, d - 1).s + ")";
		default: return "(make-instance " + expr(A, d - 1).s + " 1 2)";
		}
	}
	std::string script(int stmts, int depth, int exprBudget) {
		vars.clear(); fns.clear(); macs.clear();
		budget = exprBudget;
		std::string s = "(()";
		if (w.padding && r.chance(w.padding, 6)) {
			// Enough variables that the stack offsets of later ones need wider instructions.
			int n = r.chance(2, 3) ? 240 + (int) r.below(30) : 100 + (int) r.below(60);
			std::string p = fresh("l");
			bool far = r.chance(1, 2);
			std::string q = fresh("f");
			if (far)  // values far below those that use them
				s += " (var " + q + "l (list 1 2 3)) (var " + q + "v (vector 4 5 6)) (var " + q + "s \"far\") (var " + q + "y (quote foo)) (var " + q + "t (make-type)) (var " + q + "c (lambda (x) (+ x 1))) (var " + q + "q (make-instance "
				     + q + "t 7 " + q + "c)) (var " + q + "b true) (var " + q + "i 2) (var " + q + "k (list 65 66))";
			std::string all;
			for (int i = 0; i < n; i++) s += " (var " + p + "-" + std::to_string(i) + " " + std::to_string(i) + ")";
			for (int i : {0, 1, 2, n / 2, n - 1}) vars.push_back({p + "-" + std::to_string(i), I});
			if (far) {
				// Operators whose operands are far away.
				static const char *ops[] = {"(set-car Fl Fi)", "(set-cdr Fl (list Fi 8))", "(set-cdr Fl Fk)", "(car Fl)", "(cdr Fl)", "(null? Fl)", "(cons Fi Fl)", "(length Fl)", "(get-vector-element Fv Fi)", "(get-vector-element Fs Fi)",
				    "(set-vector-element Fv Fi Fl)", "(make-vector Fi Fs)", "(vector Fi Fs)", "(list Fi Fs)", "(concatenate Fs Fs)", "(substring Fs 1 Fi)", "(make-string Fk)", "(symbol-string Fy)", "(= (symbol-id Fy) (symbol-id (quote foo)))",
				    "(= (type-of Fq) Ft)", "(= (type-of Fi) (type-of 1))", "(composite-value Fq)", "(funcall (composite-function Fq) Fi)", "(set-composite-value Fq Fl)", "(set-composite-function Fq (lambda (x) (* x Fi)))", "(set-composite-function Fq Fc)",
				    "(composite-value (make-instance Ft Fl Fc))", "(funcall Fc Fi)", "(apply Fc (list Fi))", "(apply Fc Fk)", "(funcall Fq Fi)", "(host-call1 Fc Fi)", "(emit Fi)", "(emit2 Fi Fs)", "(not Fb)", "(+ Fi Fi)", "(- Fi Fi)", "(* Fi Fi)", "(/ Fi Fi)", "(< Fi Fi)", "(> Fi Fi)",
				    "(= Fs Fs)", "(if Fb Fi Fl)", "(setq Fi (+ Fi 0))", "((lambda () (setq Fi (+ Fi 0)) Fl))", "(global g1 Fl)", "(quote far)", "(cdr Fv)", "(car Fv)", "(cdr Fs)", "(length Fv)", "(length Fs)"};
				std::string t;
				for (int i = 2 + (int) r.below(8); i > 0; i--) {
					std::string o = ops[r.below(sizeof ops / sizeof *ops)];
					for (size_t k; (k = o.find('F')) != std::string::npos;) o.replace(k, 1, q);
					if (o == "(global g1 " + q + "l)" && gpool.empty()) continue;
					t += r.chance(1, 4) ? " " + o : " (emit " + o + ")";
				}
				s += t;
				vars.push_back({q + "l", L}); vars.push_back({q + "v", VV}); vars.push_back({q + "s", S}); vars.push_back({q + "y", Y}); vars.push_back({q + "c", C1, true}); vars.push_back({q + "i", I, true});
			}
			if (r.chance(1, 2)) {  // captures more than a byte can number
				std::string c = fresh("c");
				s += " (var " + c + " (lambda ()";
				int m = r.chance(1, 2) ? n : 10;
				for (int i = 0; i < m; i++) s += " (setq " + p + "-" + std::to_string(i) + " (+ " + p + "-" + std::to_string(i) + " 1))";
				s += " " + p + "-" + std::to_string(r.below(m)) + "))";
				vars.push_back({c, C0});
			}
		}
		for (int i = 0; i < stmts; i++) {
			budget = std::max(budget, 6);
			s += " " + stmt(depth);
		}
		return s + " " + expr(A, 2).s + ")";
	}
};
std::string gcPolicy(Rng &r, int heavy) {
	switch (r.below(heavy ? 5 : 4)) {
	case 0: return heavy ? "every" : "none";
	case 1: case 2: return "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(1 + r.below(12));
	case 3: return "rand:" + std::to_string(r.below(1000000)) + ":1:" + std::to_string(10 + r.below(100));
	default: return "every";
	}
}
// A list of request ordinals likely to be reached.
std::string allocPlan(Rng &r) {
	std::string s;
	int n = r.chance(3, 4) ? 1 : 1 + (int) r.below(3);
	for (int i = 0; i < n; i++) {
		uint64_t at = r.chance(1, 3) ? r.below(12) : r.chance(1, 2) ? r.below(80) : r.below(1200);
		uint64_t c = r.chance(2, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(6) : 1000000;
		s += (i ? "," : "") + std::to_string(at) + ":" + std::to_string(c);
	}
	return s;
}
}

bool g_genInfer = false;
Scenario genLang(const std::string &prop, uint64_t seed, int tier) {
	for (uint64_t attempt = 0;; attempt++) {
		if (attempt > 60) throw ModelBudget();
		uint64_t h = hashStr(prop) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (attempt << 48);
		Gen g(h);
		Rng &r = g.r;
		Scenario sc;
		for (int i = 0; i < 5; i++) g.gpool.push_back("g" + std::to_string(i));
		// Swarm: each run has its own mix.
		Weights &w = g.w;
		auto sw = [&](int &x) { x = r.chance(1, 4) ? 0 : 1 + (int) r.below(4); };
		sw(w.mutate); sw(w.loops); sw(w.macros); sw(w.host); sw(w.comps); sw(w.users); sw(w.gcs); sw(w.closures); sw(w.apply);
		if (r.chance(1, 4)) w.errors = 1 + (int) r.below(3);
		int steps = 1 + (int) r.below(5), stmts = 2 + (int) r.below(7), depth = 2 + (int) r.below(3);
		bool faults = false, limit = false, loadFaults = false;
		int gcHeavy = 0, hist = 1;
		std::string extraAlloc;
		if (prop == "P01") { gcHeavy = 1; w.errors /= 2; if (r.chance(1, 10)) w.wild = 20; }
		else if (prop == "P02") { gcHeavy = 1; w.users = 4; w.gcs = 3; hist = 2; }
		else if (prop == "P03") { w.closures = 5; w.calls = 5; w.mutate = 4; w.host = 1; w.loops = 2; w.errors = 0; }
		else if (prop == "P04") { w.mutate = 6; w.comps = 3; w.errors = (int) r.below(3); w.wild = r.chance(1, 6) ? 30 : (int) r.below(3); }
		else if (prop == "P05") { hist = 3; steps = 4 + (int) r.below(5); stmts = 2 + (int) r.below(4); w.errors = 0; }
		else if (prop == "P06") { w.errors = 6 + (int) r.below(10); hist = 2; steps = 2 + (int) r.below(5); limit = true; if (r.chance(1, 5)) w.wild = 30; }
		else if (prop == "P07") { faults = true; w.errors = 0; if (r.chance(1, 10)) w.wild = 20; stmts = 2 + (int) r.below(4); steps = 2 + (int) r.below(3); }
		else if (prop == "P08") { loadFaults = true; w.macros = 4; w.errors = 0; stmts = 2 + (int) r.below(4); steps = 2 + (int) r.below(3); }
		else if (prop == "P09") { w.host = 5; w.calls = 5; w.closures = 4; hist = 2; w.errors = r.chance(1, 2) ? 2 : 0; }
		else if (prop == "P12") { w.macros = 5; hist = 2; w.errors = r.chance(1, 3) ? 2 : 0; steps = 2 + (int) r.below(4); }
		else if (prop == "P13") { w.wide = 5; w.padding = r.chance(1, 3) ? 1 + (int) r.below(4) : 0; w.errors = 0; w.closures = 4; }
		else if (prop == "P14") { w.errors = r.chance(1, 2) ? 4 : 0; faults = r.chance(1, 2); loadFaults = r.chance(1, 2); limit = r.chance(1, 3); w.macros = 3; hist = 2; }
		sc.head["gc"] = gcPolicy(r, gcHeavy || r.chance(1, 4));
		static const char *fills[] = {"a5", "0", "ff", "rand"};
		sc.head["fill"] = fills[r.below(4)];
		static const char *fits[] = {"best", "first", "next", "worst"};
		sc.head["fit"] = fits[r.below(4)];
		sc.head["heap"] = std::to_string(2500 + r.below(1500));
		sc.head["ctheap"] = std::to_string(1500 + r.below(1000));
		bool small = (prop == "P02" || prop == "P06" || prop == "P14" || prop == "P12") && r.chance(1, 4);
		if (small) {
			sc.head["oom"] = "1";
			if (prop == "P12") sc.head["ctheap"] = std::to_string(20 + r.below(200));
			else sc.head["heap"] = std::to_string(20 + r.below(300));
		}
		else if (!r.chance(1, 5)) sc.head["small"] = std::to_string(400 + r.below(300));
		if ((faults || loadFaults) && r.chance(1, 6)) sc.head[r.chance(1, 2) ? "vminit" : "compinit"] = allocPlan(r);
		auto planOpts = [&](Step &s, bool load) {
			if ((faults && !load) || (loadFaults && load) || ((faults || loadFaults) && r.chance(1, 5))) {
				if (r.chance(3, 5)) {
					s.opt["alloc"] = allocPlan(r);
					if (r.chance(1, 6)) s.opt["forever"] = "1";
				}
				else if (r.chance(1, 8)) s.opt["above"] = std::to_string(r.chance(1, 2) ? 64 << r.below(8) : 8 + r.below(100));
			}
			if (limit && !load && r.chance(1, 2)) s.opt["limit"] = std::to_string(1 + (r.chance(1, 2) ? r.below(60) : r.below(800)));
			else if (limit && load && r.chance(1, 8)) s.opt["limit"] = std::to_string(1 + r.below(60));
		};
		size_t scripts = 0;
		if (!small && r.chance(1, 10)) w.wide = 1 + (int) r.below(3);
		if (!small && r.chance(1, prop == "P13" || prop == "P03" ? 5 : 15)) w.longText = 5 + (int) r.below(40);
		if (!small && r.chance(1, 8)) w.padding = 1 + (int) r.below(3);
		if ((w.padding || w.wide) && !sc.head.count("oom")) sc.head["heap"] = std::to_string(10000 + r.below(2000));
		if (g_genInfer) w.errors = 0;
		if (!g_genInfer && r.chance(1, 8)) {
			// Enough names that the numbers of later ones need wider instructions.
			Step s;
			s.op = "load";
			s.arg = "(() (quote (";
			int n = r.chance(2, 3) ? 60 + (int) r.below(150) : 250;
			for (int i = 0; i < n; i++) s.arg += " zz" + std::to_string(i);
			s.arg += ")) 0)";
			sc.steps.push_back(s);
			scripts++;
		}
		std::vector<std::pair<std::string, int>> callable;
		for (int i = 0; i < steps; i++) {
			Step s;
			int k = scripts == 0 ? 0 : (int) r.below(hist == 1 ? 5 : 10);
			switch (k) {
			default: {
				auto sg = g.globals; auto sf = g.gfns;
				s.op = "load";
				s.arg = g.script(stmts, depth, 30 + (int) r.below(60));
				planOpts(s, true);
				bool faulted = !s.opt.empty();
				sc.steps.push_back(s);
				scripts++;
				if (faulted && r.chance(2, 3)) { s.opt.clear(); sc.steps.push_back(s); scripts++; }
				Step x;
				x.op = "exec";
				planOpts(x, false);
				sc.steps.push_back(x);
				if (!x.opt.empty() && r.chance(1, 2)) { x.opt.clear(); sc.steps.push_back(x); }
				callable = g.gfns;
				break;
			}
			case 3: s.op = "exec"; s.opt["k"] = std::to_string(r.below(scripts)); planOpts(s, false); sc.steps.push_back(s); break;
			case 4: s.op = "gc"; if (faults && r.chance(1, 2)) s.opt["alloc"] = allocPlan(r); sc.steps.push_back(s); break;
			case 5: case 6:
				if (callable.empty()) { i -= r.chance(1, 2); break; }
				else {
					auto &f = r.pick(callable);
					s.op = "call"; s.opt["f"] = f.first;
					int n = f.second + (w.errors && r.chance(1, 6) ? 1 : 0);
					for (int q = 0; q < n; q++) s.arg += (q ? " " : "") + (r.chance(1, 8) ? g.lit(r.chance(1, 2) ? S : B) : g.lit(I));
					planOpts(s, false);
					sc.steps.push_back(s);
				}
				break;
			case 7: s.op = r.chance(1, 3) ? "ctgc" : r.chance(1, 2) ? "reset" : "gc"; sc.steps.push_back(s); break;
			case 8: if (hist > 1 && r.chance(1, 2)) { s.op = "newvm"; sc.steps.push_back(s); g.globals.clear(); g.gfns.clear(); callable.clear(); } break;
			case 9: if (hist > 1 && r.chance(1, 3)) { s.op = r.chance(1, 2) ? "restart" : "exec"; if (s.op == "restart") { g.globals.clear(); g.gfns.clear(); g.cglobals.clear(); callable.clear(); scripts = 0; } sc.steps.push_back(s); } break;
			}
		}
		if (r.chance(1, 3)) { Step s; s.op = "gc"; sc.steps.push_back(s); }
		if (prop == "P10" || (hist > 1 && r.chance(1, 6) && scripts)) { Step s; s.op = "quitcomp"; sc.steps.push_back(s); s.op = "exec"; s.opt["k"] = std::to_string(r.below(scripts)); sc.steps.push_back(s); }
		std::string gl;
		for (auto &x : g.gpool) gl += x + ",";
		sc.head["globals"] = gl + "h0,h1,h2,cg0,cg1,cg2";
		// Reject programs that are too long, using the model alone.
		try {
			Model m;
			m.maxSteps = 20000;
			for (auto &s : sc.steps) {
				m.beginOp(-1);
				try {
					if (s.op == "load") { size_t n = m.scripts.size(); try { m.load(s.arg); } catch (LispError &) { m.failedLoad(n); } }
					else if (s.op == "exec" && !m.scripts.empty()) {
						size_t k = s.opt.count("k") ? std::min<size_t>(std::stoul(s.opt["k"]), m.scripts.size() - 1) : m.scripts.size() - 1;
						if (m.scripts[k]) m.exec(m.scripts[k]);
					}
					else if (s.op == "newvm") m.resetRuntime();
					else if (s.op == "restart") m.restart();
				} catch (LispError &) {}
				m.afterOp();
			}
		} catch (ModelBudget &) { continue; }
		return sc;
	}
}

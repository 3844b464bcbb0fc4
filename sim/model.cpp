#include "ops.h"
extern "C" {
#include "duckVM.h"
}
#include <cstring>
#include <cmath>
#include <algorithm>
std::string escapeBytes(const std::string &s);
std::string fmtFloat(double d);

// ------------------------------------------------------------------------------------------------ reader
namespace {
struct Rd {
	NodeArena &a; const std::string &s; size_t i = 0; int depth = 0;
	void ws() {
		while (i < s.size()) {
			if (isspace((unsigned char) s[i])) i++;
			else if (s[i] == ';') { while (i < s.size() && s[i] != '\n') i++; }
			else break;
		}
	}
	Node *form() {
		ws();
		if (i >= s.size()) throw ReadError("eof");
		if (s[i] == '(') {
			if (++depth > 500) throw ReadError("deep");
			i++;
			Node *n = a.make(Node::List);
			while (true) {
				ws();
				if (i >= s.size()) throw ReadError("eof");
				if (s[i] == ')') { i++; depth--; return n; }
				n->kids.push_back(form());
			}
		}
		if (s[i] == ')') throw ReadError("close");
		if (s[i] == '"') {
			Node *n = a.make(Node::Str);
			i++;
			while (i < s.size() && s[i] != '"') {
				if (s[i] == '\\' && i + 1 < s.size()) {
					i++;
					n->s += s[i] == 'n' ? '\n' : s[i];
					i++;
				}
				else n->s += s[i++];
			}
			if (i >= s.size()) throw ReadError("eof");
			i++;
			return n;
		}
		size_t b = i;
		while (i < s.size() && !isspace((unsigned char) s[i]) && s[i] != '(' && s[i] != ')' && s[i] != '"') i++;
		std::string t = s.substr(b, i - b);
		if (t == "true" || t == "false") { Node *n = a.make(Node::Bool); n->i = t == "true"; return n; }
		bool num = !t.empty(), dot = false;
		for (size_t k = 0; k < t.size(); k++) {
			if (k == 0 && t[k] == '-' && t.size() > 1) continue;
			if (t[k] == '.' && !dot) { dot = true; continue; }
			if (!isdigit((unsigned char) t[k])) { num = false; break; }
		}
		if (num && t != "." && t != "-.") {
			Node *n = a.make(dot ? Node::Flt : Node::Int);
			if (dot) n->f = strtod(t.c_str(), nullptr); else n->i = strtoll(t.c_str(), nullptr, 10);
			return n;
		}
		if (t.size() > 1 && t[0] == '#') { Node *n = a.make(Node::FnRef); n->s = t.substr(1); return n; }
		Node *n = a.make(Node::Sym);
		n->s = t;
		return n;
	}
};
}
Node *readForm(NodeArena &a, const std::string &src) {
	Rd r{a, src};
	Node *n = r.form();
	r.ws();
	if (r.i != src.size()) throw ReadError("trailing text");
	return n;
}
std::string printNode(const Node *n) {
	switch (n->kind) {
	case Node::Sym: return n->s;
	case Node::FnRef: return "#" + n->s;
	case Node::Int: return std::to_string(n->i);
	case Node::Flt: { std::string s = fmtFloat(n->f); return s; }
	case Node::Bool: return n->i ? "true" : "false";
	case Node::Str: {
		std::string o = "\"";
		for (char c : n->s) { if (c == '"' || c == '\\') o += '\\', o += c; else if (c == '\n') o += "\\n"; else o += c; }
		return o + "\"";
	}
	case Node::List: {
		std::string o = "(";
		for (size_t i = 0; i < n->kids.size(); i++) { if (i) o += ' '; o += printNode(n->kids[i]); }
		return o + ")";
	}
	}
	return "";
}

// ------------------------------------------------------------------------------------------------ operators
enum Op {
	OpNone, OpBody, OpCall, OpQuote, OpVar, OpGlobal, OpSetq, OpDefun, OpLambda, OpDefmacro, OpIf, OpWhen, OpUnless, OpWhile,
	OpFuncall, OpApply, OpNop, OpNoscope,
	OpAdd, OpSub, OpMul, OpDiv, OpLt, OpGt, OpEq, OpNot,
	OpCons, OpCar, OpCdr, OpSetCar, OpSetCdr, OpNullp, OpList, OpVector, OpMakeVector, OpGetVec, OpSetVec, OpLength,
	OpTypeOf, OpMakeType, OpMakeInstance, OpCompValue, OpCompFn, OpSetCompValue, OpSetCompFn,
	OpConcat, OpSubstring, OpMakeString, OpSymbolString, OpSymbolId, OpComptime, OpError
};
static const std::map<std::string, int> &opTable() {
	static std::map<std::string, int> t;
	if (t.empty()) {
		std::map<std::string, int> b = {
			{"quote", OpQuote}, {"var", OpVar}, {"global", OpGlobal}, {"setq", OpSetq}, {"defun", OpDefun}, {"lambda", OpLambda},
			{"defmacro", OpDefmacro}, {"if", OpIf}, {"when", OpWhen}, {"unless", OpUnless}, {"while", OpWhile},
			{"funcall", OpFuncall}, {"apply", OpApply}, {"nop", OpNop}, {"noscope", OpNoscope}, {"comptime", OpComptime},
			{"+", OpAdd}, {"-", OpSub}, {"*", OpMul}, {"/", OpDiv}, {"<", OpLt}, {">", OpGt}, {"=", OpEq}, {"not", OpNot},
			{"cons", OpCons}, {"car", OpCar}, {"cdr", OpCdr}, {"set-car", OpSetCar}, {"set-cdr", OpSetCdr}, {"null?", OpNullp},
			{"list", OpList}, {"vector", OpVector}, {"make-vector", OpMakeVector}, {"get-vector-element", OpGetVec},
			{"set-vector-element", OpSetVec}, {"length", OpLength}, {"type-of", OpTypeOf}, {"make-type", OpMakeType},
			{"make-instance", OpMakeInstance}, {"composite-value", OpCompValue}, {"composite-function", OpCompFn},
			{"set-composite-value", OpSetCompValue}, {"set-composite-function", OpSetCompFn}, {"concatenate", OpConcat},
			{"substring", OpSubstring}, {"make-string", OpMakeString}, {"symbol-string", OpSymbolString}, {"symbol-id", OpSymbolId}};
		for (auto &p : b) { t[p.first] = p.second; t["__" + p.first] = p.second; }
		t["__error"] = OpError;
	}
	return t;
}
bool isCallbackName(const std::string &s, bool comptime) {
	static const std::set<std::string> n = {"emit", "emit2", "tick", "host-gc", "host-fail", "host-call0", "host-call1", "host-call2", "mkuser", "host-ops"};
	return n.count(s) || (comptime && (s == "gensym" || s == "intern"));
}

// ------------------------------------------------------------------------------------------------ state
void MVM::reset() {
	globals.clear();
	nextType = duckVM_object_type_last;
}
static void linkCallbacks(MVM &m, bool comptime, std::function<V(const std::string &)> fun) {
	for (const char *n : {"emit", "emit2", "tick", "host-gc", "host-fail", "host-call0", "host-call1", "host-call2", "mkuser", "host-ops"}) m.globals[n] = fun(n);
	if (comptime) for (const char *n : {"gensym", "intern"}) m.globals[n] = fun(n);
}
V Model::sym(const std::string &name) {
	auto &s = syms[name];
	if (!s) { s.reset(new MSym); s->name = name; }
	V v; v.k = V::Sym; v.p = s.get();
	return v;
}
V Model::str(const std::string &s) {
	V v; v.k = V::Str;
	if (s.empty()) return v;
	strs.push_back(MStr{s});
	v.p = &strs.back(); v.len = s.size();
	return v;
}
Model::Model() {
	ct.comptime = true;
	run.reset();
	ct.reset();
	auto fun = [this](const std::string &n) { V v = sym(n); v.k = V::Fun; return v; };
	linkCallbacks(run, false, fun);
	linkCallbacks(ct, true, fun);
}
void Model::resetRuntime() {
	run.reset();
	linkCallbacks(run, false, [this](const std::string &n) { V v = sym(n); v.k = V::Fun; return v; });
}

void Model::restart() {
	resetRuntime();
	ct.reset();
	linkCallbacks(ct, true, [this](const std::string &n) { V v = sym(n); v.k = V::Fun; return v; });
	for (auto &s : scripts) s = nullptr;
}

// ------------------------------------------------------------------------------------------------ expansion (load time)
static const std::string &symOf(Node *n) { static const std::string e; return n->kind == Node::Sym ? n->s : e; }

Node *Model::toNode(const V &v, bool macro) {
	switch (v.k) {
	case V::Bool: { Node *n = nodes.make(Node::Bool); n->i = v.i; return n; }
	case V::Int: {
		if (v.i != (int32_t) v.i) throw ModelBudget();  // immediate integers have 32 bits
		Node *n = nodes.make(Node::Int); n->i = v.i; return n; }
	case V::Flt: { Node *n = nodes.make(Node::Flt); n->f = v.f; return n; }
	case V::Str: { Node *n = nodes.make(Node::Str); if (v.p) n->s = ((MStr *) v.p)->s.substr(v.off, v.len - v.off); return n; }
	case V::Sym: {
		Node *n = nodes.make(Node::Sym);
		MSym *s = (MSym *) v.p;
		n->s = s->gen >= 0 ? std::string(1, '\0') + std::to_string(s->gen) : s->name;
		if (s->gen < 0 && s->name.size() > 1 && s->name[0] == '#') { n->kind = Node::FnRef; n->s = s->name.substr(1); }
		return n;
	}
	case V::List: {
		if (!v.p) return nodes.make(Node::List);
		if (macro) {
			Node *n = nodes.make(Node::List);
			V c = v;
			while (c.k == V::List && c.p) {
				step();
				n->kids.push_back(toNode(((MCons *) c.p)->car, true));
				c = ((MCons *) c.p)->cdr;
			}
			if (c.k != V::List) throw LispError();
			return n;
		}
		step();
		Node *n = nodes.make(Node::List), *h = nodes.make(Node::Sym);
		h->s = "__cons";
		n->kids.push_back(h);
		n->kids.push_back(toNode(((MCons *) v.p)->car, false));
		n->kids.push_back(toNode(((MCons *) v.p)->cdr, false));
		return n;
	}
	default: throw LispError();
	}
}
V Model::fromNode(Node *n) {
	switch (n->kind) {
	case Node::Bool: return V::b(n->i);
	case Node::Int: return V::n(n->i);
	case Node::Flt: return V::d(n->f);
	case Node::Str: return str(n->s);
	case Node::Sym:
		if (n->s[0] == 0) {
			for (auto &g : gens) if (std::to_string(g.gen) == n->s.substr(1)) { V v; v.k = V::Sym; v.p = &g; return v; }
		}
		return sym(n->s);
	case Node::FnRef: return sym("#" + n->s);  // shown as the plain name; as code it still means the function
	case Node::List: {
		V l;
		for (size_t i = n->kids.size(); i-- > 0;) l = cons(fromNode(n->kids[i]), l);
		return l;
	}
	}
	return V();
}
void Model::expandBody(Node *n, size_t from, MMacro *m) {
	for (size_t i = from; i < n->kids.size(); i++) n->kids[i] = expand(n->kids[i], m);
}
// Macros and compile-time expressions are evaluated here, in source order. `m` gains the macros the form defines.
Node *Model::expand(Node *n, MMacro *&m) {
	step();
	if (n->kind != Node::List || n->kids.empty()) return n;
	Node *h = n->kids[0];
	if (h->kind == Node::List) {  // a scope of forms
		MMacro *inner = m;
		n->op = OpBody;
		expandBody(n, h->kids.empty() ? 1 : 0, inner);
		return n;
	}
	if (h->kind != Node::Sym) throw LispError();
	for (MMacro *k = m; k; k = k->next) {
		if (k->name != h->s) continue;
		std::vector<V> args;
		for (size_t i = 1; i < n->kids.size(); i++) args.push_back(fromNode(n->kids[i]));
		if (args.size() > 255) throw LispError();
		V f; f.k = V::Clo; f.p = k->clo;
		V r = callValue(ct, f, args);
		Node *x = toNode(r, true);
		return expand(x, m);
	}
	auto it = opTable().find(h->s);
	n->op = it == opTable().end() ? OpCall : it->second;
	switch (n->op) {
	case OpQuote: return n;
	case OpError: throw LispError();  // compiling it is what fails
	case OpComptime: {
		MMacro *inner = m;
		expandBody(n, 1, inner);
		MVM *old = cur;
		cur = &ct;
		V r = evalBody(n->kids, 1, nullptr);
		cur = old;
		Node *x = toNode(r, false);
		return expand(x, m);
	}
	case OpVar: case OpGlobal: case OpSetq: {
		for (size_t i = 2; i < n->kids.size(); i++) n->kids[i] = expand(n->kids[i], m);
		return n;
	}
	case OpLambda: case OpDefun: case OpDefmacro: {
		MMacro *inner = m;
		expandBody(n, n->op == OpLambda ? 2 : 3, inner);
		{
			auto &ps = n->kids[n->op == OpLambda ? 1 : 2]->kids;
			if (ps.size() - (ps.size() >= 2 && ps[ps.size() - 2]->kind == Node::Sym && ps[ps.size() - 2]->s == "&rest" ? 2 : 0) > 255) throw LispError();
		}
		if (n->op == OpDefmacro) {
			MEnv *e = bind("self", true, V(), nullptr);
			V c = closure(n, 2, e);
			e->v = c;
			macros.push_back(MMacro{n->kids[1]->s, (MClo *) c.p, m});
			m = &macros.back();
		}
		return n;
	}
	case OpIf: case OpWhen: case OpUnless: case OpWhile: {
		// A literal condition selects what is compiled; the rest is dropped.
		int lit = -1;
		if (n->kids.size() > 1) {
			Node *c = n->kids[1];
			if (c->kind == Node::Bool || c->kind == Node::Int) lit = c->i != 0;
			else if (c->kind == Node::Flt) lit = c->f != 0.0;
			else if (c->kind == Node::Str) lit = !c->s.empty();
		}
		n->lit = lit;
		MMacro *inner = m;
		if (n->op == OpIf) {
			if (lit == -1) {
				n->kids[1] = expand(n->kids[1], m);
				n->kids[3] = expand(n->kids[3], m);
				n->kids[2] = expand(n->kids[2], m);
			}
			else n->kids[lit ? 2 : 3] = expand(n->kids[lit ? 2 : 3], m);
			return n;
		}
		bool body = lit == -1 || n->op == OpWhile || lit == (n->op != OpUnless);  // a loop never entered is compiled all the same
		if (n->op != OpWhile && lit == -1) n->kids[1] = expand(n->kids[1], m);
		if (body) expandBody(n, 2, inner);
		if (n->op == OpWhile && lit == -1) n->kids[1] = expand(n->kids[1], m);
		return n;
	}
	case OpList: case OpVector: {
		for (size_t i = n->kids.size(); i-- > 1;) n->kids[i] = expand(n->kids[i], m);
		return n;
	}
	default: {
		for (size_t i = 1; i < n->kids.size(); i++) n->kids[i] = expand(n->kids[i], m);
		// The number of arguments is limited; callbacks take any number.
		size_t count = n->kids.size() - 1;
		if (n->op == OpFuncall ? count > 256 : n->op == OpApply ? count > 257 : n->op == OpCall && !isCallbackName(h->s, true) && count > 255) throw LispError();
		return n;
	}
	}
}
void Model::load(const std::string &src) {
	Node *root;
	try { root = readForm(nodes, src); } catch (ReadError &) { throw LispError(); }
	MMacro *m = nullptr;
	Node *x = expand(root, m);
	scripts.push_back(x);
}

// ------------------------------------------------------------------------------------------------ evaluation
V Model::exec(Node *root) {
	MVM *old = cur;
	cur = &run;
	MEnv *env = nullptr;
	V v;
	try { v = eval(root, env); } catch (...) { cur = old; throw; }
	cur = old;
	return v;
}
bool Model::truthy(const V &v) {
	switch (v.k) {
	case V::Bool: case V::Int: return v.i != 0;
	case V::Flt: return v.f != 0.0;
	case V::Sym: case V::Clo: case V::Fun: case V::Str: return true;
	case V::List: return v.p != nullptr;
	case V::Vec: return v.p && v.off < ((MVec *) v.p)->length;
	default: return false;
	}
}
V Model::quoted(Node *n) {
	switch (n->kind) {
	case Node::List: {
		V l;
		for (size_t i = n->kids.size(); i-- > 0;) l = cons(quoted(n->kids[i]), l);
		return l;
	}
	default: return fromNode(n);
	}
}
V Model::closure(Node *n, size_t params, MEnv *env) {
	clos.emplace_back();
	MClo &c = clos.back();
	Node *p = n->kids[params];
	for (size_t i = 0; i < p->kids.size(); i++) {
		if (p->kids[i]->s == "&rest") { c.variadic = true; continue; }
		c.params.push_back(p->kids[i]->s);
	}
	c.body.assign(n->kids.begin() + params + 1, n->kids.end());
	c.env = env;
	V v; v.k = V::Clo; v.p = &c;
	return v;
}
V Model::evalBody(const std::vector<Node *> &body, size_t from, MEnv *env) {
	V v;
	for (size_t i = from; i < body.size(); i++) v = eval(body[i], env);
	return v;
}
V Model::eval(Node *n, MEnv *&env) {
	step();
	switch (n->kind) {
	case Node::Bool: return V::b(n->i);
	case Node::Int: return V::n(n->i);
	case Node::Flt: return V::d(n->f);
	case Node::Str: return str(n->s);
	case Node::Sym: {
		if (MEnv *e = find(env, n->s, false)) return e->v;
		auto g = cur->globals.find(n->s);
		if (g == cur->globals.end()) throw LispError();
		return g->second;
	}
	case Node::FnRef: {
		if (MEnv *e = find(env, n->s, false)) return e->v;
		auto g = cur->globals.find(n->s);
		if (g == cur->globals.end()) throw LispError();
		return g->second;
	}
	case Node::List: break;
	}
	if (n->kids.empty()) return V::nil();
	auto &k = n->kids;
	switch (n->op) {
	case OpBody: return evalBody(k, k[0]->kind == Node::List && k[0]->kids.empty() ? 1 : 0, env);
	case OpNop: return V::nil();
	case OpNoscope: {  // the forms belong to the scope around them
		V v;
		for (size_t i = 1; i < k.size(); i++) v = eval(k[i], env);
		return v;
	}
	case OpQuote: return quoted(k[1]);
	case OpVar: {
		V v = eval(k[2], env);
		env = bind(k[1]->s, false, v, env);
		return v;
	}
	case OpGlobal: {
		V v = eval(k[2], env);
		effect();
		cur->globals[k[1]->s] = v;
		return v;
	}
	case OpSetq: {
		V v = eval(k[2], env);
		effect();
		if (MEnv *e = find(env, k[1]->s, false)) e->v = v;
		else cur->globals[k[1]->s] = v;
		return v;
	}
	case OpDefun: {
		// The body sees `self`, not the name.
		MEnv *e = bind("self", true, V(), env);
		e->v = closure(n, 2, e);
		env = bind(k[1]->s, true, e->v, env);
		return e->v;
	}
	case OpLambda: {
		// `self` names the function being defined.
		MEnv *e = bind("self", true, V(), env);
		e->v = closure(n, 1, e);
		return e->v;
	}
	case OpDefmacro: return V::nil();
	case OpIf: {
		bool c = n->lit >= 0 ? n->lit : truthy(eval(k[1], env));
		MEnv *inner = env;
		return c ? eval(k[2], inner) : eval(k[3], inner);
	}
	case OpWhen: case OpUnless: {
		bool c = n->lit >= 0 ? n->lit : truthy(eval(k[1], env));
		if (c == (n->op == OpWhen)) return evalBody(k, 2, env);
		return V::nil();
	}
	case OpWhile: {
		while (true) {
			MEnv *inner = env;
			if (n->lit >= 0 ? !n->lit : !truthy(eval(k[1], inner))) break;
			evalBody(k, 2, env);
		}
		return V::nil();
	}
	case OpFuncall: {
		V f = eval(k[1], env);
		std::vector<V> a;
		for (size_t i = 2; i < k.size(); i++) a.push_back(eval(k[i], env));
		return callValue(*cur, f, a);
	}
	case OpApply: {
		V f = eval(k[1], env);
		std::vector<V> a;
		for (size_t i = 2; i < k.size(); i++) a.push_back(eval(k[i], env));
		V rest = a.back();
		a.pop_back();
		return apply(f, a, rest);
	}
	case OpCall: {
		const std::string &name = k[0]->s;
		if (MEnv *e = find(env, name, true)) {
			std::vector<V> a;
			for (size_t i = 1; i < k.size(); i++) a.push_back(eval(k[i], env));
			return callValue(*cur, e->v, a);
		}
		if (isCallbackName(name, true)) {  // known to the compiler as a callback: looked up when called
			std::vector<V> a;
			for (size_t i = 1; i < k.size(); i++) a.push_back(eval(k[i], env));
			auto g = cur->globals.find(name);
			if (g == cur->globals.end() || g->second.k != V::Fun) throw LispError();
			return callback(((MSym *) g->second.p)->name, a);
		}
		auto g = cur->globals.find(name);
		if (g == cur->globals.end()) throw LispError();
		V f = g->second;
		std::vector<V> a;
		for (size_t i = 1; i < k.size(); i++) a.push_back(eval(k[i], env));
		return callValue(*cur, f, a);
	}
	default: {
		std::vector<V> a(k.size() - 1);
		if (n->op == OpList || n->op == OpVector)
			for (size_t i = k.size(); i-- > 1;) a[i - 1] = eval(k[i], env);
		else for (size_t i = 1; i < k.size(); i++) a[i - 1] = eval(k[i], env);
		return prim(n->op, a);
	}
	}
}
V Model::callValue(MVM &m, const V &f0, const std::vector<V> &args) {
	step();
	V f = f0;
	for (int g = 0; f.k == V::Comp; g++) { if (g > 100) throw ModelBudget(); f = ((MComp *) f.p)->fn; }
	MVM *old = cur;
	cur = &m;
	struct Restore { MVM *&c; MVM *o; ~Restore() { c = o; } } restore{cur, old};
	if (f.k == V::Fun) return callback(((MSym *) f.p)->name, args);
	if (f.k != V::Clo) throw LispError();
	MClo *c = (MClo *) f.p;
	size_t fixed = c->params.size() - (c->variadic ? 1 : 0);
	if (c->variadic ? args.size() < fixed : args.size() != fixed) throw LispError();
	if (++nested > 200) throw ModelBudget();
	MEnv *env = c->env;
	for (size_t i = 0; i < fixed; i++) env = bind(c->params[i], false, args[i], env);
	if (c->variadic) {
		V l;
		for (size_t i = args.size(); i-- > fixed;) l = cons(args[i], l);
		env = bind(c->params.back(), false, l, env);
	}
	V r = evalBody(c->body, 0, env);
	nested--;
	return r;
}
V Model::apply(const V &f0, std::vector<V> args, const V &rest) {
	V f = f0;
	for (int g = 0; f.k == V::Comp; g++) { if (g > 100) throw ModelBudget(); f = ((MComp *) f.p)->fn; }
	if (f.k != V::Clo) throw LispError();
	if (rest.k != V::List) throw LispError();
	MClo *c = (MClo *) f.p;
	size_t fixed = c->params.size() - (c->variadic ? 1 : 0);
	V r = rest;
	while (args.size() < fixed && r.k == V::List && r.p) { args.push_back(((MCons *) r.p)->car); r = ((MCons *) r.p)->cdr; }
	if (r.k != V::List) throw LispError();
	if (!c->variadic) return callValue(*cur, f, args);
	if (args.size() < fixed) throw LispError();
	// The rest list shares the tail of the list that was given.
	V l = r;
	for (size_t i = args.size(); i-- > fixed;) l = cons(args[i], l);
	if (++nested > 200) throw ModelBudget();
	MEnv *env = c->env;
	for (size_t i = 0; i < fixed; i++) env = bind(c->params[i], false, args[i], env);
	env = bind(c->params.back(), false, l, env);
	V v = evalBody(c->body, 0, env);
	nested--;
	return v;
}
V Model::call(const std::string &global, const std::vector<V> &args) {
	auto g = run.globals.find(global);
	if (g == run.globals.end()) throw LispError();
	V f = g->second;
	return callValue(run, f, args);
}
V Model::callback(const std::string &name, const std::vector<V> &a) {
	std::string pre = cur->comptime ? "C:" : "";
	auto need = [&](size_t n) { if (a.size() != n) throw ModelBudget(); };  // never generated
	if (name == "emit") { need(1); effect(); events.push_back(pre + render(a[0])); return a[0]; }
	if (name == "emit2") {
		need(2); effect();
		std::string l = render(a[0]), r = render(a[1]);
		events.push_back(pre + l + " , " + r);
		return a[0];
	}
	if (name == "tick") { need(0); effect(); return V::n(++tick); }
	if (name == "host-gc") { need(0); return V::nil(); }
	if (name == "host-fail") { need(1); effect(); events.push_back(pre + "fail " + render(a[0])); throw LispError(); }
	if (name == "mkuser") { need(0); effect(); V v; v.k = V::User; v.i = users++; return v; }
	if (name.compare(0, 9, "host-call") == 0) {
		need(1 + (name[9] - '0'));
		return callValue(*cur, a[0], std::vector<V>(a.begin() + 1, a.end()));
	}
	if (name == "host-ops") {
		need(2);
		if (a[0].k != V::Str || !a[0].p) throw LispError();
		std::vector<V> st = a;
		MVM &vm = *cur;
		for (auto &o : parseOps(((MStr *) a[0].p)->s.substr(a[0].off, a[0].len - a[0].off))) {
			step();
			std::string told;
			effect();
			bool ok = modelOp(*this, vm, st, o, true, told);
			events.push_back(pre + o.name + (ok ? " " + told : " error") + " > " + render(st.back()));
			events.push_back(pre + std::to_string(st.size()));
		}
		return st.back();
	}
	if (name == "gensym") {
		need(0);
		effect();
		gens.emplace_back();
		gens.back().gen = (int64_t) gens.size() - 1;
		V v; v.k = V::Sym; v.p = &gens.back();
		return v;
	}
	if (name == "intern") {
		need(1);
		if (a[0].k != V::Str) throw LispError();
		effect();
		return sym(a[0].p ? ((MStr *) a[0].p)->s.substr(a[0].off, a[0].len - a[0].off) : "");
	}
	throw ModelBudget();
}

static V arith(int op, const V &a, const V &b) {
	auto num = [](const V &v) { return v.k == V::Bool || v.k == V::Int || v.k == V::Flt; };
	if (!num(a) || !num(b)) throw LispError();
	bool fl = a.k == V::Flt || b.k == V::Flt;
	double x = a.k == V::Flt ? a.f : (double) a.i, y = b.k == V::Flt ? b.f : (double) b.i;
	if (op == OpLt) return V::b(fl ? x < y : a.i < b.i);
	if (op == OpGt) return V::b(fl ? x > y : a.i > b.i);
	if (!fl && a.k == V::Bool && b.k == V::Bool) throw ModelBudget();  // not generated
	if (fl) {
		switch (op) {
		case OpAdd: return V::d(x + y);
		case OpSub: return V::d(x - y);
		case OpMul: return V::d(x * y);
		default: return V::d(x / y);
		}
	}
	uint64_t u = (uint64_t) a.i, w = (uint64_t) b.i;
	switch (op) {
	case OpAdd: return V::n((int64_t) (u + w));
	case OpSub: return V::n((int64_t) (u - w));
	case OpMul: return V::n((int64_t) (u * w));
	default:
		if (b.i == 0) throw LispError();
		if (b.i == -1) return V::n((int64_t) (0 - u));
		return V::n(a.i / b.i);
	}
}
static size_t strLen(const V &s) { return s.p ? s.len - s.off : 0; }
static std::string strBytes(const V &s) { return s.p ? ((MStr *) s.p)->s.substr(s.off, s.len - s.off) : std::string(); }
static bool cyclic(const V &l) {
	std::set<void *> seen;
	V c = l;
	while (c.k == V::List && c.p) { if (!seen.insert(c.p).second) return true; c = ((MCons *) c.p)->cdr; }
	return false;
}
V Model::prim(int op, const std::vector<V> &a) {
	auto need = [&](size_t n) { if (a.size() != n) throw ModelBudget(); };
	auto vec = [](const V &v) { return (MVec *) v.p; };
	auto cell = [](const V &v) { return (MCons *) v.p; };
	V v;
	switch (op) {
	case OpAdd: case OpSub: case OpMul: case OpDiv: case OpLt: case OpGt: need(2); return arith(op, a[0], a[1]);
	case OpEq: {
		need(2);
		const V &x = a[0], &y = a[1];
		switch (x.k) {
		case V::List: case V::Sym: case V::Str: case V::Flt: case V::Int: case V::Bool: case V::Vec: case V::Type: break;
		default: throw LispError();
		}
		if (x.k != y.k) return V::b(false);
		switch (x.k) {
		case V::List: case V::Sym: return V::b(x.p == y.p);
		case V::Str: return V::b(strBytes(x) == strBytes(y));
		case V::Flt: return V::b(x.f == y.f);
		case V::Vec: return V::b(x.p == y.p && (!x.p || x.off == y.off));
		default: return V::b(x.i == y.i);
		}
	}
	case OpNot: {
		need(1);
		switch (a[0].k) {
		case V::Vec: case V::List: return V::b(!a[0].p);
		case V::Int: return V::n(!a[0].i);
		case V::Bool: return V::b(!a[0].i);
		case V::Flt: return V::d(a[0].f == 0.0 ? 1.0 : 0.0);
		default: throw LispError();
		}
	}
	case OpCons: need(2); return cons(a[0], a[1]);
	case OpList: for (size_t i = a.size(); i-- > 0;) v = cons(a[i], v); return v;
	case OpCar: case OpCdr:
		need(1);
		if (a[0].k == V::List) return !a[0].p ? V::nil() : op == OpCar ? cell(a[0])->car : cell(a[0])->cdr;
		if (a[0].k == V::Vec) {
			v.k = V::Vec;
			if (op == OpCar) return a[0].p && a[0].off < vec(a[0])->length ? vec(a[0])->v[a[0].off] : v;
			if (a[0].p && a[0].off + 1 < vec(a[0])->length) { v.p = a[0].p; v.off = a[0].off + 1; }
			return v;
		}
		if (a[0].k == V::Str) {
			v.k = V::Str;
			if (op == OpCar) return strLen(a[0]) ? V::n((unsigned char) ((MStr *) a[0].p)->s[a[0].off]) : v;
			if (strLen(a[0]) > 1) { v = a[0]; v.off++; }
			return v;
		}
		throw LispError();
	case OpSetCar: case OpSetCdr:
		need(2);
		if (a[0].k == V::List && a[0].p) {
			effect();
			(op == OpSetCar ? cell(a[0])->car : cell(a[0])->cdr) = a[1];
			return a[0];
		}
		if (a[0].k == V::Vec && a[0].p) {
			if (op == OpSetCar) {
				if (a[0].off >= vec(a[0])->length) throw LispError();
				effect();
				vec(a[0])->v[a[0].off] = a[1];
				return a[0];
			}
			if (!((a[1].k == V::Vec || a[1].k == V::List) && !a[1].p)) throw LispError();
			effect();
			if (a[0].off < vec(a[0])->length) vec(a[0])->length = a[0].off + 1;
			return a[0];
		}
		throw LispError();
	case OpNullp:
		need(1);
		if (a[0].k == V::List) return V::b(!a[0].p);
		if (a[0].k == V::Vec) return V::b(!(a[0].p && a[0].off < vec(a[0])->length));
		if (a[0].k == V::Str) return V::b(!strLen(a[0]));
		return V::b(false);
	case OpVector: case OpMakeVector: {
		if (op == OpMakeVector) {
			need(2);
			if (a[0].k != V::Int || a[0].i < 0) throw LispError();
			if (a[0].i > (maxSteps > 1000000 ? 200000 : 5000)) throw ModelBudget();
		}
		vecs.emplace_back();
		MVec &m = vecs.back();
		if (op == OpVector) m.v = a; else m.v.assign((size_t) a[0].i, a[1]);
		m.length = m.v.size();
		v.k = V::Vec; v.p = &m;
		return v;
	}
	case OpGetVec: {
		need(2);
		if (a[0].k == V::Vec) {
			if (a[1].k != V::Int || a[1].i < 0 || !a[0].p || (size_t) a[1].i + a[0].off >= vec(a[0])->length) throw LispError();
			return vec(a[0])->v[a[0].off + a[1].i];
		}
		if (a[0].k != V::Str || a[1].k != V::Int || a[1].i < 0 || (size_t) a[1].i >= strLen(a[0])) throw LispError();
		return V::n((unsigned char) ((MStr *) a[0].p)->s[a[0].off + a[1].i]);
	}
	case OpSetVec: {
		need(3);
		if (a[0].k != V::Vec || a[1].k != V::Int || a[1].i < 0 || !a[0].p || (size_t) a[1].i + a[0].off >= vec(a[0])->length) throw LispError();
		effect();
		vec(a[0])->v[a[0].off + a[1].i] = a[2];
		return a[2];
	}
	case OpLength: {
		need(1);
		if (a[0].k == V::List) {
			if (cyclic(a[0])) throw LispError();
			int64_t n = 0;
			V c = a[0];
			while (c.k == V::List && c.p) { n++; c = cell(c)->cdr; }
			return V::n(n);
		}
		if (a[0].k == V::Vec) return V::n(a[0].p && a[0].off < vec(a[0])->length ? vec(a[0])->length - a[0].off : 0);
		if (a[0].k == V::Str) return V::n(strLen(a[0]));
		throw LispError();
	}
	case OpTypeOf: {
		need(1);
		v.k = V::Type;
		if (a[0].k == V::Comp) { v.i = ((MComp *) a[0].p)->type; return v; }
		static const int num[] = {duckVM_object_type_bool, duckVM_object_type_integer, duckVM_object_type_float, duckVM_object_type_symbol,
		                          duckVM_object_type_string, duckVM_object_type_list, duckVM_object_type_vector, duckVM_object_type_composite,
		                          duckVM_object_type_closure, duckVM_object_type_function, duckVM_object_type_type, duckVM_object_type_user};
		v.i = num[a[0].k];
		return v;
	}
	case OpMakeType: need(0); effect(); v.k = V::Type; v.i = cur->nextType++; return v;
	case OpMakeInstance:
		need(3);
		if (a[0].k != V::Type || a[0].i < duckVM_object_type_last) throw LispError();
		comps.push_back(MComp{a[0].i, a[1], a[2]});
		v.k = V::Comp; v.p = &comps.back();
		return v;
	case OpCompValue: case OpCompFn:
		need(1);
		if (a[0].k != V::Comp) throw LispError();
		return op == OpCompValue ? ((MComp *) a[0].p)->value : ((MComp *) a[0].p)->fn;
	case OpSetCompValue: case OpSetCompFn:
		need(2);
		if (a[0].k != V::Comp) throw LispError();
		effect();
		(op == OpSetCompValue ? ((MComp *) a[0].p)->value : ((MComp *) a[0].p)->fn) = a[1];
		return a[0];
	case OpConcat: {
		need(2);
		std::string s;
		for (auto &x : a) {
			if (x.k == V::Str) s += strBytes(x);
			else if (x.k == V::Sym && ((MSym *) x.p)->gen < 0 && !x.len) s += ((MSym *) x.p)->name;
			else if (x.k == V::Sym) throw ModelBudget();
			else throw LispError();
		}
		return str(s);
	}
	case OpSubstring: {
		need(3);
		if (a[0].k != V::Str || a[1].k != V::Int || a[2].k != V::Int) throw LispError();
		size_t n = strLen(a[0]);
		if (a[1].i < 0 || (size_t) a[1].i > n || a[2].i < 0 || (size_t) a[2].i > n || a[2].i < a[1].i) throw LispError();
		v = a[0];
		v.len = a[0].off + a[2].i;
		v.off = a[0].off + a[1].i;
		return v;
	}
	case OpMakeString: {
		need(1);
		std::string s;
		if (a[0].k == V::Vec) {
			for (size_t i = a[0].off; a[0].p && i < vec(a[0])->length; i++) {
				if (vec(a[0])->v[i].k != V::Int) throw LispError();
				s += (char) vec(a[0])->v[i].i;
			}
			return str(s);
		}
		if (a[0].k != V::List || cyclic(a[0])) throw LispError();
		V c = a[0];
		while (c.k == V::List && c.p) {
			if (cell(c)->car.k != V::Int) throw LispError();
			s += (char) cell(c)->car.i;
			c = cell(c)->cdr;
		}
		if (c.k != V::List) throw LispError();
		return str(s);
	}
	case OpSymbolString:
		need(1);
		if (a[0].k != V::Sym) throw LispError();
		if (((MSym *) a[0].p)->gen >= 0 || a[0].len) throw ModelBudget();
		return str(((MSym *) a[0].p)->name);
	case OpSymbolId: need(1); throw ModelBudget();
	default: throw ModelBudget();
	}
}

// ------------------------------------------------------------------------------------------------ rendering
namespace {
struct MRender {
	std::map<const void *, int> seen;
	std::vector<std::string> &genNames;
	std::string out;
	int nodes = 0;
	bool label(const void *p) {
		auto it = seen.find(p);
		if (it != seen.end()) { out += "#" + std::to_string(it->second); return false; }
		int n = (int) seen.size();
		seen[p] = n;
		out += "#" + std::to_string(n);
		return true;
	}
	void obj(const V &v, int depth = 0) {
		if (++nodes > 20000 || depth > 2000) throw ModelBudget();
		switch (v.k) {
		case V::Bool: out += v.i ? "true" : "false"; break;
		case V::Int: out += std::to_string((long long) v.i); break;
		case V::Flt: out += fmtFloat(v.f); break;
		case V::Str: out += '"' + escapeBytes(strBytes(v)) + '"'; break;
		case V::Sym: {
			MSym *s = (MSym *) v.p;
			if (v.len) { out += "'<id of " + escapeBytes(s->name) + ">"; break; }
			if (s->gen < 0) { out += "'" + escapeBytes(s->name.size() > 1 && s->name[0] == '#' ? s->name.substr(1) : s->name); break; }
			std::string g = std::to_string(s->gen);
			size_t i = 0;
			while (i < genNames.size() && genNames[i] != g) i++;
			if (i == genNames.size()) genNames.push_back(g);
			out += "<gen " + std::to_string(i) + ">";
			break;
		}
		case V::Fun: out += "<callback>"; break;
		case V::Clo: {
			MClo *c = (MClo *) v.p;
			out += "<closure " + std::to_string(c->params.size() - (c->variadic ? 1 : 0)) + (c->variadic ? "+>" : ">");
			break;
		}
		case V::Type: out += "<type " + std::to_string(v.i) + ">"; break;
		case V::User: out += "<user " + std::to_string(v.i) + ">"; break;
		case V::Comp: {
			MComp *c = (MComp *) v.p;
			if (label(c)) {
				out += "{" + std::to_string(c->type) + " ";
				obj(c->value, depth + 1);
				out += " ";
				obj(c->fn, depth + 1);
				out += "}";
			}
			break;
		}
		case V::Vec: {
			MVec *m = (MVec *) v.p;
			if (!m) { out += "[]"; break; }
			if (label(m)) {
				out += "[";
				for (size_t i = 0; i < m->length; i++) { if (i) out += ' '; obj(m->v[i], depth + 1); }
				out += "]";
			}
			if (v.off) out += "+" + std::to_string(v.off);
			break;
		}
		case V::List: {
			MCons *c = (MCons *) v.p;
			if (!c) { out += "()"; break; }
			if (!label(c)) break;
			out += "(";
			while (true) {
				if (++nodes > 20000) throw ModelBudget();
				obj(c->car, depth + 1);
				V d = c->cdr;
				if (d.k == V::List && !d.p) break;
				if (d.k == V::List && !seen.count(d.p)) {
					out += " ";
					int n = (int) seen.size();
					seen[d.p] = n;
					c = (MCons *) d.p;
					continue;
				}
				out += " . ";
				if (d.k == V::List) label(d.p);
				else obj(d, depth + 1);
				break;
			}
			out += ")";
		}
		}
	}
};
}
std::string Model::render(const V &v) {
	MRender r{{}, genNames};
	r.obj(v);
	return r.out;
}

std::string Model::observeWith(const std::vector<V> &st, MVM &m, const std::vector<std::string> &names) {
	MRender r{{}, genNames};
	for (auto &v : st) { r.obj(v); r.out += " | "; }
	r.out += "# ";
	for (auto &n : names) {
		r.out += n + "=";
		auto g = m.globals.find(n);
		if (g == m.globals.end()) r.out += "?"; else r.obj(g->second);
		r.out += "; ";
	}
	return r.out;
}
std::string Model::observe(MVM &m, const std::vector<std::string> &names) {
	MRender r{{}, genNames};
	for (auto &n : names) {
		r.out += n + "=";
		auto g = m.globals.find(n);
		if (g == m.globals.end()) r.out += "?"; else r.obj(g->second);
		r.out += "; ";
	}
	return r.out;
}
namespace {
// Visits everything reachable, closures' variables included. Numbers each node by first visit.
struct Deep {
	std::map<const void *, int> seen;
	std::set<int64_t> users;
	std::string out;
	bool text;
	std::vector<V> todo;
	size_t visits = 0;
	bool node(const void *p, const char *what) {
		auto it = seen.find(p);
		if (it != seen.end()) { if (text) out += "^" + std::to_string(it->second) + " "; return false; }
		int n = (int) seen.size();
		seen[p] = n;
		if (text) out += what;
		return true;
	}
	void visit(const V &first) {
		todo.push_back(first);
		while (!todo.empty()) {
			V v = todo.back();
			todo.pop_back();
			visits++;
			switch (v.k) {
			case V::List:
				if (!v.p) { if (text) out += "nil "; break; }
				if (node(v.p, "cons ")) { todo.push_back(((MCons *) v.p)->cdr); todo.push_back(((MCons *) v.p)->car); }
				break;
			case V::Vec:
				if (!v.p) { if (text) out += "[] "; break; }
				if (text) out += std::to_string(v.off) + "+";
				if (node(v.p, "vec ")) {
					MVec *m = (MVec *) v.p;
					if (text) out += std::to_string(m->length) + " ";
					for (size_t i = 0; i < m->length; i++) todo.push_back(m->v[i]);
				}
				break;
			case V::Comp:
				if (node(v.p, "comp ")) {
					MComp *c = (MComp *) v.p;
					if (text) out += std::to_string(c->type) + " ";
					todo.push_back(c->fn); todo.push_back(c->value);
				}
				break;
			case V::Clo:
				if (node(v.p, "clo ")) {
					MClo *c = (MClo *) v.p;
					if (text) { for (auto &x : c->params) out += x + ","; for (Node *b : c->body) out += printNode(b); }
					for (MEnv *e = c->env; e; e = e->next) if (node(e, "env ")) { if (text) out += e->name; todo.push_back(e->v); } else break;
				}
				break;
			case V::User: users.insert(v.i); if (text) out += "user" + std::to_string(v.i) + " "; break;
			case V::Str: if (text) out += "\"" + strBytes(v) + "\" "; break;
			case V::Sym: if (text) { MSym *s = (MSym *) v.p; out += v.len ? "id " : ""; out += s->gen >= 0 ? "gen" + std::to_string(s->gen) : s->name; out += " "; } break;
			case V::Flt: if (text) out += fmtFloat(v.f) + " "; break;
			case V::Fun: if (text) out += "fun" + ((MSym *) v.p)->name + " "; break;
			default: if (text) out += std::to_string((int) v.k) + ":" + std::to_string(v.i) + " "; break;
			}
		}
	}
};
}
std::string Model::fingerprint() {
	Deep d;
	d.text = true;
	for (MVM *m : {&run, &ct}) {
		d.out += "vm" + std::to_string(m->nextType) + " ";
		for (auto &g : m->globals) { d.out += g.first + "="; d.visit(g.second); }
	}
	d.out += "t" + std::to_string(tick) + "u" + std::to_string(users) + "g" + std::to_string(gens.size());
	for (auto &s : scripts) d.out += s ? "s" : "-";
	return d.out;
}
size_t Model::reachableValues() {
	Deep d;
	d.text = false;
	for (auto &g : run.globals) d.visit(g.second);
	return d.visits;
}
std::set<int64_t> Model::reachableUsers() {
	Deep d;
	d.text = false;
	for (MVM *m : {&run, &ct}) for (auto &g : m->globals) d.visit(g.second);
	return d.users;
}

#include "ops.h"
#include <cmath>
#include <cstring>
#ifdef DSIM_POOL
extern "C" dl_error_t dsim_dl_free(dl_memoryAllocation_t *ma, void **memory);
#define dl_free dsim_dl_free
#endif

std::vector<ApiOp> parseOps(const std::string &t) {
	std::vector<ApiOp> v;
	size_t i = 0;
	auto ws = [&]() { while (i < t.size() && (t[i] == ' ' || t[i] == ';')) i++; };
	while (true) {
		ws();
		if (i >= t.size()) return v;
		ApiOp o;
		while (i < t.size() && t[i] != ' ' && t[i] != ';') o.name += t[i++];
		int n = 0;
		while (i < t.size() && t[i] != ';') {
			if (t[i] == ' ') { i++; continue; }
			std::string w;
			if (t[i] == '\'') {  // text up to the next quote
				i++;
				while (i < t.size() && t[i] != '\'') w += t[i++];
				i++;
				o.s = w;
				continue;
			}
			while (i < t.size() && t[i] != ' ' && t[i] != ';') w += t[i++];
			if (o.name == "flt" || o.name == "setflt") { o.f = atof(w.c_str()); continue; }
			if (!w.empty() && (isdigit((unsigned char) w[0]) || w[0] == '-')) (n++ ? o.b : o.a) = strtoll(w.c_str(), nullptr, 10);
			else o.s = w;
		}
		v.push_back(o);
	}
}
namespace {
// Operations that look below the top of the stack.
bool usesIndex(const std::string &n) { return n == "push" || n == "copytop" || n == "setfirst" || n == "setrest" || n == "setcval" || n == "setcfn" || n == "setelem"; }
int64_t indexOf(const ApiOp &o) { return o.name == "setelem" ? o.b : o.a; }
// What a callback may do to the stack is up to what was given to it.
bool allowed(const ApiOp &o, size_t depth) {
	if (usesIndex(o.name)) { int64_t i = indexOf(o); return i < 0 && (size_t) -i <= depth; }
	if (o.name == "pop") return depth > 1;
	if (o.name == "popn") return o.a >= 0 && (size_t) o.a < depth;
	if (o.name == "popall") return false;
	if (o.name == "call") return o.a >= 0 && (size_t) o.a + 1 <= depth;
	return depth > 0;
}
std::string strip(const std::string &s) { return s.size() > 1 && s[0] == '#' ? s.substr(1) : s; }
}
dl_error_t realOp(Inst &in, duckVM_t *v, const ApiOp &o, size_t base, bool callback, std::string &text) {
	const std::string &n = o.name;
	dl_error_t e = dl_error_ok;
	size_t depth = duckVM_stackLength(v) - base;
	if (callback && !allowed(o, depth)) { text = "skip"; return e; }
	// The variables of closures are theirs alone.
	duckVM_object_t *stack = (duckVM_object_t *) v->stack.elements;
	size_t len = v->stack.elements_length;
	auto closureAt = [&](int64_t i) {
		if (i < 0) i += (int64_t) len;
		return i >= 0 && (size_t) i < len && stack[i].type == duckVM_object_type_closure;
	};
	if ((n == "first" || n == "elem" || n == "len" || n == "empty") && closureAt(-1)) { text = "skip"; return e; }
	if ((n == "setfirst" || n == "setelem") && closureAt(indexOf(o))) { text = "skip"; return e; }
	auto symbolId = [&](const std::string &name, dl_size_t *id) {
		dl_ptrdiff_t k = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) name.data(), name.size());
		if (k < 0) {
			bool a = g_seam.active;
			g_seam.active = false;
			dl_error_t f = duckLisp_symbol_create(&in.dl, (const dl_uint8_t *) name.data(), name.size());
			g_seam.active = a;
			if (f) throw Violation("a symbol cannot be made");
			k = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) name.data(), name.size());
			if (k < 0) throw Violation("a new symbol has no number");
		}
		*id = (dl_size_t) k;
	};
	if (n == "push") return duckVM_push(v, o.a);
	if (n == "pop") return duckVM_pop(v);
	if (n == "popn") return duckVM_popSeveral(v, (dl_size_t) o.a);
	if (n == "popall") return duckVM_popAll(v);
	if (n == "copytop") return duckVM_copyFromTop(v, o.a);
	if (n == "typeof") {
		duckVM_object_type_t t;
		if ((e = duckVM_typeOf(v, &t))) return e;
		text = std::to_string((int) t);
		return e;
	}
	if (n == "is") {
		static dl_error_t (*const f[])(duckVM_t *, dl_bool_t *) = {
			duckVM_isNone, duckVM_isBoolean, duckVM_isInteger, duckVM_isFloat, duckVM_isString, duckVM_isSymbol, duckVM_isType, duckVM_isComposite,
			duckVM_isList, duckVM_isNil, duckVM_isCons, duckVM_isVector, duckVM_isClosure, duckVM_isUser};
		for (auto g : f) {
			dl_bool_t b = 77;
			if ((e = g(v, &b))) return e;
			text += b == 0 ? '0' : b == 1 ? '1' : '?';
		}
		return e;
	}
	if (n == "empty") { dl_bool_t b = 77; if ((e = duckVM_isEmpty(v, &b))) return e; text = std::to_string((int) b); return e; }
	if (n == "len") { dl_size_t k = 777; if ((e = duckVM_length(v, &k))) return e; text = std::to_string(k); return e; }
	if (n == "pbool") return duckVM_pushBoolean(v);
	if (n == "pint") return duckVM_pushInteger(v);
	if (n == "pflt") return duckVM_pushFloat(v);
	if (n == "setbool") return duckVM_setBoolean(v, (dl_bool_t) (o.a != 0));
	if (n == "setint") return duckVM_setInteger(v, o.a);
	if (n == "setflt") return duckVM_setFloat(v, o.f);
	if (n == "getbool") { dl_bool_t b = 77; if ((e = duckVM_copyBoolean(v, &b))) return e; text = std::to_string((int) b); return e; }
	if (n == "getint") { dl_ptrdiff_t k = 777; if ((e = duckVM_copySignedInteger(v, &k))) return e; text = std::to_string((long long) k); return e; }
	if (n == "getuint") { dl_size_t k = 777; if ((e = duckVM_copyUnsignedInteger(v, &k))) return e; text = std::to_string((unsigned long long) k); return e; }
	if (n == "getflt") { double k = 777; if ((e = duckVM_copyFloat(v, &k))) return e; text = fmtFloat(k); return e; }
	if (n == "str") {
		// The bytes are the VM's own afterwards.
		std::string copy = o.s;
		e = duckVM_pushString(v, (dl_uint8_t *) copy.data(), copy.size());
		for (auto &c : copy) c = '!';
		return e;
	}
	if (n == "getstr") {
		dl_uint8_t *p = (dl_uint8_t *) &e;
		dl_size_t k = 777;
		if ((e = duckVM_copyString(v, &p, &k))) return e;
		if (!p && k) throw Violation("a string of nonzero length was copied to nowhere");
		if (p) {
			text.assign((char *) p, k);
			if (DL_FREE(v->memoryAllocation, &p)) throw Violation("the copy of a string cannot be freed");
		}
		text = escapeBytes(text);
		return e;
	}
	if (n == "sym" || n == "csym") {
		dl_size_t id;
		symbolId(o.s, &id);
		if (n == "sym") { std::string copy = o.s; e = duckVM_pushSymbol(v, id, (dl_uint8_t *) copy.data(), copy.size()); for (auto &c : copy) c = '!'; return e; }
		in.compressed[id] = o.s;
		return duckVM_pushCompressedSymbol(v, id);
	}
	if (n == "getsym") {
		dl_size_t id = 777, k = 777;
		dl_uint8_t *p = (dl_uint8_t *) &e;
		if ((e = duckVM_copySymbolId(v, &id))) return e;
		if ((e = duckVM_copySymbolName(v, &p, &k))) return e;
		std::string name;
		if (!p && k) throw Violation("a name of nonzero length was copied to nowhere");
		if (p) {
			name.assign((char *) p, k);
			if (DL_FREE(v->memoryAllocation, &p)) throw Violation("the copy of a name cannot be freed");
		}
		if (!name.empty() && !name[0]) { text = "<gen>"; return e; }
		text = escapeBytes(strip(name));
		std::string full = name.empty() && in.compressed.count(id) ? in.compressed[id] : name;
		if (in.dlUp && full != "" && full == strip(full)) {
			dl_ptrdiff_t want = duckLisp_symbol_nameToValue(&in.dl, (const dl_uint8_t *) full.data(), full.size());
			if (want < 0 || (dl_size_t) want != id) throw Violation("the symbol named " + escapeBytes(full) + " has number " + std::to_string(id) + " and the compiler knows " + std::to_string(want));
		}
		return e;
	}
	if (n == "newtype") return duckVM_pushNewType(v);
	if (n == "type") return duckVM_pushExistingType(v, (dl_size_t) o.a);
	if (n == "gettype") { dl_size_t k = 777; if ((e = duckVM_copyType(v, &k))) return e; text = g_brokenSources ? "?" : std::to_string(k); return e; }
	if (n == "comp") return duckVM_pushComposite(v, (dl_size_t) o.a);
	if (n == "getctype") { dl_size_t k = 777; if ((e = duckVM_copyCompositeType(v, &k))) return e; text = g_brokenSources ? "?" : std::to_string(k); return e; }
	if (n == "cval") return duckVM_pushCompositeValue(v);
	if (n == "cfn") return duckVM_pushCompositeFunction(v);
	if (n == "setcval") return duckVM_setCompositeValue(v, o.a);
	if (n == "setcfn") return duckVM_setCompositeFunction(v, o.a);
	if (n == "nil") return duckVM_pushNil(v);
	if (n == "cons") return duckVM_pushCons(v);
	if (n == "vec") return duckVM_pushVector(v, (dl_size_t) o.a);
	if (n == "first") return o.a ? duckVM_pushCar(v) : duckVM_pushFirst(v);
	if (n == "rest") return o.a ? duckVM_pushCdr(v) : duckVM_pushRest(v);
	if (n == "setfirst") return o.b ? duckVM_setCar(v, o.a) : duckVM_setFirst(v, o.a);
	if (n == "setrest") return o.b ? duckVM_setCdr(v, o.a) : duckVM_setRest(v, o.a);
	if (n == "elem") return duckVM_pushElement(v, o.a);
	if (n == "setelem") return duckVM_setElement(v, o.a, o.b);
	if (n == "arity") {
		dl_uint8_t k = 77;
		dl_bool_t b = 77;
		dl_ptrdiff_t name;
		if ((e = duckVM_copyClosureArity(v, &k))) return e;
		if ((e = duckVM_copyClosureIsVariadic(v, &b))) return e;
		if ((e = duckVM_copyClosureName(v, &name))) return e;
		text = std::to_string((int) k) + (b == 1 ? "+" : b == 0 ? "" : "?");
		return e;
	}
	if (n == "pushg" || n == "setg") {
		dl_size_t id;
		symbolId(o.s, &id);
		return n == "pushg" ? duckVM_pushGlobal(v, (dl_ptrdiff_t) id) : duckVM_setGlobal(v, (dl_ptrdiff_t) id);
	}
	if (n == "gc") return duckVM_garbageCollect(v);
	if (n == "call") {
		if (o.a < 0 || o.a > 250) throw ModelBudget();
		if (callback && in.nestedCalls > 12) return dl_error_bufferOverflow;
		in.nestedCalls++;
		size_t before = duckVM_stackLength(v);
		e = duckVM_call(v, -1 - o.a, (dl_uint8_t) o.a);
		in.nestedCalls--;
		if (!e && duckVM_stackLength(v) != before - (size_t) o.a + 1)
			throw Violation("a call from the host did not replace its arguments by one result: stack went from " + std::to_string(before) + " to " + std::to_string(duckVM_stackLength(v)));
		return e;
	}
	throw std::runtime_error("unknown host operation " + n);
}
bool modelOp(Model &m, MVM &vm, std::vector<V> &st, const ApiOp &o, bool callback, std::string &text) {
	const std::string &n = o.name;
	if (callback && !allowed(o, st.size())) { text = "skip"; return true; }
	auto at = [&](int64_t i) -> V * {
		if (i < 0) i += (int64_t) st.size();
		return i >= 0 && (size_t) i < st.size() ? &st[i] : nullptr;
	};
	auto vec = [](const V &v) { return (MVec *) v.p; };
	auto cell = [](const V &v) { return (MCons *) v.p; };
	auto vlen = [&](const V &v) -> size_t { return v.p && v.off < vec(v)->length ? vec(v)->length - v.off : 0; };
	auto slen = [](const V &v) -> size_t { return v.p ? v.len - v.off : 0; };
	auto push = [&](const V &v) { st.push_back(v); return true; };
	V *top = st.empty() ? nullptr : &st.back();
	if ((n == "first" || n == "elem" || n == "len" || n == "empty") && top && top->k == V::Clo) { text = "skip"; return true; }
	if (n == "setfirst" || n == "setelem") { V *x = at(indexOf(o)); if (x && x->k == V::Clo) { text = "skip"; return true; } }
	auto element = [&](const V &s, int64_t k, V *out) {
		if (s.k == V::List) {
			if (k < 0) return false;
			V c = s;
			while (k-- > 0 && c.k == V::List && c.p) c = cell(c)->cdr;
			if (c.k != V::List || !c.p) return false;
			*out = cell(c)->car;
			return true;
		}
		if (s.k == V::Vec) { if (k < 0 || (size_t) k >= vlen(s)) return false; *out = vec(s)->v[s.off + k]; return true; }
		if (s.k == V::Str) { if (k < 0 || (size_t) k >= slen(s)) return false; *out = V::n((unsigned char) ((MStr *) s.p)->s[s.off + k]); return true; }
		return false;
	};
	auto setElement = [&](const V &s, int64_t k, const V &x) {
		if (s.k == V::List) {
			if (k < 0) return false;
			V c = s;
			while (k-- > 0 && c.k == V::List && c.p) c = cell(c)->cdr;
			if (c.k != V::List || !c.p) return false;
			m.effect();
			cell(c)->car = x;
			return true;
		}
		if (s.k == V::Vec) { if (k < 0 || (size_t) k >= vlen(s)) return false; m.effect(); vec(s)->v[s.off + k] = x; return true; }
		return false;
	};
	if (n == "push") { V *x = at(o.a); if (!x) return false; V y = *x; return push(y); }
	if (n == "pop") { if (!top) return false; st.pop_back(); return true; }
	if (n == "popn") { if (o.a < 0 || (size_t) o.a > st.size()) return false; st.resize(st.size() - (size_t) o.a); return true; }
	if (n == "popall") { st.clear(); return true; }
	if (n == "copytop") { V *x = at(o.a); if (!x || !top) return false; *x = *top; return true; }
	if (n == "nil") return push(V::nil());
	if (n == "pbool") return push(V::b(false));
	if (n == "pint") return push(V::n(0));
	if (n == "pflt") return push(V::d(0));
	if (n == "str") return push(m.str(o.s));
	if (n == "sym" || n == "csym") { V v = m.sym(o.s); if (n == "csym") v.len = 1; return push(v); }
	if (n == "newtype") { m.effect(); V v; v.k = V::Type; v.i = vm.nextType++; return push(v); }
	if (n == "type") { V v; v.k = V::Type; v.i = o.a; return push(v); }
	if (n == "comp") return push(m.makeComp(o.a));
	if (n == "cons") return push(m.makeCons());
	if (n == "vec") return push(m.makeVec((size_t) o.a));
	if (n == "pushg") { auto g = vm.globals.find(o.s); if (g == vm.globals.end()) return false; return push(g->second); }
	if (n == "gc") return true;
	// The rest needs something on the stack.
	if (n == "call") {
		if (o.a < 0 || (size_t) o.a + 1 > st.size()) return false;
		V f = st[st.size() - 1 - (size_t) o.a];
		std::vector<V> args(st.end() - o.a, st.end());
		V r = m.callValue(vm, f, args);
		st.resize(st.size() - (size_t) o.a);
		return push(r);
	}
	if (!top) return false;
	V x = *top;
	static const int num[] = {duckVM_object_type_bool, duckVM_object_type_integer, duckVM_object_type_float, duckVM_object_type_symbol,
	                          duckVM_object_type_string, duckVM_object_type_list, duckVM_object_type_vector, duckVM_object_type_composite,
	                          duckVM_object_type_closure, duckVM_object_type_function, duckVM_object_type_type, duckVM_object_type_user};
	if (n == "typeof") { text = std::to_string(num[x.k]); return true; }
	if (n == "is") {
		bool b[] = {false, x.k == V::Bool, x.k == V::Int, x.k == V::Flt, x.k == V::Str, x.k == V::Sym, x.k == V::Type, x.k == V::Comp,
		            x.k == V::List, x.k == V::List && !x.p, x.k == V::List && x.p, x.k == V::Vec, x.k == V::Clo, x.k == V::User};
		for (bool y : b) text += y ? '1' : '0';
		return true;
	}
	if (n == "empty") {
		bool b = x.k == V::List ? !x.p : x.k == V::Vec ? !vlen(x) : x.k == V::Str ? !slen(x) : false;
		text = b ? "1" : "0";
		return true;
	}
	if (n == "len") {
		if (x.k == V::Vec) { text = std::to_string(vlen(x)); return true; }
		if (x.k == V::Str) { text = std::to_string(slen(x)); return true; }
		if (x.k != V::List) return false;
		std::set<void *> seen;
		V c = x;
		while (c.k == V::List && c.p) { if (!seen.insert(c.p).second) return false; c = cell(c)->cdr; }
		text = std::to_string(seen.size());
		return true;
	}
	if (n == "setbool") { if (x.k != V::Bool) return false; top->i = o.a != 0; return true; }
	if (n == "setint") { if (x.k != V::Int) return false; top->i = o.a; return true; }
	if (n == "setflt") { if (x.k != V::Flt) return false; top->f = o.f; return true; }
	if (n == "getbool") { if (x.k != V::Bool) return false; text = std::to_string(x.i); return true; }
	if (n == "getint") { if (x.k != V::Int) return false; text = std::to_string((long long) x.i); return true; }
	if (n == "getuint") { if (x.k != V::Int) return false; text = std::to_string((unsigned long long) x.i); return true; }
	if (n == "getflt") { if (x.k != V::Flt) return false; text = fmtFloat(x.f); return true; }
	if (n == "getstr") { if (x.k != V::Str) return false; text = escapeBytes(x.p ? ((MStr *) x.p)->s.substr(x.off, x.len - x.off) : ""); return true; }
	if (n == "getsym") {
		if (x.k != V::Sym) return false;
		MSym *s = (MSym *) x.p;
		text = s->gen >= 0 ? "<gen>" : x.len ? "" : escapeBytes(strip(s->name));
		return true;
	}
	if (n == "gettype") { if (x.k != V::Type) return false; text = std::to_string(x.i); return true; }
	if (n == "getctype") { if (x.k != V::Comp) return false; text = std::to_string(((MComp *) x.p)->type); return true; }
	if (n == "cval") { if (x.k != V::Comp) return false; return push(((MComp *) x.p)->value); }
	if (n == "cfn") { if (x.k != V::Comp) return false; return push(((MComp *) x.p)->fn); }
	if (n == "setcval" || n == "setcfn") {
		V *c = at(o.a);
		if (!c || c->k != V::Comp) return false;
		m.effect();
		(n == "setcval" ? ((MComp *) c->p)->value : ((MComp *) c->p)->fn) = x;
		return true;
	}
	if (n == "first") {
		if (x.k == V::List) return push(x.p ? cell(x)->car : V::nil());
		V y;
		if (!element(x, 0, &y)) return false;
		return push(y);
	}
	if (n == "rest") {
		if (x.k == V::List) return push(x.p ? cell(x)->cdr : V::nil());
		if (x.k != V::Vec && x.k != V::Str) return false;
		size_t l = x.k == V::Vec ? vlen(x) : slen(x);
		if (!l) return false;
		V y;
		y.k = x.k;
		if (l > 1) { y = x; y.off++; }
		return push(y);
	}
	if (n == "setfirst") { V *s = at(o.a); if (!s) return false; return setElement(*s, 0, x); }
	if (n == "setrest") {
		V *s = at(o.a);
		if (!s || s->k != V::List || !s->p) return false;
		m.effect();
		cell(*s)->cdr = x;
		return true;
	}
	if (n == "elem") { V y; if (!element(x, o.a, &y)) return false; return push(y); }
	if (n == "setelem") { V *s = at(o.b); if (!s) return false; return setElement(*s, o.a, x); }
	if (n == "arity") {
		if (x.k != V::Clo) return false;
		MClo *c = (MClo *) x.p;
		text = std::to_string(c->params.size() - (c->variadic ? 1 : 0)) + (c->variadic ? "+" : "");
		return true;
	}
	if (n == "setg") { m.effect(); vm.globals[o.s] = x; return true; }
	throw std::runtime_error("unknown host operation " + n);
}

#include "ops.h"
#ifdef DSIM_POOL
// The host frees what the library hands it through the same seam.
extern "C" dl_error_t dsim_dl_free(dl_memoryAllocation_t *ma, void **memory);
#define dl_free dsim_dl_free
#endif
#include <cmath>
#include <cstring>
#include <algorithm>
#include <sanitizer/asan_interface.h>

// A source that is broken may call a host function with too few arguments, which the host has to look out for itself, and
// may have used up numbers of types before it was rejected.
bool g_brokenSources = false;

Inst *g_cur = nullptr;

std::string errName(int e) {
	static const char *n[] = {"ok", "invalidValue", "bufferUnderflow", "bufferOverflow", "nullPointer", "danglingPointer",
	                          "outOfMemory", "shouldntHappen", "cantHappen"};
	return e >= 0 && e < 9 ? n[e] : "error" + std::to_string(e);
}
std::string escapeBytes(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '\\' || c == '"') { o += '\\'; o += (char) c; }
		else if (c >= 32 && c < 127) o += (char) c;
		else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	return o;
}
std::string fmtFloat(double d) {
	if (std::isnan(d)) return "nan";
	char b[64];
	snprintf(b, sizeof b, "%.17g", d);
	std::string s = b;
	if (s.find_first_of(".en") == std::string::npos) s += ".0";
	return s;
}

GcPolicy GcPolicy::parse(const std::string &s) {
	GcPolicy p;
	if (s == "none" || s.empty()) return p;
	if (s == "every") { p.kind = Every; return p; }
	if (s.compare(0, 5, "rand:") == 0) {
		unsigned long long seed; unsigned n, d;
		if (sscanf(s.c_str() + 5, "%llu:%u:%u", &seed, &n, &d) != 3) throw std::runtime_error("bad gc policy");
		p.kind = Random; p.rng = Rng(seed); p.num = n; p.den = d;
		return p;
	}
	if (s.compare(0, 3, "at:") == 0) {
		p.kind = At;
		size_t i = 3;
		while (i < s.size()) {
			size_t j = s.find(',', i);
			if (j == std::string::npos) j = s.size();
			p.at.insert(std::stoull(s.substr(i, j - i)));
			i = j + 1;
		}
		return p;
	}
	throw std::runtime_error("bad gc policy " + s);
}

// ---------------------------------------------------------------------------------------------- hooks

static void unpoisonHeap(duckVM_t *vm) {
	if (vm->gclist.objects) ASAN_UNPOISON_MEMORY_REGION(vm->gclist.objects, vm->gclist.objects_length * sizeof(duckVM_object_t));
}
static void poisonFree(duckVM_t *vm) {
	for (size_t i = 0; i < vm->gclist.freeObjects_length; i++)
		ASAN_POISON_MEMORY_REGION(vm->gclist.freeObjects[i], sizeof(duckVM_object_t));
}
extern "C" {
dl_bool_t duckLispSim_forceCollection(duckVM_t *) {
	Inst *in = g_cur;
	if (!in) return 0;
	uint64_t n = in->objectAllocs++;
	bool f = false;
	switch (in->gc.kind) {
	case GcPolicy::None: break;
	case GcPolicy::Every: f = true; break;
	case GcPolicy::Random: f = in->gc.rng.below(in->gc.den) < in->gc.num; break;
	case GcPolicy::At: f = in->gc.at.count(n) != 0; break;
	}
	if (f) { in->forcedCollections++; g_counters["gc_forced"]++; if (in->forcedAt.size() < 100000) in->forcedAt.push_back(n); }
	return f;
}
void duckLispSim_collectionBegin(duckVM_t *vm) { unpoisonHeap(vm); }
void duckLispSim_collectionEnd(duckVM_t *vm, dl_error_t e) {
	if (g_cur) { g_cur->collections++; if (e) g_cur->failedCollections++; else if (!vm->gclist.freeObjects_length) g_cur->exhausted++; }
	g_counters["gc_total"]++;
	if (!e) poisonFree(vm);
	if (!e && g_cur && g_cur->regrow && !vm->gclist.freeObjects_length) throw Regrow();
}
void duckLispSim_objectAllocated(duckVM_t *, duckVM_object_t *o) {
	ASAN_UNPOISON_MEMORY_REGION(o, sizeof *o);
	// A freshly handed out slot has no meaning of its own.
	memset(o, 0xA5, sizeof *o);
}
dl_error_t duckLispSim_step(duckVM_t *) {
	Inst *in = g_cur;
	if (!in) return dl_error_ok;
	in->steps++;
	in->opSteps++;
	if (g_yield) { g_yield(); in = g_cur; }
	if (in->cutAt && in->opSteps >= in->cutAt) { in->cutDone = true; g_counters["abort_at_instruction"]++; return dl_error_shouldntHappen; }
	if (in->opSteps > in->stepBudget) {
		in->cutDone = true;
		throw Violation("no progress: instruction budget exceeded");
	}
	return dl_error_ok;
}
}

// ---------------------------------------------------------------------------------------------- rendering

namespace {
struct Renderer {
	duckVM_t *vm;
	std::vector<std::string> *genNames;
	std::map<size_t, std::string> *compressed = nullptr;
	std::unordered_map<const void *, int> seen;
	std::string out;
	int nodes = 0;
	void check(const duckVM_object_t *p, const char *what) {
		if (p < vm->gclist.objects || p >= vm->gclist.objects + vm->gclist.objects_length)
			throw Violation(std::string(what) + " is not an object of this VM's heap");
	}
	bool label(const void *p) {
		auto it = seen.find(p);
		if (it != seen.end()) { out += "#" + std::to_string(it->second); return false; }
		int n = (int) seen.size();
		seen[p] = n;
		out += "#" + std::to_string(n);
		return true;
	}
	void str(const duckVM_string_t &s) {
		if (!s.internalString) { if (s.length) throw Violation("a string of nonzero length has no bytes"); return; }
		check(s.internalString, "string contents");
		if (s.internalString->type != duckVM_object_type_internalString) throw Violation("string contents have another type");
		auto &is = s.internalString->value.internalString;
		if (s.offset < 0 || (size_t) s.offset > s.length || s.length > is.value_length) throw Violation("a string reaches past its contents");
		out += escapeBytes(std::string((const char *) is.value + s.offset, s.length - s.offset));
	}
	void obj(const duckVM_object_t &o, int depth = 0) {
		if (++nodes > 20000 || depth > 2000) { out += "..."; return; }
		switch (o.type) {
		case duckVM_object_type_bool: out += o.value.boolean ? "true" : "false"; break;
		case duckVM_object_type_integer: out += std::to_string((long long) o.value.integer); break;
		case duckVM_object_type_float: out += fmtFloat(o.value.floatingPoint); break;
		case duckVM_object_type_string: out += '"'; str(o.value.string); out += '"'; break;
		case duckVM_object_type_symbol: {
			duckVM_object_t *s = o.value.symbol.internalString;
			if (s) {
				check(s, "symbol name");
				if (s->type != duckVM_object_type_internalString) throw Violation("symbol name has another type");
				if (genNames && s->value.internalString.value_length && !s->value.internalString.value[0]) {
					std::string g((const char *) s->value.internalString.value, s->value.internalString.value_length);
					size_t i = std::find(genNames->begin(), genNames->end(), g) - genNames->begin();
					if (i == genNames->size()) genNames->push_back(g);
					out += "<gen " + std::to_string(i) + ">";
					break;
				}
				out += '\'';
				out += escapeBytes(std::string((const char *) s->value.internalString.value, s->value.internalString.value_length));
			}
			else if (compressed && compressed->count(o.value.symbol.id)) out += "'<id of " + escapeBytes((*compressed)[o.value.symbol.id]) + ">";
			else out += "'<id " + std::to_string(o.value.symbol.id) + ">";
			break;
		}
		case duckVM_object_type_function: out += "<callback>"; break;
		case duckVM_object_type_closure:
			out += "<closure " + std::to_string(o.value.closure.arity) + (o.value.closure.variadic ? "+>" : ">");
			break;
		case duckVM_object_type_type: out += g_brokenSources ? "<type>" : "<type " + std::to_string(o.value.type) + ">"; break;
		case duckVM_object_type_list: list(o.value.list, depth); break;
		case duckVM_object_type_cons: list(&o, depth); break;
		case duckVM_object_type_vector: {
			duckVM_object_t *iv = o.value.vector.internal_vector;
			if (!iv) { out += "[]"; break; }
			check(iv, "vector storage");
			if (iv->type != duckVM_object_type_internalVector) throw Violation("vector storage has another type");
			auto &v = iv->value.internal_vector;
			if (label(iv)) {
				out += "[";
				for (size_t i = 0; i < v.length; i++) {
					if (i) out += ' ';
					ptr(v.values[i], depth + 1);
				}
				out += "]";
			}
			if (o.value.vector.offset) out += "+" + std::to_string(o.value.vector.offset);
			break;
		}
		case duckVM_object_type_composite: {
			duckVM_object_t *c = o.value.composite;
			if (!c) throw Violation("null composite");
			check(c, "composite");
			if (c->type != duckVM_object_type_internalComposite) throw Violation("composite contents have another type");
			if (label(c)) {
				out += "{" + (g_brokenSources ? std::string("?") : std::to_string(c->value.internalComposite.type)) + " ";
				ptr(c->value.internalComposite.value, depth + 1);
				out += " ";
				ptr(c->value.internalComposite.function, depth + 1);
				out += "}";
			}
			break;
		}
		case duckVM_object_type_user: {
			duckVM_object_t *inner = (duckVM_object_t *) o.value.user.data;
			check(inner, "host object");
			if (inner->type != duckVM_object_type_user) throw Violation("host object contents have another type");
			UserObj *u = (UserObj *) inner->value.user.data;
			out += "<user " + std::to_string(u->id) + ">";
			if (u->destroyed) throw Violation("a reachable host object was destroyed");
			break;
		}
		default: throw Violation("an object of internal type " + std::to_string((int) o.type) + " is visible to the host");
		}
	}
	void ptr(const duckVM_object_t *p, int depth) {
		if (!p) { out += "()"; return; }
		check(p, "an element");
		if (p->type == duckVM_object_type_cons) list(p, depth);
		else obj(*p, depth);
	}
	void list(const duckVM_object_t *c, int depth) {
		if (!c) { out += "()"; return; }
		check(c, "a cons");
		if (c->type != duckVM_object_type_cons) throw Violation("a list does not begin with a cons");
		if (!label(c)) return;
		out += "(";
		while (true) {
			if (++nodes > 20000) { out += "..."; break; }
			ptr(c->value.cons.car, depth + 1);
			const duckVM_object_t *d = c->value.cons.cdr;
			if (!d) break;
			check(d, "a cdr");
			if (d->type == duckVM_object_type_list && !d->value.list) break;
			if (d->type == duckVM_object_type_list) d = d->value.list;
			if (d->type == duckVM_object_type_cons && !seen.count(d)) {
				out += " ";
				seen[d] = (int) seen.size();
				c = d;
				continue;
			}
			out += " . ";
			if (d->type == duckVM_object_type_cons) label(d);
			else obj(*d, depth + 1);
			break;
		}
		out += ")";
	}
};
}

std::string Inst::render(const duckVM_object_t &o, duckVM_t *v) {
	Renderer r{v ? v : &vm, &genNames, &compressed};
	r.obj(o);
	return r.out;
}
std::string Inst::observe(duckVM_t *v, const std::vector<std::string> &names, const std::map<std::string, dl_ptrdiff_t> &keys, bool stack) {
	CurScope c(this);
	Renderer r{v, &genNames, &compressed};
	if (stack) {
		for (size_t i = 0; i < v->stack.elements_length; i++) { r.obj(((duckVM_object_t *) v->stack.elements)[i]); r.out += " | "; }
		r.out += "# ";
	}
	for (auto &n : names) {
		r.out += n + "=";
		auto k = keys.find(n);
		size_t before = duckVM_stackLength(v);
		dl_error_t e = dl_error_invalidValue;
		if (k != keys.end()) e = duckVM_pushGlobal(v, k->second);
		if (e) r.out += "?";
		else {
			if (duckVM_stackLength(v) != before + 1) throw Violation("reading a global did not push one value");
			r.obj(((duckVM_object_t *) v->stack.elements)[v->stack.elements_length - 1]);
			if (duckVM_pop(v)) throw Violation("the value of a global cannot be popped");
		}
		if (duckVM_stackLength(v) != before) throw Violation("reading a global that is not there changed the stack");
		r.out += "; ";
	}
	return r.out;
}
duckVM_object_t *Inst::top(size_t below) {
	if (vm.stack.elements_length <= below) return nullptr;
	return &((duckVM_object_t *) vm.stack.elements)[vm.stack.elements_length - 1 - below];
}
std::string Inst::errorText(dl_array_t &a) { return std::string((const char *) a.elements, a.elements_length); }

// ---------------------------------------------------------------------------------------------- callbacks

#define NEED(n) do { if (g_brokenSources && v->stack.elements_length < (n)) return dl_error_bufferUnderflow; } while (0)
static duckVM_object_t *vmTop(duckVM_t *v, size_t below = 0) {
	if (v->stack.elements_length <= below) throw Violation("a callback was entered with fewer arguments than it was given");
	return &((duckVM_object_t *) v->stack.elements)[v->stack.elements_length - 1 - below];
}
static void event(duckVM_t *v, const std::string &s) {
	g_cur->events.push_back((v == &g_cur->dl.vm ? "C:" : "") + s);
}
#define TRY(x) do { dl_error_t e_ = (x); if (e_) return e_; } while (0)
extern "C" {
// (emit x): the host records x and returns it.
static dl_error_t cb_emit(duckVM_t *v) {
	NEED(1);
	event(v, g_cur->render(*vmTop(v), v));
	return dl_error_ok;
}
// (emit2 a b): the host records both and returns a.
static dl_error_t cb_emit2(duckVM_t *v) {
	NEED(2);
	event(v, g_cur->render(*vmTop(v, 1), v) + " , " + g_cur->render(*vmTop(v, 0), v));
	return duckVM_pop(v);
}
// (tick): an integer that grows by one each time.
static dl_error_t cb_tick(duckVM_t *v) {
	TRY(duckVM_pushInteger(v));
	TRY(duckVM_setInteger(v, ++g_cur->tick));
	return dl_error_ok;
}
static dl_error_t cb_hostgc(duckVM_t *v) {
	TRY(duckVM_garbageCollect(v));
	g_counters["gc_from_callback"]++;
	return duckVM_pushNil(v);
}
static dl_error_t cb_hostfail(duckVM_t *v) {
	NEED(1);
	event(v, "fail " + g_cur->render(*vmTop(v), v));
	g_counters["callback_failure"]++;
	return dl_error_invalidValue;
}
// (host-call0 f) (host-call1 f a) (host-call2 f a b): the host calls back into the script.
static dl_error_t hostCall(duckVM_t *v, int n) {
	NEED((size_t) n + 1);
	if (g_cur->nestedCalls > 12) return dl_error_bufferOverflow;
	g_cur->nestedCalls++;
	g_counters["host_calls"]++;
	size_t before = duckVM_stackLength(v);
	dl_error_t e = duckVM_call(v, -1 - n, (dl_uint8_t) n);
	g_cur->nestedCalls--;
	if (e) return e;
	size_t after = duckVM_stackLength(v);
	if (after != before - (size_t) n + 1) throw Violation("a call from the host did not replace its arguments by one result: stack went from "
	                                                   + std::to_string(before) + " to " + std::to_string(after));
	// stack: function result
	TRY(duckVM_copyFromTop(v, -2));
	return duckVM_pop(v);
}
static dl_error_t cb_call0(duckVM_t *v) { return hostCall(v, 0); }
static dl_error_t cb_call1(duckVM_t *v) { return hostCall(v, 1); }
static dl_error_t cb_call2(duckVM_t *v) { return hostCall(v, 2); }

static dl_error_t userDestructor(duckVM_gclist_t *, duckVM_object_t *o) {
	UserObj *u = (UserObj *) o->value.user.data;
	if (u->destroyed++) throw Violation("the destructor of host object " + std::to_string(u->id) + " ran twice");
	g_counters["destructors"]++;
	return dl_error_ok;
}
static dl_error_t userMarker(duckVM_gclist_t *, dl_array_t *dispatch, duckVM_object_t *o) {
	return dl_array_pushElement(dispatch, &o->value.user.data);
}
// (mkuser): a new host object.
static dl_error_t cb_mkuser(duckVM_t *v) {
	std::unique_ptr<UserObj> u(new UserObj{(int) g_cur->users.size(), v == &g_cur->dl.vm});
	duckVM_object_t *inner = nullptr;
	TRY(duckVM_allocateHeapObject(v, &inner, duckVM_object_makeUser(u.get(), nullptr, userDestructor)));
	g_cur->users.push_back(std::move(u));
	duckVM_object_t outer = duckVM_object_makeUser(inner, userMarker, nullptr);
	return duckVM_object_push(v, &outer);
}

// (host-ops text x): the host does what the text says with x, and returns what is on top of the stack at the end.
static dl_error_t cb_ops(duckVM_t *v) {
	NEED(2);
	size_t base = duckVM_stackLength(v) - 2;
	dl_uint8_t *p = nullptr;
	dl_size_t n = 0;
	duckVM_object_t text;
	text = *vmTop(v, 1);
	if (text.type != duckVM_object_type_string || !text.value.string.internalString) return dl_error_invalidValue;
	auto &is = text.value.string.internalString->value.internalString;
	std::string ops((const char *) is.value + text.value.string.offset, text.value.string.length - text.value.string.offset);
	(void) p; (void) n;
	for (auto &o : parseOps(ops)) {
		std::string told;
		uint64_t injected = g_seam.injected, exhausted = g_cur->exhausted;
		dl_error_t e = realOp(*g_cur, v, o, base, true, told);
		g_counters["host_operations"]++;
		// What a script does wrong in a call is its own failure, and so is running out of memory.
		if (e && (o.name == "call" || g_seam.injected != injected || g_cur->exhausted != exhausted || g_cur->cutDone)) return e;
		std::string top = g_cur->render(*vmTop(v), v);
		event(v, o.name + (e ? " error" : " " + told) + " > " + top);
		size_t len = duckVM_stackLength(v);
		if (len <= base) throw Violation("a host operation took more from the stack than it was asked for");
		event(v, std::to_string(len - base));
	}
	size_t depth = duckVM_stackLength(v) - base;
	if (depth > 1) {
		TRY(duckVM_copyFromTop(v, -(dl_ptrdiff_t) depth));
		TRY(duckVM_popSeveral(v, depth - 1));
	}
	return dl_error_ok;
}
}

struct CbDef { const char *name; dl_error_t (*fn)(duckVM_t *); const char *type; };
static const CbDef callbacks[] = {
	{"emit", cb_emit, "(I)"}, {"emit2", cb_emit2, "(I I)"}, {"tick", cb_tick, "()"}, {"host-gc", cb_hostgc, "()"},
	{"host-fail", cb_hostfail, "(I)"}, {"host-call0", cb_call0, "(I)"}, {"host-call1", cb_call1, "(I I)"},
	{"host-call2", cb_call2, "(I I I)"}, {"mkuser", cb_mkuser, "()"}, {"host-ops", cb_ops, "(I I)"},
};

// ---------------------------------------------------------------------------------------------- life cycle

dl_error_t Inst::initCompiler() {
	CurScope c(this);
	if (maUse == &ma && !maUp) {
		poolMem = malloc(cfg.poolBytes);
		dl_error_t e = dl_memory_init(&ma, poolMem, cfg.poolBytes, cfg.fit);
		if (e) { free(poolMem); poolMem = nullptr; return e; }
		maUp = true;
#ifdef DSIM_POOL
		ASAN_POISON_MEMORY_REGION(poolMem, cfg.poolBytes);
#endif
	}
	memset(&dl, 0, sizeof dl);
	dlUp = true;
	dl_error_t e = duckLisp_init(&dl, maUse, cfg.comptimeObjects
#ifdef USE_PARENTHESIS_INFERENCE
	                             , cfg.inferenceObjects
#endif
	                             );
	if (e) return e;
	dl.disassemble = cfg.disassemble;
	if (dl.vm.gclist.objects && dl.vm.gclist.freeObjects) poisonFree(&dl.vm);
	if ((e = linkAll())) return e;
	// With many names in use the numbers of later ones need wider instructions.
	for (size_t i = 0; i < cfg.names; i++) {
		std::string n = "host-name-" + std::to_string(i);
		if ((e = duckLisp_symbol_create(&dl, (const dl_uint8_t *) n.data(), n.size()))) return e;
	}
	return dl_error_ok;
}
dl_error_t Inst::linkAll() {
	for (auto &c : callbacks) {
		dl_error_t e = duckLisp_linkCFunction(&dl, c.fn, (dl_uint8_t *) c.name, strlen(c.name)
#ifdef USE_PARENTHESIS_INFERENCE
		                                      , (dl_uint8_t *) c.type, strlen(c.type)
#endif
		                                      );
		if (e) return e;
	}
	return dl_error_ok;
}
dl_error_t Inst::initVM() {
	CurScope c(this);
	memset(&vm, 0, sizeof vm);
	vmUp = true;
	dl_error_t e = duckVM_init(&vm, maUse, cfg.vmObjects);
	if (e) return e;
	poisonFree(&vm);
	for (auto &c : callbacks) {
		dl_ptrdiff_t key = duckLisp_symbol_nameToValue(&dl, (const dl_uint8_t *) c.name, strlen(c.name));
		if (key < 0) throw Violation(std::string("the linked callback ") + c.name + " has no symbol");
		e = duckVM_linkCFunction(&vm, key, c.fn);
		if (e) return e;
	}
	return e;
}
void Inst::quitVM() {
	CurScope c(this);
	if (vmUp) duckVM_quit(&vm);
	vmUp = false;
}
void Inst::quitCompiler() {
	CurScope c(this);
	if (dlUp) duckLisp_quit(&dl);
	dlUp = false;
}
void Inst::quitPool() {
	if (maUp) {
#ifdef DSIM_POOL
		ASAN_UNPOISON_MEMORY_REGION(poolMem, cfg.poolBytes);
#endif
		dl_memory_quit(&ma);
		free(poolMem);
		maUp = false;
	}
}
dl_error_t Inst::load(const std::string &source, std::string *bytecode, const std::string &file) {
	CurScope c(this);
	std::string src = source;
	// With parenthesis inference every name has to be declared. A program that has all of its parentheses means the same.
	if (cfg.inference && !declared.empty() && src.compare(0, 3, "(()") == 0) src.insert(3, declared);
	dl_uint8_t *b = nullptr;
	dl_size_t n = 0;
	// The source is exactly as long as it says: a private copy shows over-reads.
	char *copy = (char *) malloc(src.size() + 1);
	memcpy(copy, src.data(), src.size());
	copy[src.size()] = 0;
	if (exactSource) ASAN_POISON_MEMORY_REGION(copy + src.size(), 1);
	dl_error_t e;
	try {
		e = duckLisp_loadString(&dl,
#ifdef USE_PARENTHESIS_INFERENCE
		                        (dl_bool_t) cfg.inference,
#endif
		                        &b, &n, (const dl_uint8_t *) copy, src.size(), (const dl_uint8_t *) file.data(), file.size());
	} catch (...) { free(copy); throw; }
	free(copy);
	if (!e) {
		bytecode->assign((const char *) b, n);
		dl_error_t f = DL_FREE(maUse, &b);
		if (f) throw Violation("the bytecode of a successful load cannot be freed");
	}
	return e;
}
dl_error_t Inst::exec(const std::string &bytecode) {
	CurScope c(this);
	if (g_shareCode) {
		std::shared_ptr<std::string> &p = g_sharedCode[bytecode];
		if (!p) p = std::make_shared<std::string>(bytecode);
		std::shared_ptr<std::string> hold = p;
		return duckVM_execute(&vm, (dl_uint8_t *) hold->data(), hold->size());
	}
	// Bytecode lives in a block of its own that goes away after the call.
	dl_uint8_t *copy = (dl_uint8_t *) malloc(bytecode.size() ? bytecode.size() : 1);
	memcpy(copy, bytecode.data(), bytecode.size());
	dl_error_t e;
	try { e = duckVM_execute(&vm, copy, bytecode.size()); }
	catch (...) { free(copy); throw; }
	free(copy);
	return e;
}

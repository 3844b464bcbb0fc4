// A small executable reference model of the language: what scripts mean, without stack, heap, collector or bytecode.
#pragma once
#include "seam.h"
#include <deque>
#include <memory>
#include <functional>

struct Node {
	int lit = -1;  // a literal condition selects a branch when it is compiled
	enum Kind { Sym, Int, Flt, Str, Bool, FnRef, List } kind = List;
	std::string s;
	int64_t i = 0;
	double f = 0;
	std::vector<Node *> kids;
	int op = 0;  // what the head of a list means, filled in by the expansion pass
};
struct NodeArena {
	std::deque<Node> all;
	Node *make(Node::Kind k) { all.emplace_back(); all.back().kind = k; return &all.back(); }
};
struct ReadError : std::runtime_error { using std::runtime_error::runtime_error; };
Node *readForm(NodeArena &a, const std::string &src);
std::string printNode(const Node *n);

struct MCons; struct MVec; struct MComp; struct MStr; struct MClo; struct MEnv;
struct V {
	enum Kind : uint8_t { Bool, Int, Flt, Sym, Str, List, Vec, Comp, Clo, Fun, Type, User } k = List;
	int64_t i = 0;   // bool, int, type number, user id
	double f = 0;
	void *p = nullptr;
	size_t off = 0, len = 0;
	static V nil() { return V(); }
	static V b(bool x) { V v; v.k = Bool; v.i = x; return v; }
	static V n(int64_t x) { V v; v.k = Int; v.i = x; return v; }
	static V d(double x) { V v; v.k = Flt; v.f = x; return v; }
};
struct MCons { V car, cdr; };
struct MVec { std::vector<V> v; size_t length = 0; };
struct MComp { int64_t type; V value, fn; };
struct MStr { std::string s; };
struct MSym { std::string name; int64_t gen = -1; };
struct MClo { std::vector<std::string> params; bool variadic = false; std::vector<Node *> body; MEnv *env = nullptr; };
struct MEnv { std::string name; bool fn; V v; MEnv *next; };
struct MMacro { std::string name; MClo *clo; MMacro *next; };

struct LispError {};   // the operation reports an error
struct CutHere {};     // the operation was stopped from outside here
struct ModelBudget {}; // the program is too long to be used

struct MVM {  // what belongs to one virtual machine
	std::map<std::string, V> globals;
	int64_t nextType = 0;
	bool comptime = false;
	void reset();
};

struct Model {
	// history
	std::vector<std::string> events;
	int64_t tick = 0, users = 0;
	int nested = 0;
	// faults: stop before the effect with this number
	int64_t cut = -1;
	int64_t effects = 0;
	uint64_t steps = 0, maxSteps = 60000;
	MVM run, ct;
	std::vector<Node *> scripts;
	std::vector<std::string> genNames;

	Model();
	void resetRuntime();   // a new virtual machine
	void restart();        // a new compiler and a new virtual machine
	void afterOp() { nested = 0; cur = nullptr; cut = -1; }
	void failedLoad(size_t before) { scripts.resize(before); scripts.push_back(nullptr); }
	void beginOp(int64_t cut_) { cut = cut_; effects = 0; steps = 0; nested = 0; }
	// Throws LispError / CutHere. The events say what happened before.
	void load(const std::string &src);                 // appends to scripts
	V exec(Node *root);
	V call(const std::string &global, const std::vector<V> &args);
	V callValue(MVM &m, const V &f, const std::vector<V> &args);
	std::string render(const V &v);
	std::string observe(MVM &m, const std::vector<std::string> &names);
	std::string fingerprint();                         // everything later behaviour depends on
	size_t reachableValues();                          // how many values the globals lead to
	std::set<int64_t> reachableUsers();                // host objects something may still refer to
	V sym(const std::string &name);
	V str(const std::string &s);
	V makeComp(int64_t type) { comps.push_back(MComp{type, V(), V()}); V v; v.k = V::Comp; v.p = &comps.back(); return v; }
	V makeCons() { return cons(V(), V()); }
	V makeVec(size_t n) { vecs.emplace_back(); vecs.back().v.resize(n); vecs.back().length = n; V v; v.k = V::Vec; v.p = &vecs.back(); return v; }
	void effect() { if (effects++ == cut) { effects--; throw CutHere(); } }
	// A stack and every named global, rendered together.
	std::string observeWith(const std::vector<V> &st, MVM &m, const std::vector<std::string> &names);
private:
	NodeArena nodes;
	std::deque<MCons> conses; std::deque<MVec> vecs; std::deque<MComp> comps; std::deque<MStr> strs; std::deque<MClo> clos;
	std::deque<MEnv> envs; std::deque<MSym> gens; std::deque<MMacro> macros;
	std::map<std::string, std::unique_ptr<MSym>> syms;
	MVM *cur = nullptr;
	void step() { if (++steps > maxSteps) throw ModelBudget(); }
	MEnv *bind(const std::string &n, bool fn, const V &v, MEnv *next) { envs.push_back(MEnv{n, fn, v, next}); return &envs.back(); }
	V cons(const V &a, const V &d) { conses.push_back(MCons{a, d}); V v; v.p = &conses.back(); return v; }
	// expansion
	Node *expand(Node *n, MMacro *&m);
	void expandBody(Node *n, size_t from, MMacro *m);
	Node *expandedCopy(Node *n);
	Node *toNode(const V &v, bool macro);
	V fromNode(Node *n);
	// evaluation
	V eval(Node *n, MEnv *&env);
	V evalBody(const std::vector<Node *> &body, size_t from, MEnv *env);
	V quoted(Node *n);
	V callback(const std::string &name, const std::vector<V> &args);
	V apply(const V &f, std::vector<V> args, const V &rest);
	V prim(int op, const std::vector<V> &a);
	V closure(Node *n, size_t params, MEnv *env);
	static bool truthy(const V &v);
	static MEnv *find(MEnv *e, const std::string &n, bool fn) { for (; e; e = e->next) if ((!fn || e->fn) && e->name == n) return e; return nullptr; }
};
bool isCallbackName(const std::string &s, bool comptime);

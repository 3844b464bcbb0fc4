// One simulated installation of duck-lisp: compiler, compile-time VM, run-time VM, host callbacks.
#pragma once
#include "seam.h"
#include <functional>
#include <memory>
#include <ucontext.h>
extern "C" {
#include "duckLisp.h"
#include "duckVM.h"
}

struct GcPolicy {
	enum Kind { None, Every, Random, At } kind = None;
	Rng rng{1};
	unsigned num = 0, den = 1;
	std::set<uint64_t> at;
	static GcPolicy parse(const std::string &s);  // none | every | rand:SEED:NUM:DEN | at:1,2,3
};

struct Regrow {};  // the run needs a larger heap

struct UserObj { int id; bool comptime = false; int destroyed = 0; duckVM_object_t *slot = nullptr; };

struct InstCfg {
	size_t vmObjects = 1000, comptimeObjects = 1000, inferenceObjects = 1000, poolBytes = 1 << 20;
	dl_memoryFit_t fit = dl_memoryFit_best;
	size_t names = 0;  // how many names the host makes first
	bool disassemble = false;  // the compiler keeps a listing of what it compiles
	bool inference = false;  // pass parenthesisInferenceEnabled
};

struct Inst {
	int id = 0;
	InstCfg cfg;
	dl_memoryAllocation_t ma{};
	dl_memoryAllocation_t *maUse = &ma;   // may be another instance's, when they share an allocator
	bool maUp = false;
	void *poolMem = nullptr;
	duckLisp_t dl{};
	bool dlUp = false;
	duckVM_t vm{};
	bool vmUp = false;
	// schedule
	GcPolicy gc;
	uint64_t objectAllocs = 0, collections = 0, forcedCollections = 0, failedCollections = 0, exhausted = 0;
	std::vector<uint64_t> forcedAt;
	uint64_t steps = 0, stepBudget = 5000000, cutAt = 0, opSteps = 0;  // cutAt: stop the operation before this instruction
	bool cutDone = false;
	std::string declared;  // declarations for parenthesis inference
	bool regrow = false;  // try again with a larger heap instead of running out of objects
	// history
	std::vector<std::string> events;
	int tick = 0;
	std::vector<std::unique_ptr<UserObj>> users;
	int nestedCalls = 0;
	std::vector<std::string> genNames;   // generated symbols in order of first appearance
	std::map<size_t, std::string> compressed;  // symbols without names, by number
	bool exactSource = false;  // nothing readable follows the source
	std::vector<std::string> linked;
	Inst() {}
	Inst(const Inst &) = delete;
	dl_error_t initCompiler();
	dl_error_t initVM();
	void quitVM();
	void quitCompiler();
	dl_error_t linkAll();
	void quitPool();
	dl_error_t load(const std::string &src, std::string *bytecode, const std::string &file = "dsim");
	dl_error_t exec(const std::string &bytecode);
	std::string render(const duckVM_object_t &o, duckVM_t *v = nullptr);
	std::string errorText(dl_array_t &a);
	// Every named global of a VM, rendered together so that shared structure shows.
	std::string observe(duckVM_t *v, const std::vector<std::string> &names, const std::map<std::string, dl_ptrdiff_t> &keys, bool stack = false);
	size_t stackLen() { return duckVM_stackLength(&vm); }
	duckVM_object_t *top(size_t below = 0);
};
extern Inst *g_cur;
// Instances of one simulation may share an allocator and the memory their bytecode lies in.
extern dl_memoryAllocation_t *g_sharedMa;
extern size_t g_heapScale;
extern bool g_genInfer;
extern bool g_shareCode;
extern std::map<std::string, std::shared_ptr<std::string>> g_sharedCode;
struct CurScope {
	Inst *old; int oldOwner;
	explicit CurScope(Inst *i) : old(g_cur), oldOwner(g_seam.owner) { g_cur = i; g_seam.owner = i->id; }
	~CurScope() { g_cur = old; g_seam.owner = oldOwner; }
};

std::string escapeBytes(const std::string &s);
std::string fmtFloat(double d);
std::string errName(int e);
extern bool g_brokenSources;

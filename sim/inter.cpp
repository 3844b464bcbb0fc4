// P10: several installations in one process, each on a fiber of its own; a seeded scheduler switches between them at
// instructions, allocations, releases, collections and callbacks. Each has to behave as if it were alone.
#include "scen.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstring>
#include <cxxabi.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>

std::function<void()> g_yield;
dl_memoryAllocation_t *g_sharedMa = nullptr;
std::map<std::string, std::shared_ptr<std::string>> g_sharedCode;
bool g_shareCode = false;

namespace {
const size_t stackSize = 16u << 20;
std::vector<char *> stackPool;
struct OpState {  // what of the seam belongs to the operation that is going on
	bool active = false; uint64_t requests = 0, injected = 0; std::vector<FaultWindow> plan; uint64_t failAbove = 0; bool failForever = false; int owner = 0;
	Inst *cur = nullptr;
	char eh[16] = {0};
	void save() {
		active = g_seam.active; requests = g_seam.requests; injected = g_seam.injected; plan = g_seam.plan; failAbove = g_seam.failAbove; failForever = g_seam.failForever;
		owner = g_seam.owner; cur = g_cur; memcpy(eh, abi::__cxa_get_globals(), sizeof eh);
	}
	void load() {
		g_seam.active = active; g_seam.requests = requests; g_seam.injected = injected; g_seam.plan = plan; g_seam.failAbove = failAbove; g_seam.failForever = failForever;
		g_seam.owner = owner; g_cur = cur; memcpy(abi::__cxa_get_globals(), eh, sizeof eh);
	}
};
struct Fiber {
	ucontext_t ctx{};
	char *stack = nullptr;
	Scenario sc;
	RunLog log;
	bool done = false, regrow = false, budget = false;
	std::string violation;
	OpState st;
	void *fake = nullptr;
};
struct Sched {
	std::vector<std::unique_ptr<Fiber>> f;
	ucontext_t main{};
	OpState mainSt;
	void *mainFake = nullptr;
	const void *mainBottom = nullptr;
	size_t mainSize = 0;
	int cur = -1;
	Rng rng{1};
	uint64_t num = 0, den = 1, switches = 0, maxSwitches = 0, points = 0, from = 0;
	uint64_t trace = 1469598103934665603ull;
};
Sched *S = nullptr;

void toFiber(int k) {  // from the main context
	Fiber &t = *S->f[k];
	S->mainSt.save();
	S->cur = k;
	t.st.load();
	__sanitizer_start_switch_fiber(&S->mainFake, t.stack, stackSize);
	swapcontext(&S->main, &t.ctx);
	__sanitizer_finish_switch_fiber(S->mainFake, nullptr, nullptr);
	S->mainSt.load();
}
void toMain(bool last) {
	Fiber &t = *S->f[S->cur];
	t.st.save();
	__sanitizer_start_switch_fiber(last ? nullptr : &t.fake, S->mainBottom, S->mainSize);
	swapcontext(&t.ctx, &S->main);
	__sanitizer_finish_switch_fiber(t.fake, nullptr, nullptr);
}
void entry() {
	__sanitizer_finish_switch_fiber(nullptr, &S->mainBottom, &S->mainSize);
	Fiber &t = *S->f[S->cur];
	try { runLang(t.sc, t.log); }
	catch (Violation &v) { t.violation = v.what(); }
	catch (Regrow &) { t.regrow = true; }
	catch (ModelBudget &) { t.budget = true; }
	catch (std::exception &e) { t.violation = std::string("internal: ") + e.what(); }
	t.done = true;
	toMain(true);
}
void yieldPoint() {
	if (!S || S->cur < 0 || !g_cur) return;  // only the code under test is preempted
	if (S->points++ < S->from || S->switches >= S->maxSwitches) return;
	if (S->rng.below(S->den) >= S->num) return;
	S->switches++;
	toMain(false);
}
}
void runInterleave(const Scenario &s, RunLog &log) {
	int n = (int) s.num("n", 2);
	bool small = s.num("small", 0) != 0;
	struct Scale { ~Scale() { g_heapScale = 1; } } scale;
	for (int round = 0; round < 3; round++) {
		g_heapScale = round == 2 ? 8 : 1;
		Sched sched;
		S = &sched;
		sched.rng = Rng(s.num("sched", 1));
		sched.num = s.num("num", 0); sched.den = s.num("den", 1);
		sched.from = s.num("from", 0);
		sched.maxSwitches = s.num("switches", 1000000);
		g_sharedCode.clear();
		g_shareCode = true;
		uint64_t budget = g_seam.opBudget;
		g_seam.resetAll();
		g_seam.opBudget = budget;
		std::string fill = s.get("fill", "a5");
		std::unique_ptr<Inst> keeper;
#ifdef DSIM_POOL
		// One allocator for all of them.
		if (s.num("share", 0)) {
			keeper.reset(new Inst);
			keeper->cfg.poolBytes = 16u << 20;
			keeper->poolMem = malloc(keeper->cfg.poolBytes);
			if (dl_memory_init(&keeper->ma, keeper->poolMem, keeper->cfg.poolBytes, dl_memoryFit_best)) throw std::runtime_error("pool");
			keeper->maUp = true;
			ASAN_POISON_MEMORY_REGION(keeper->poolMem, keeper->cfg.poolBytes);
			g_sharedMa = &keeper->ma;
		}
#endif
		for (int i = 0; i < n; i++) {
			std::unique_ptr<Fiber> f(new Fiber);
			std::string p = std::to_string(i) + ".";
			f->sc.head = s.head;
			for (auto &h : s.head) if (h.first.compare(0, p.size(), p) == 0) f->sc.head[h.first.substr(p.size())] = h.second;
			f->sc.head["id"] = std::to_string(i + 1);
			if (small && round == 0) f->sc.head["small"] = std::to_string(s.num("small")); else f->sc.head.erase("small");
			for (auto &st : s.steps) {
				std::string k = st.opt.count("inst") ? st.opt.at("inst") : "0";
				if (k == std::to_string(i)) f->sc.steps.push_back(st);
			}
			f->log.trace = log.trace;
			f->log.prefix = "[" + std::to_string(i) + "] ";
			if (stackPool.size() <= (size_t) i) {
				char *m = (char *) mmap(nullptr, stackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (m == MAP_FAILED) throw std::runtime_error("no stack");
				stackPool.push_back(m);
			}
			f->stack = stackPool[i];
			ASAN_UNPOISON_MEMORY_REGION(f->stack, stackSize);
			getcontext(&f->ctx);
			f->ctx.uc_stack.ss_sp = f->stack;
			f->ctx.uc_stack.ss_size = stackSize;
			f->ctx.uc_link = nullptr;
			makecontext(&f->ctx, entry, 0);
			sched.f.push_back(std::move(f));
		}
		g_yield = yieldPoint;
		bool regrow = false, over = false;
		std::string violation;
		Rng pick(s.num("sched", 1) * 31 + 7);
		while (!over) {
			std::vector<int> ready;
			for (int i = 0; i < n; i++) if (!sched.f[i]->done) ready.push_back(i);
			if (ready.empty()) break;
			int k = ready[pick.below(ready.size())];
			sched.trace = hashBytes(&k, sizeof k, sched.trace);
			toFiber(k);
			sched.cur = -1;
			Fiber &f = *sched.f[k];
			if (f.done) {
				if (!f.violation.empty()) { violation = "instance " + std::to_string(k) + " of " + std::to_string(n) + ": " + f.violation; over = true; }
				if (f.regrow) { regrow = true; over = true; }
				if (f.budget) { g_yield = nullptr; S = nullptr; g_sharedMa = nullptr; g_shareCode = false; throw ModelBudget(); }
			}
		}
		g_yield = nullptr;
		S = nullptr;
		g_sharedMa = nullptr;
		g_shareCode = false;
		g_counters["preemptions"] += sched.switches;
		if (!violation.empty()) { keeper.release(); throw Violation(violation); }
		if (regrow && round < 2) {
			// The stacks hold unfinished work: leave them alone.
			stackPool.clear();
			keeper.release();
			g_counters["regrown"]++;
			continue;
		}
		if (keeper) keeper->quitPool();
		for (auto &f : sched.f) { log.digest = hashBytes(&f->log.digest, 8, log.digest); log.nontrivial |= f->log.nontrivial; if (f->log.outcome != "ok") log.outcome = f->log.outcome; }
		log.digest = hashBytes(&sched.trace, 8, log.digest);
		g_states.add(sched.trace);
		if (sched.switches < 2) log.nontrivial = false;
		if (log.outcome.empty()) log.outcome = "ok";
		for (auto &c : g_sharedCode) if (*c.second != c.first) throw Violation("execution changed bytecode that is shared by several VMs");
		g_sharedCode.clear();
		break;
	}
}
Scenario genInterleave(const std::string &prop, uint64_t seed, int tier) {
	Rng r(seed * 6364136223846793005ull + 99);
	Scenario s;
	int n = 2 + (int) r.below(3);
	s.head["n"] = std::to_string(n);
	s.head["sched"] = std::to_string(r.below(1000000000));
	s.head["num"] = "1";
	static const int dens[] = {1, 2, 3, 7, 20, 60, 200, 1000};
	s.head["den"] = std::to_string(dens[r.below(8)]);
	s.head["switches"] = std::to_string(r.chance(1, 2) ? 200 + r.below(2500) : 2 + r.below(200));
	if (r.chance(2, 3)) s.head["from"] = std::to_string(r.below(10) * (1ull << r.below(12)));
	static const char *fills[] = {"a5", "0", "ff", "rand"};
	s.head["fill"] = fills[r.below(4)];
	if (r.chance(4, 5)) s.head["small"] = std::to_string(400 + r.below(300));
	if (r.chance(1, 2)) s.head["share"] = "1";
	std::vector<Scenario> subs;
	for (int i = 0; i < n; i++) {
		Scenario x;
		if (i && r.chance(1, 2)) {
			x = subs[r.below(i)];  // the same bytecode on several VMs
			if (r.chance(1, 2) && x.steps.size() > 2) x.steps.resize(1 + r.below(x.steps.size()));
		}
		else {
			static const char *props[] = {"P10", "P10", "P10", "P05", "P09", "P06", "P12", "P14", "P07", "P08"};
			x = genLang(props[r.below(10)], seed * 8 + i, tier);
			while (x.steps.size() > 9) x.steps.pop_back();
		}
		subs.push_back(x);
	}
	std::string gl;
	for (int i = 0; i < n; i++) {
		std::string p = std::to_string(i) + ".";
		for (auto &h : subs[i].head) {
			if (h.first == "fill" || h.first == "small") continue;
			if (h.first == "globals") { s.head["globals"] = h.second; continue; }
			s.head[p + h.first] = h.second;
		}
		for (auto st : subs[i].steps) { st.opt["inst"] = std::to_string(i); s.steps.push_back(st); }
	}
	return s;
}

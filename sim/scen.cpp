#include "scen.h"
#include <sstream>

std::vector<std::string> splitWords(const std::string &s) {
	std::vector<std::string> v;
	std::istringstream i(s);
	std::string w;
	while (i >> w) v.push_back(w);
	return v;
}
static std::string esc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '\\') o += "\\\\";
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char) c;
	}
	return o;
}
static std::string unesc(const std::string &s) {
	std::string o;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
		i++;
		if (s[i] == 'n') o += '\n';
		else if (s[i] == 'x' && i + 2 < s.size()) { o += (char) std::stoi(s.substr(i + 1, 2), nullptr, 16); i += 2; }
		else o += s[i];
	}
	return o;
}
std::string Step::str() const {
	std::string o = op;
	for (auto &p : opt) o += " " + p.first + "=" + p.second;
	if (!arg.empty()) o += " | " + esc(arg);
	return o;
}
std::string Scenario::str() const {
	std::string o;
	for (auto &p : head) o += p.first + "=" + p.second + "\n";
	o += "--\n";
	for (auto &s : steps) o += s.str() + "\n";
	return o;
}
Scenario Scenario::parse(const std::string &text) {
	Scenario s;
	std::istringstream in(text);
	std::string l;
	bool body = false;
	while (std::getline(in, l)) {
		if (l.empty() || l[0] == '#') continue;
		if (!body) {
			if (l == "--") { body = true; continue; }
			size_t e = l.find('=');
			if (e == std::string::npos) throw std::runtime_error("bad header: " + l);
			s.head[l.substr(0, e)] = l.substr(e + 1);
			continue;
		}
		Step st;
		size_t bar = l.find(" | ");
		std::string left = bar == std::string::npos ? l : l.substr(0, bar);
		if (bar != std::string::npos) st.arg = unesc(l.substr(bar + 3));
		auto w = splitWords(left);
		if (w.empty()) continue;
		st.op = w[0];
		for (size_t i = 1; i < w.size(); i++) {
			size_t e = w[i].find('=');
			if (e == std::string::npos) st.opt[w[i]] = "1"; else st.opt[w[i].substr(0, e)] = w[i].substr(e + 1);
		}
		s.steps.push_back(st);
	}
	return s;
}
void parsePlan(const Step &s, std::vector<FaultWindow> &plan) {
	plan.clear();
	auto i = s.opt.find("alloc");
	if (i == s.opt.end()) return;
	std::string t = i->second;
	for (auto &c : t) if (c == ',') c = ' ';
	for (auto &w : splitWords(t)) {
		FaultWindow f;
		unsigned long long a = 0, b = 1;
		sscanf(w.c_str(), "%llu:%llu", &a, &b);
		f.first = a; f.count = b;
		plan.push_back(f);
	}
}
Plan::Plan(const Step &s, Inst *in_) : in(in_) {
	parsePlan(s, g_seam.plan);
	g_seam.failForever = s.opt.count("forever") != 0;
	g_seam.failAbove = s.opt.count("above") ? std::stoull(s.opt.at("above")) : 0;
	g_seam.beginOp();
	g_seam.active = true;
	if (in) {
		in->cutAt = s.opt.count("limit") ? std::stoull(s.opt.at("limit")) : 0;
		in->cutDone = false;
		in->opSteps = 0;
	}
}
Plan::~Plan() {
	if (g_seam.injected) g_counters["alloc_failure"] += g_seam.injected;
	g_seam.plan.clear();
	g_seam.failForever = false;
	g_seam.failAbove = 0;
	g_seam.active = false;
	if (in) in->cutAt = 0;
}
void checkComplaints(const char *when) {
	if (g_seam.complaints.empty()) return;
	std::string c = g_seam.complaints[0];
	g_seam.complaints.clear();
	throw Violation(std::string("allocator misuse: ") + c + " during " + when);
}
size_t g_heapScale = 1;
void setupInst(Inst &in, const Scenario &s, const std::string &p) {
	in.cfg.vmObjects = s.num(p + "heap", s.num("heap", 2000)) * g_heapScale;
	in.cfg.comptimeObjects = s.num(p + "ctheap", s.num("ctheap", 2000)) * g_heapScale;
#ifndef DSIM_POOL
	// Most runs need few objects, and collections of a small heap are quick.
	if (s.num("small")) { in.cfg.vmObjects = in.cfg.comptimeObjects = s.num("small"); }
#endif
	// A program whose data fills the heap gets a larger one, once.
	in.regrow = !s.num("oom", 0) && g_heapScale == 1;
	in.cfg.disassemble = s.num(p + "disassemble", s.num("disassemble", 0));
	in.cfg.names = s.num(p + "names", s.num("names", 0));
#ifdef DSIM_POOL
	in.cfg.names = std::min<size_t>(in.cfg.names, 300);
#endif
	in.cfg.inferenceObjects = s.num(p + "infheap", s.num("infheap", 1000));
	// The pool must never be what limits a program: long texts get a larger one.
	size_t longest = 0;
	for (auto &st : s.steps) longest = std::max(longest, st.arg.size());
	in.cfg.poolBytes = s.num(p + "pool", s.num("pool", longest > 8000 ? 64 << 20 : 8 << 20));
	std::string fit = s.get(p + "fit", s.get("fit", "best"));
	in.cfg.fit = fit == "first" ? dl_memoryFit_first : fit == "next" ? dl_memoryFit_next : fit == "worst" ? dl_memoryFit_worst : dl_memoryFit_best;
	in.gc = GcPolicy::parse(s.get(p + "gc", s.get("gc", "none")));
#ifdef USE_PARENTHESIS_INFERENCE
	in.cfg.inference = s.num("infer", 0);
	if (in.cfg.inference && s.get("kind") != "mal") {
		std::string g = s.get("globals");
		for (auto &c : g) if (c == ',') c = ' ';
		g += " a b x foo foobar fo long-symbol-name";
		for (auto &w : splitWords(g)) in.declared += " (declare " + w + " L)";
	}
#endif
	in.id = (int) s.num("id", 0);
	if (g_sharedMa) in.maUse = g_sharedMa;
	in.exactSource = s.num("exact", 0);
}
// What has to be true of a VM's object pool between any two operations.
void auditHeap(duckVM_t *vm) {
	auto &g = vm->gclist;
	if (!g.objects || !g.freeObjects) return;
	if (g.freeObjects_length > g.objects_length) throw Violation("heap: more free objects than objects");
	std::vector<char> seen(g.objects_length, 0);
	for (size_t i = 0; i < g.freeObjects_length; i++) {
		duckVM_object_t *o = g.freeObjects[i];
		if (o < g.objects || o >= g.objects + g.objects_length) throw Violation("heap: a free object lies outside of the heap");
		size_t k = o - g.objects;
		if (seen[k]++) throw Violation("heap: an object is free twice");
	}
}
void runScenario(const Scenario &s, RunLog &log) {
	std::string k = s.get("kind");
	if (k == "lang") {
		RunLog first = log;
		for (int level = s.num("small") ? 0 : 1; ; level++) {
			Scenario t = s;
			if (level) t.head.erase("small");
			g_heapScale = level == 2 ? 8 : 1;
			try { runLang(t, log); g_heapScale = 1; return; }
			catch (Regrow &) {
				uint64_t budget = g_seam.opBudget;
				g_seam.resetAll();
				g_seam.opBudget = budget;
				g_cur = nullptr;
				g_counters["regrown"]++;
				log = first;
			}
			catch (...) { g_heapScale = 1; throw; }
		}
	}
	else if (k == "inter") runInterleave(s, log);
	else if (k == "pool") runPool(s, log);
	else if (k == "cont") runContainers(s, log);
	else if (k == "api") runApi(s, log);
	else if (k == "sym") runSymbols(s, log);
	else if (k == "mal") runMalformed(s, log);
	else if (k == "twin") runTwin(s, log);
	else throw std::runtime_error("unknown kind " + k);
}

// Scenario files: everything that decides one run.
#pragma once
#include "core.h"
#include "model.h"

struct Step {
	std::string op;                            // run, load, exec, call, gc, ctgc, reset, newvm, restart, quitcomp, ...
	std::map<std::string, std::string> opt;    // alloc=3:1,7:2  above=BYTES  limit=N  inst=K ...
	std::string arg;
	std::string str() const;
};
struct Scenario {
	std::map<std::string, std::string> head;
	std::vector<Step> steps;
	std::string get(const std::string &k, const std::string &d = "") const { auto i = head.find(k); return i == head.end() ? d : i->second; }
	int64_t num(const std::string &k, int64_t d = 0) const { auto i = head.find(k); return i == head.end() ? d : std::stoll(i->second); }
	std::string str() const;
	static Scenario parse(const std::string &text);
};
std::vector<std::string> splitWords(const std::string &s);

// What a run did, for the evidence and for comparing runs.
struct RunLog {
	uint64_t digest = 1469598103934665603ull;
	bool trace = false;
	std::string prefix;
	bool nontrivial = false;
	std::string outcome;  // "ok", "truncated", ...
	void add(const std::string &s) {
		digest = hashStr(s, digest);
		if (trace) { fputs(prefix.c_str(), stdout); fputs(s.c_str(), stdout); fputc('\n', stdout); fflush(stdout); }
	}
};
struct Plan {  // sets the fault plan of one operation and clears it afterwards
	explicit Plan(const Step &s, Inst *in);
	~Plan();
	Inst *in;
};
void parsePlan(const Step &s, std::vector<FaultWindow> &plan);

void runScenario(const Scenario &s, RunLog &log);      // throws Violation
Scenario genScenario(const std::string &kind, const std::string &prop, uint64_t seed, const std::string &variant, int tier);

// One per kind of scenario
void runLang(const Scenario &, RunLog &);
void runInterleave(const Scenario &, RunLog &);
void runPool(const Scenario &, RunLog &);
void runContainers(const Scenario &, RunLog &);
void runApi(const Scenario &, RunLog &);
void runSymbols(const Scenario &, RunLog &);
void runMalformed(const Scenario &, RunLog &);
void runTwin(const Scenario &, RunLog &);
Scenario genLang(const std::string &prop, uint64_t seed, int tier);
Scenario genInterleave(const std::string &prop, uint64_t seed, int tier);
Scenario genPool(const std::string &prop, uint64_t seed, int tier);
Scenario genContainers(const std::string &prop, uint64_t seed, int tier);
std::string genOps(Rng &r, int n);
std::string oddForm(Rng &r, int depth = 1);  // a form whose arguments may not suit it
std::string oddScript(Rng &r);
Scenario genApi(const std::string &prop, uint64_t seed, int tier);
Scenario genSymbols(const std::string &prop, uint64_t seed, int tier);
Scenario genMalformed(const std::string &prop, uint64_t seed, int tier);
Scenario genTwin(const std::string &prop, uint64_t seed, int tier);
void setupInst(Inst &in, const Scenario &s, const std::string &prefix = "");
void checkComplaints(const char *when);
void auditHeap(duckVM_t *vm);

// dsim gen KIND PROP SEED TIER          prints a scenario
// dsim run FILE [trace]                 runs one scenario: exit 0, or 1 with "VIOLATION-SEEN class: message"
// dsim batch KIND PROP FIRST COUNT STRIDE TIER OUT SECONDS    runs many scenarios; stops at the first violation
#include "scen.h"
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <chrono>
#include <signal.h>
#define STR2(x) #x
#define STR1(x) STR2(x)
#define VARIANT_NAME STR1(DSIM_VARIANT)

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1:"
	       "symbolize=0:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=1:print_summary=1:detect_odr_violation=0";
}
static std::string slurp(const char *f) {
	std::ifstream i(f, std::ios::binary);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}
Scenario genScenario(const std::string &kind, const std::string &prop, uint64_t seed, const std::string &variant, int tier) {
	Scenario s;
	g_genInfer = false;
	if (kind == "lang") {

		(void) variant;
		s = genLang(prop, seed, tier);
		if (g_genInfer) s.head["infer"] = "1";
	}
	else if (kind == "inter") s = genInterleave(prop, seed, tier);
	else if (kind == "pool") s = genPool(prop, seed, tier);
	else if (kind == "cont") s = genContainers(prop, seed, tier);
	else if (kind == "api") s = genApi(prop, seed, tier);
	else if (kind == "sym") s = genSymbols(prop, seed, tier);
	else if (kind == "mal") s = genMalformed(prop, seed, tier);
	else if (kind == "twin") s = genTwin(prop, seed, tier);
	else throw std::runtime_error("unknown kind");
	if (kind != "pool" && kind != "cont") {
		Rng r(seed * 40503 + 977);
		if (r.chance(1, 12)) s.head["names"] = std::to_string(200 + r.below(120));
		else if (r.chance(1, 150)) s.head["names"] = std::to_string(65500 + r.below(80));
		if (kind == "twin") { for (const char *k : {"a.disassemble", "b.disassemble"}) if (r.chance(1, 4)) s.head[k] = "1"; }
		else if (r.chance(1, prop == "P08" || prop == "P14" || prop == "P18" ? 5 : 20)) s.head["disassemble"] = "1";
	}
	s.head["kind"] = kind;
	s.head["prop"] = prop;
	s.head["seed"] = std::to_string(seed);
	return s;
}
// An operation that asks for this many allocations makes no progress.
static uint64_t opBudget(const std::string &text) { return 3000000 + std::min<uint64_t>(27000000, text.size() < 2000 ? 0 : 3000 * (uint64_t) text.size()); }
int main(int argc, char **argv) {
	std::string cmd = argc > 1 ? argv[1] : "";
	if (cmd == "gen" && argc >= 6) {
		Scenario s = genScenario(argv[2], argv[3], strtoull(argv[4], 0, 10), VARIANT_NAME, atoi(argv[5]));
		s.head["variant"] = VARIANT_NAME;
		fputs(s.str().c_str(), stdout);
		return 0;
	}
	if (cmd == "run" && argc >= 3) {
		alarm(60);
		RunLog log;
		log.trace = argc > 3;
		try {
			std::string text = slurp(argv[2]);
			g_seam.opBudget = opBudget(text);
			runScenario(Scenario::parse(text), log);
		}
		catch (Violation &v) {
			printf("VIOLATION-SEEN %s\n", v.what());
			printf("DIGEST %016llx\n", (unsigned long long) log.digest);
			fflush(stdout);
			_exit(1);
		}
		catch (ModelBudget &) { printf("SKIPPED\n"); fflush(stdout); _exit(0); }
		printf("DIGEST %016llx %s\n", (unsigned long long) log.digest, log.outcome.c_str());
		fflush(stdout);
		_exit(0);
	}
	if (cmd == "batch" && argc >= 10) {
		std::string kind = argv[2], prop = argv[3], out = argv[8];
		uint64_t first = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
		int tier = atoi(argv[7]);
		double limit = atof(argv[9]);
		int fd = open((out + ".progress").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		auto t0 = std::chrono::steady_clock::now();
		uint64_t done = 0, skipped = 0, nontrivial = 0;
		std::set<uint64_t> digests;
		FILE *dig = fopen((out + ".digests").c_str(), "w");
		int rc = 0;
		for (uint64_t i = 0; i < count; i++) {
			// The clock only decides how many runs there are, never what one of them does.
			if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
			uint64_t seed = first + i * stride;
			char b[64];
			int n = snprintf(b, sizeof b, "%llu\n", (unsigned long long) seed);
			pwrite(fd, b, n, 0);
			g_seam.resetAll();
			g_cur = nullptr;
			alarm(60);
			RunLog log;
			std::string text;
			struct Slow {
				uint64_t seed;
				std::chrono::steady_clock::time_point from = std::chrono::steady_clock::now();
				~Slow() {
					double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - from).count();
					if (s > 5) fprintf(stderr, "slow: seed %llu took %.1f s\n", (unsigned long long) seed, s);
				}
			} slow{seed};
			try {
				Scenario s = genScenario(kind, prop, seed, VARIANT_NAME, tier);
				text = s.str();
				g_seam.opBudget = opBudget(text);
				runScenario(Scenario::parse(text), log);
			}
			catch (Violation &v) {
				std::ofstream o(out + ".violation");
				o << text;
				printf("V %llu %s\n", (unsigned long long) seed, v.what());
				rc = 1;
				break;
			}
			catch (ModelBudget &) { skipped++; continue; }
			done++;
			if (log.nontrivial) { nontrivial++; digests.insert(log.digest); }
			fprintf(dig, "%llu %016llx %d\n", (unsigned long long) seed, (unsigned long long) log.digest, log.nontrivial ? 1 : 0);
		}
		fclose(dig);
		double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		printf("J {\"runs\": %llu, \"skipped\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"states\": %zu, \"secs\": %.3f, \"requests\": %llu",
		       (unsigned long long) done, (unsigned long long) skipped, (unsigned long long) nontrivial, digests.size(), g_states.s.size(), secs,
		       (unsigned long long) g_counters["requests"]);
		for (auto &c : g_counters.c) if (c.first != "requests") printf(", \"%s\": %llu", c.first.c_str(), (unsigned long long) c.second);
		printf("}\n");
		fflush(stdout);
		_exit(rc);
	}
	fprintf(stderr, "usage\n");
	return 2;
}

// Interactive probe: each line of stdin is a step.  "! src" compiles and runs; ":reset" soft reset; ":newvm".
#include "core.h"
#include <iostream>
int main(int argc, char **argv) {
	setbuf(stdout, 0); Inst in;
	in.id = 1;
	std::string gcp = argc > 1 ? argv[1] : "none";
	in.cfg.inference = argc > 2;
	in.gc = GcPolicy::parse(gcp);
	printf("init %d\n", in.initCompiler());
	printf("vm %d\n", in.initVM());
	std::string line;
	while (std::getline(std::cin, line)) {
		if (line.empty()) continue;
		if (line == ":reset") { CurScope c(&in); printf("reset %d\n", duckVM_softReset(&in.vm)); continue; }
		if (line == ":newvm") { in.quitVM(); printf("newvm %d\n", in.initVM()); continue; }
		printf("> %s\n", line.c_str());
		in.events.clear();
		in.opSteps = 0;
		std::string bc;
		size_t e0 = in.dl.errors.elements_length;
		int e = in.load(line, &bc);
		for (auto &s : in.events) printf("   ev %s\n", s.c_str());
		in.events.clear();
		if (e || in.dl.errors.elements_length > e0) printf("  load %s  msgs: %s\n", errName(e).c_str(), in.errorText(in.dl.errors).substr(e0).c_str());
		if (e) continue;
		if (getenv("DIS")) { dl_array_t str; CurScope c(&in); duckLisp_disassemble(&str, in.maUse, (dl_uint8_t *) bc.data(), bc.size()); printf("%.*s\n", (int) str.elements_length, (char *) str.elements); dl_array_quit(&str); }
		size_t before = in.stackLen();
		size_t v0 = in.vm.errors.elements_length;
		e = in.exec(bc);
		for (auto &s : in.events) printf("   ev %s\n", s.c_str());
		printf("  = %s", errName(e).c_str());
		if (in.stackLen() > before) printf(" [%zd] %s", (ssize_t) in.stackLen() - (ssize_t) before, in.render(*in.top()).c_str());
		else printf(" stack %zu -> %zu", before, in.stackLen());
		if (in.vm.errors.elements_length > v0) printf("  msgs: %s", in.errorText(in.vm.errors).substr(v0).c_str());
		puts("");
		CurScope c(&in);
		if (e) printf("  reset %d\n", duckVM_softReset(&in.vm)); else while (in.stackLen() > before) if (duckVM_pop(&in.vm)) break;
	}
	in.quitVM();
	in.quitCompiler();
	printf("live after quit: %zu %s\n", g_seam.live.size(), g_seam.describeLive(1).c_str());
}

// Operations of the host on the stack of a VM, as text: for scenarios of their own and for callbacks.
#pragma once
#include "core.h"
#include "model.h"
struct ApiOp {
	std::string name, s;
	int64_t a = 0, b = 0;
	double f = 0;
};
// "push -1; int 5; str \"a b\"; setelem 0 -2"
std::vector<ApiOp> parseOps(const std::string &text);
// Both report what the operation told the host. `base`: how much of the stack belongs to others.
dl_error_t realOp(Inst &in, duckVM_t *v, const ApiOp &o, size_t base, bool callback, std::string &text);
// False: the operation reports an error and changes nothing.
bool modelOp(Model &m, MVM &vm, std::vector<V> &st, const ApiOp &o, bool callback, std::string &text);

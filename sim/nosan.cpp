// Stand-ins for the sanitizer's entry points in the variant built without it.
#ifdef DSIM_NOSAN
#include <cstddef>
extern "C" {
void __sanitizer_print_stack_trace() {}
void __sanitizer_start_switch_fiber(void **, const void *, size_t) {}
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) {}
}
#endif

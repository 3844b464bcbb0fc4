/* Forced into DuckLib/memory.c of the stdlib configurations: its malloc is the simulator's. */
extern void *dsim_malloc(size_t size);
extern void dsim_free(void *p);
extern void *dsim_realloc(void *p, size_t size);

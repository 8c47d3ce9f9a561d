/* Callbacks of the compiler's access instrumentation (only in the "fine" build): every load, store and
   basic block of the library is offered to the explorer as a scheduling point. */
#include <stdint.h>
static __thread int on;
extern void mc_access(uintptr_t addr, unsigned size, int write, uintptr_t pc);
extern char __data_start[], _end[];
void mc_fine_set(int v) { on = v; }
int mc_is_static(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }
static inline void access(uintptr_t a, unsigned s, int w, uintptr_t pc) { if (on) { int o = on; on = 0; mc_access(a, s, w, pc); on = o; } }
#define A(n) \
  void __sanitizer_cov_load##n(void *p) { access((uintptr_t)p, n, 0, (uintptr_t)__builtin_return_address(0)); } \
  void __sanitizer_cov_store##n(void *p) { access((uintptr_t)p, n, 1, (uintptr_t)__builtin_return_address(0)); }
A(1) A(2) A(4) A(8) A(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { access((uintptr_t)g, 0, 0, (uintptr_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }

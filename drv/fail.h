/* "fail n": the n-th allocation of the next operation fails */
static long armed, f0_;
static void arm(void) { f0_ = mem_failed; mem_fail_at = armed; armed = 0; }
static long oomd(void) { mem_fail_at = 0; return mem_failed > f0_; }

// Interface between harnesses, the symbolic engine and the native replayer.
#ifndef WSYM_H
#define WSYM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// --- symbolic inputs (recorded values in native replay) ---
uint64_t wsym_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t wsym_u64(const char* name);
// --- verdicts ---
void wsym_assume(int cond);
void wsym_assert(int cond, const char* msg);
void wsym_fail(const char* msg) __attribute__((noreturn));
void wsym_cover(const char* name);
void wsym_note(const char* name, uint64_t value);
uint64_t wsym_concretize(uint64_t v);
void wsym_unsupported(const char* msg) __attribute__((noreturn));
void wsym_exit(void) __attribute__((noreturn));
// --- coroutine style threads ---
int wsym_thread_spawn(void (*fn)(void*), void* arg);
void wsym_coswitch(int tid);
int wsym_curthread(void);
// --- thread model (env.cpp) ---
int wsym_spawn(void (*fn)(void*), void* arg); // start a model thread
void wsym_join(int tid);
void wsym_let_run(int tid);                    // switch to tid until it blocks
void wsym_join_all(void);
void wsym_yield(const char* where);           // preemption point
void wsym_sched(int preemptions, int spurious); // set bounds
void wsym_set_self(unsigned long id);         // override pthread_self() (0: real)
int wsym_mutex_owner(const void* m);          // model owner tid or -1
int wsym_is_blocked(int tid);
int wsym_is_waiting(int tid);   // in a condition wait
// --- environment model (env.cpp) ---
extern uint64_t wsym_usleep_calls;
extern uint64_t wsym_usleep_total;
extern int64_t wsym_clock_ns;                 // steady_clock / clock_gettime value
extern void (*wsym_on_usleep)(unsigned us);
#ifdef __cplusplus
}
static inline bool wsym_bool(const char* n) { return wsym_range(n, 0, 1) != 0; }
#define WSYM_ASSERT(c) wsym_assert((c) ? 1 : 0, #c)
#endif
#endif

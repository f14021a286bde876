// Environment model shared by the symbolic run and the native replay: the
// functions below replace (linker --wrap / engine aliasing) what the library
// calls.  Scheduling and fault decisions are wsym_range() inputs.
#include "wsym.h"
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <sys/types.h>

extern "C" {
uint64_t wsym_usleep_calls = 0;
uint64_t wsym_usleep_total = 0;
int64_t wsym_clock_ns = 1700000000LL * 1000000000LL;
void (*wsym_on_usleep)(unsigned us) = nullptr;

int __wrap_usleep(unsigned us)
{
    ++wsym_usleep_calls;
    wsym_usleep_total += us;
    wsym_clock_ns += (int64_t)us * 1000;
    if (wsym_on_usleep) wsym_on_usleep(us);
    return 0;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { return __wrap_usleep((unsigned)(t->tv_sec * 1000000 + t->tv_nsec / 1000)); }
unsigned __wrap_sleep(unsigned n) { __wrap_usleep(n * 1000000u); return 0; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void) { return wsym_clock_ns; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(void) { return wsym_clock_ns; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts)
{
    ts->tv_sec = (time_t)(wsym_clock_ns / 1000000000LL);
    ts->tv_nsec = (long)(wsym_clock_ns % 1000000000LL);
    return 0;
}

// ---- threads --------------------------------------------------------------
enum { MAXT = 6, MAXM = 64 };
enum tstate { RUN, WMUTEX, WCOND, WJOIN, DONE };
static struct { int st; const void* obj; const void* mtx; void (*fn)(void*); void* arg; } T[MAXT] = {{RUN, nullptr, nullptr, nullptr, nullptr}};
static int nT = 1;
static int preempt_left = 0, spurious_left = 0;
static struct { const void* m; int owner; } MX[MAXM];
static int nM = 0;
static unsigned long self_override = 0;

static int mslot(const void* m)
{
    for (int i = 0; i < nM; ++i) if (MX[i].m == m) return i;
    for (int i = 0; i < nM; ++i) if (MX[i].m == nullptr) { MX[i].m = m; MX[i].owner = -1; return i; }
    if (nM == MAXM) wsym_unsupported("too many mutexes");
    MX[nM].m = m;
    MX[nM].owner = -1;
    return nM++;
}
int wsym_mutex_owner(const void* m)
{
    for (int i = 0; i < nM; ++i) if (MX[i].m == m) return MX[i].owner;
    return -1;
}
int wsym_is_waiting(int t) { return T[t].st == WCOND; }
int wsym_is_blocked(int t) { return T[t].st == WMUTEX || T[t].st == WCOND; }
static bool runnable(int t)
{
    switch (T[t].st)
    {
    case RUN: return true;
    case WMUTEX: return MX[mslot(T[t].obj)].owner < 0;
    case WJOIN:
    {
        int w = (int)(intptr_t)T[t].obj;
        if (w >= 0) return T[w].st == DONE;
        for (int i = 0; i < nT; ++i) if (i != t && T[i].st != DONE) return false;
        return true;
    }
    default: return false;
    }
}
// choose the next thread; `self_ok`: the current thread may continue
static void resched(bool voluntary)
{
    int me = wsym_curthread();
    int c[2 * MAXT];
    int n = 0;
    bool mine = runnable(me);
    if (mine) c[n++] = me;
    if (!mine || !voluntary || preempt_left > 0)
        for (int i = 0; i < nT; ++i) if (i != me && runnable(i)) c[n++] = i;
    int k = n;
    if (spurious_left > 0 && (!mine || !voluntary || preempt_left > 0))
        for (int i = 0; i < nT; ++i) if (T[i].st == WCOND) c[n++] = i;
    if (k == 0)
    {
        bool any = false;
        for (int i = 0; i < nT; ++i) if (T[i].st != DONE) any = true;
        if (any) wsym_fail("deadlock: every live thread is blocked");
        wsym_exit();
    }
    int p = (int)wsym_concretize(n > 1 ? wsym_range("sched", 0, (uint64_t)(n - 1)) : 0);
    int t = c[p];
    if (p >= k) { --spurious_left; T[t].st = WMUTEX; T[t].obj = T[t].mtx; if (!runnable(t)) { resched(false); return; } }
    if (mine && t != me && voluntary) --preempt_left;
    if (t != me) wsym_coswitch(t);
}
static void acquired(const void* m)
{
    int s = mslot(m);
    int me = wsym_curthread();
    while (MX[s].owner >= 0)
    {
        if (MX[s].owner == me) wsym_fail("deadlock: mutex locked twice by the same thread");
        T[me].st = WMUTEX; T[me].obj = m;
        resched(false);
        T[me].st = RUN;
    }
    T[me].st = RUN;
    MX[s].owner = me;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { MX[mslot(m)].owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
    int s = mslot(m);
    if (MX[s].owner >= 0) wsym_fail("destroying a locked mutex");
    MX[s].m = nullptr;
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (nT > 1) resched(true);
    acquired(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    int s = mslot(m);
    if (MX[s].owner >= 0) return EBUSY;
    MX[s].owner = wsym_curthread();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int s = mslot(m);
    if (MX[s].owner != wsym_curthread()) wsym_fail("unlocking a mutex that is not held");
    MX[s].owner = -1;
    if (nT > 1) resched(true);
    return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
    for (int i = 0; i < nT; ++i) if (T[i].st == WCOND && T[i].obj == c) wsym_fail("destroying a condition variable with waiters");
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    int me = wsym_curthread();
    int s = mslot(m);
    if (MX[s].owner != me) wsym_fail("condition wait without holding the mutex");
    MX[s].owner = -1;
    T[me].st = WCOND; T[me].obj = c; T[me].mtx = m;
    resched(false);
    acquired(m);
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i) if (T[i].st == WCOND && T[i].obj == c) w[n++] = i;
    if (n)
    {
        int t = w[n > 1 ? wsym_concretize(wsym_range("wake", 0, (uint64_t)(n - 1))) : 0];
        T[t].st = WMUTEX; T[t].obj = T[t].mtx;
    }
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    for (int i = 0; i < nT; ++i) if (T[i].st == WCOND && T[i].obj == c) { T[i].st = WMUTEX; T[i].obj = T[i].mtx; }
    return 0;
}
// std::condition_variable
void __wrap__ZNSt18condition_variableC1Ev(void*) {}
void __wrap__ZNSt18condition_variableD1Ev(pthread_cond_t* c) { __wrap_pthread_cond_destroy(c); }
void __wrap__ZNSt18condition_variable10notify_oneEv(pthread_cond_t* c) { __wrap_pthread_cond_signal(c); }
void __wrap__ZNSt18condition_variable10notify_allEv(pthread_cond_t* c) { __wrap_pthread_cond_broadcast(c); }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(pthread_cond_t* c, pthread_mutex_t** l) { __wrap_pthread_cond_wait(c, *l); }
unsigned long __wrap_pthread_self(void)
{
    return self_override ? self_override : (unsigned long)(wsym_curthread() + 1);
}
int __wrap_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
void wsym_set_self(unsigned long id) { self_override = id; }
void wsym_sched(int p, int s) { preempt_left = p; spurious_left = s; }
static void tramp(void* a)
{
    int me = (int)(intptr_t)a;
    T[me].fn(T[me].arg);
    T[me].st = DONE;
    resched(false);
    wsym_unsupported("finished thread resumed");
}
int wsym_spawn(void (*fn)(void*), void* arg)
{
    if (nT == MAXT) wsym_unsupported("too many threads");
    int t = nT;
    T[t].st = RUN; T[t].fn = fn; T[t].arg = arg;
    ++nT;
    int k = wsym_thread_spawn(tramp, (void*)(intptr_t)t);
    if (k != t) wsym_unsupported("thread ids");
    return t;
}
// run thread t (just spawned, other threads idle) until it blocks or ends
void wsym_let_run(int t) { if (runnable(t)) wsym_coswitch(t); }
void wsym_join(int t)
{
    int me = wsym_curthread();
    T[me].st = WJOIN; T[me].obj = (const void*)(intptr_t)t;
    if (!runnable(me)) resched(false);
    T[me].st = RUN;
}
void wsym_join_all(void) { wsym_join(-1); }
void wsym_yield(const char*) { if (nT > 1) resched(true); }
}

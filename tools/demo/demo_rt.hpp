// Plain native stand-in for the interfaces world.hpp uses: every decision is 0
// (no failure, no abort) unless scripted with when("name", {values...}).
#ifndef DEMO_RT_HPP
#define DEMO_RT_HPP
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <deque>
#include <pthread.h>
#include <unistd.h>
#include "wsym.h"
static std::map<std::string, std::deque<unsigned long> > script;
static void when(const char* n, std::deque<unsigned long> v) { script[n] = v; }
extern "C" {
uint64_t wsym_range(const char* name, uint64_t lo, uint64_t)
{
    std::deque<unsigned long>& q(script[name]);
    if (q.empty()) return lo;
    unsigned long v = q.front(); q.pop_front(); return v;
}
uint64_t wsym_u64(const char* name) { return wsym_range(name, 0, 0); }
void wsym_assume(int) { }
void wsym_assert(int c, const char* m) { if (!c) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); } }
void wsym_fail(const char* m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
void wsym_cover(const char*) { }
void wsym_note(const char*, uint64_t) { }
uint64_t wsym_concretize(uint64_t v) { return v; }
void wsym_unsupported(const char* m) { printf("unsupported: %s\n", m); fflush(stdout); _exit(3); }
void wsym_exit(void) { fflush(stdout); _exit(0); }
void wsym_yield(const char*) { }
void wsym_set_self(unsigned long) { }
int wsym_mutex_owner(const void* m)
{
    pthread_mutex_t* p = (pthread_mutex_t*)m;
    if (pthread_mutex_trylock(p)) return 0;
    pthread_mutex_unlock(p);
    return -1;
}
}
#define CHECK(c) do { if (!(c)) { printf("FAIL %s:%d: %s\n", __FILE__, __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
#include "world.hpp"
using namespace W;
static void passed() { printf("ok\n"); fflush(stdout); _exit(0); }
#endif

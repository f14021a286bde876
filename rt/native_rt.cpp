// Native replay runtime: feeds a recorded assignment to the harness, which is
// linked with the real library sources and the real libstdc++.
#include "wsym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

static std::vector<std::pair<std::string, uint64_t>> in;
static size_t pos = 0;
static FILE* out;
extern "C" void wsym_main(void);

static void done(int rc)
{
    fflush(out);
    fflush(stdout);
    _exit(rc);
}
static uint64_t next(const char* n, uint64_t lo)
{
    if (pos >= in.size())
    {
        // past the end of the recorded assignment: allowed only for runs
        // that stopped at a violation the native code does not reproduce
        fprintf(out, "END-OF-INPUTS %s\n", n);
        done(77);
    }
    if (in[pos].first != n)
    {
        fprintf(out, "DIVERGED expected %s got %s\n", in[pos].first.c_str(), n);
        done(77);
    }
    (void)lo;
    return in[pos++].second;
}
struct Th { sem_t s; void (*fn)(void*); void* arg; };
static Th* th[16];
static int nth = 1;
static thread_local int self = 0;
static void* entry(void* a)
{
    Th* t = (Th*)a;
    for (int i = 0; i < nth; i++) if (th[i] == t) self = i;
    while (sem_wait(&t->s)) {}
    t->fn(t->arg);
    return nullptr;
}
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" {
uint64_t wsym_range(const char* n, uint64_t lo, uint64_t hi) { return lo == hi ? lo : next(n, lo); }
uint64_t wsym_u64(const char* n) { return next(n, 0); }
void wsym_assume(int c) { if (!c) { fprintf(out, "ASSUME-FAILED\n"); done(77); } }
void wsym_assert(int c, const char* m) { if (!c) { fprintf(out, "FAIL %s\n", m); done(42); } }
void wsym_fail(const char* m) { fprintf(out, "FAIL %s\n", m); done(42); abort(); }
void wsym_cover(const char*) {}
void wsym_note(const char* n, uint64_t v) { fprintf(out, "NOTE %s %llu\n", n, (unsigned long long)v); fflush(out); }
uint64_t wsym_concretize(uint64_t v) { return v; }
void wsym_unsupported(const char* m) { fprintf(out, "UNSUPPORTED %s\n", m); done(77); abort(); }
void wsym_exit(void) { fprintf(out, "OK\n"); done(0); abort(); }
int wsym_curthread(void) { return self; }
int wsym_thread_spawn(void (*fn)(void*), void* arg)
{
    Th* t = new Th;
    sem_init(&t->s, 0, 0);
    t->fn = fn; t->arg = arg;
    int id = nth;
    th[nth++] = t;
    pthread_t p;
    pthread_create(&p, nullptr, entry, t);
    pthread_detach(p);
    return id;
}
void wsym_coswitch(int t)
{
    int me = self;
    sem_post(&th[t]->s);
    while (sem_wait(&th[me]->s)) {}
}
}
int main(int argc, char** argv)
{
    // argv[1]: input file, lines "name value"; argv[2]: output file
    if (argc < 3) return 3;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 3;
    char nm[256];
    unsigned long long v;
    while (fscanf(f, "%255s %llu", nm, &v) == 2) in.push_back({nm, v});
    fclose(f);
    out = fopen(argv[2], "w");
    if (!out) return 3;
    th[0] = new Th;
    sem_init(&th[0]->s, 0, 0);
    wsym_main();
    fprintf(out, "OK\n");
    done(0);
}

// files: the real functions, unless the harness brings a model of its own
#include <sys/types.h>
#define WEAK extern "C" __attribute__((weak))
extern "C" int __real_mkstemp(char*); WEAK int __wrap_mkstemp(char* t) { return __real_mkstemp(t); }
extern "C" ssize_t __real_write(int, const void*, size_t); WEAK ssize_t __wrap_write(int f, const void* p, size_t n) { return __real_write(f, p, n); }
extern "C" int __real_close(int); WEAK int __wrap_close(int f) { return __real_close(f); }
extern "C" int __real_fsync(int); WEAK int __wrap_fsync(int f) { return __real_fsync(f); }
extern "C" int __real_rename(const char*, const char*); WEAK int __wrap_rename(const char* a, const char* b) { return __real_rename(a, b); }
extern "C" int __real_unlink(const char*); WEAK int __wrap_unlink(const char* a) { return __real_unlink(a); }
extern "C" int __real_remove(const char*); WEAK int __wrap_remove(const char* a) { return __real_remove(a); }

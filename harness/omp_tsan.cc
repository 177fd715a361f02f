// A small OpenMP runtime that ThreadSanitizer understands (libgomp itself is
// not instrumented).  Compiled with -fsanitize=thread, linked into the program,
// so that all GOMP_* entry points used by the compiler end here.
// MON_OMP_DELAY=seed adds random delays where threads meet.
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <map>

namespace {
struct Team
{
    int n;
    pthread_mutex_t m;
    pthread_cond_t c;
    int arrived;
    unsigned long gen;
    // worksharing: one at a time per generation of loops
    long wsGen, next, end, incr, chunk;
    int sched;              // 0 dynamic, 1 guided
    int singleGen;
    int wsLeft;
};
struct Task
{
    Team *team;
    int num;
    void (*fn)(void *);
    void *data;
};
__thread Team *t_team = 0;
__thread int t_num = 0;
__thread int t_level = 0;
__thread long t_ws = 0;
__thread int t_single = 0;
__thread uint64_t t_rng = 0;
int g_threads = -1;
uint64_t g_seed = 0;
long g_regions = 0, g_maxteam = 1, g_crit = 0, g_barriers = 0;

int env_threads()
{
    if (g_threads < 0) {
        const char *e = getenv("OMP_NUM_THREADS");
        g_threads = e ? atoi(e) : 1;
        if (g_threads < 1)
            g_threads = 1;
        const char *s = getenv("MON_OMP_DELAY");
        g_seed = s ? strtoull(s, 0, 10) : 0;
    }
    return g_threads;
}
void jitter()
{
    if (!g_seed)
        return;
    if (!t_rng)
        t_rng = g_seed * 0x9e3779b97f4a7c15ULL + t_num * 7919 + 1 + (uint64_t)g_regions * 104729;
    t_rng ^= t_rng << 13;
    t_rng ^= t_rng >> 7;
    t_rng ^= t_rng << 17;
    if (t_rng % 3 == 0)
        usleep(t_rng / 3 % 300);
    else if (t_rng % 3 == 1)
        sched_yield();
}
void *body(void *p)
{
    Task *t = (Task *)p;
    t_team = t->team;
    t_num = t->num;
    t_level = 1;
    t_ws = 0;
    t_single = 0;
    t_rng = 0;
    jitter();
    t->fn(t->data);
    return 0;
}
pthread_mutex_t g_defm = PTHREAD_MUTEX_INITIALIZER, g_atomicm = PTHREAD_MUTEX_INITIALIZER, g_namesm = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t g_named[64];
void *g_names[64];
int g_nnames = 0;

pthread_mutex_t *named(void **p)
{
    pthread_mutex_lock(&g_namesm);
    int i = 0;
    while (i < g_nnames && g_names[i] != (void *)p)
        i++;
    if (i == g_nnames) {
        if (i == 64)
            abort();
        g_names[i] = (void *)p;
        pthread_mutex_init(&g_named[i], 0);
        g_nnames++;
    }
    pthread_mutex_unlock(&g_namesm);
    return &g_named[i];
}
void barrier(Team *t)
{
    if (!t || t->n == 1)
        return;
    jitter();
    pthread_mutex_lock(&t->m);
    unsigned long g = t->gen;
    if (++t->arrived == t->n) {
        t->arrived = 0;
        t->gen++;
        pthread_cond_broadcast(&t->c);
    }
    else
        while (g == t->gen)
            pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}
Team g_solo = {1, PTHREAD_MUTEX_INITIALIZER, PTHREAD_COND_INITIALIZER, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0};
Team *team() { return t_team ? t_team : &g_solo; }

bool ws_take(long *s, long *e)
{
    Team *t = team();
    pthread_mutex_lock(&t->m);
    long left = t->incr > 0 ? (t->end - t->next + t->incr - 1) / t->incr : (t->next - t->end - t->incr - 1) / -t->incr;
    bool ok = left > 0;
    if (ok) {
        long c = t->chunk < 1 ? 1 : t->chunk;
        if (t->sched == 1 && left / t->n > c)
            c = left / t->n;
        if (c > left)
            c = left;
        *s = t->next;
        t->next += c * t->incr;
        *e = t->next;
        if (c == left)
            *e = t->end;
    }
    pthread_mutex_unlock(&t->m);
    jitter();
    return ok;
}
bool ws_start(int sched, long start, long end, long incr, long chunk, long *s, long *e)
{
    Team *t = team();
    t_ws++;
    pthread_mutex_lock(&t->m);
    if (t->wsGen < t_ws) {
        t->wsGen = t_ws;
        t->next = start;
        t->end = end;
        t->incr = incr;
        t->chunk = chunk;
        t->sched = sched;
    }
    pthread_mutex_unlock(&t->m);
    return ws_take(s, e);
}
struct Report
{
    ~Report()
    {
        const char *l = getenv("MON_OMP_LOG"), *r = getenv("OMPI_COMM_WORLD_RANK");
        if (!l)
            return;
        char b[512];
        snprintf(b, sizeof b, "%s.%s", l, r ? r : "0");
        FILE *f = fopen(b, "a");
        if (f) {
            fprintf(f, "%ld %ld %ld %ld\n", g_regions, g_maxteam, g_crit, g_barriers);
            fclose(f);
        }
    }
} g_report;
}

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned)
{
    int n = nthreads ? (int)nthreads : env_threads();
    if (t_level > 0)
        n = 1;
    Team *t = new Team();
    t->n = n;
    pthread_mutex_init(&t->m, 0);
    pthread_cond_init(&t->c, 0);
    t->wsGen = 0;
    t->arrived = 0;
    t->gen = 0;
    t->singleGen = 0;
    Team *oldTeam = t_team;
    int oldNum = t_num, oldLevel = t_level, oldSingle = t_single;
    long oldWs = t_ws;
    if (!oldLevel) {
        g_regions++;
        if (n > g_maxteam)
            g_maxteam = n;
    }
    pthread_t *th = new pthread_t[n];
    Task *ta = new Task[n];
    for (int i = 1; i < n; i++) {
        ta[i].team = t;
        ta[i].num = i;
        ta[i].fn = fn;
        ta[i].data = data;
        if (pthread_create(&th[i], 0, body, &ta[i])) {
            perror("pthread_create");
            abort();
        }
    }
    t_team = t;
    t_num = 0;
    t_level = oldLevel + 1;
    t_ws = 0;
    t_single = 0;
    jitter();
    fn(data);
    for (int i = 1; i < n; i++)
        pthread_join(th[i], 0);
    t_team = oldTeam;
    t_num = oldNum;
    t_level = oldLevel;
    t_ws = oldWs;
    t_single = oldSingle;
    delete[] th;
    delete[] ta;
    pthread_mutex_destroy(&t->m);
    pthread_cond_destroy(&t->c);
    delete t;
}
void GOMP_barrier(void)
{
    __atomic_add_fetch(&g_barriers, 1, __ATOMIC_RELAXED);
    barrier(t_team);
}
void GOMP_critical_start(void)
{
    jitter();
    pthread_mutex_lock(&g_defm);
    g_crit++;
}
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_defm); }
void GOMP_critical_name_start(void **p)
{
    jitter();
    pthread_mutex_lock(named(p));
    __atomic_add_fetch(&g_crit, 1, __ATOMIC_RELAXED);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomicm); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomicm); }
bool GOMP_single_start(void)
{
    Team *t = team();
    t_single++;
    pthread_mutex_lock(&t->m);
    bool mine = t->singleGen < t_single;
    if (mine)
        t->singleGen = t_single;
    pthread_mutex_unlock(&t->m);
    if (!t_team)
        return true;
    return mine;
}
bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return ws_start(0, a, b, i, c, s, e); }
bool GOMP_loop_dynamic_next(long *s, long *e) { return ws_take(s, e); }
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return ws_start(0, a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return ws_take(s, e); }
bool GOMP_loop_guided_start(long a, long b, long i, long c, long *s, long *e) { return ws_start(1, a, b, i, c, s, e); }
bool GOMP_loop_guided_next(long *s, long *e) { return ws_take(s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long *s, long *e) { return ws_start(1, a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return ws_take(s, e); }
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return ws_start(0, a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return ws_take(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return ws_start(0, a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return ws_take(s, e); }
typedef unsigned long long ull;
#define ULL(name, sched) \
    bool GOMP_loop_ull_##name##_start(bool up, ull a, ull b, ull i, ull c, ull *s, ull *e) \
    { (void)up; return ws_start(sched, (long)a, (long)b, (long)i, (long)c, (long *)s, (long *)e); } \
    bool GOMP_loop_ull_##name##_next(ull *s, ull *e) { return ws_take((long *)s, (long *)e); }
ULL(dynamic, 0)
ULL(nonmonotonic_dynamic, 0)
ULL(guided, 1)
ULL(nonmonotonic_guided, 1)
void GOMP_loop_end(void) { barrier(t_team); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned n)
{
    long s, e;
    return ws_start(0, 1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next(void)
{
    long s, e;
    return ws_take(&s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end(void) { barrier(t_team); }
void GOMP_sections_end_nowait(void) {}
void GOMP_taskwait(void) {}

int omp_get_thread_num(void) { return t_num; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_max_threads(void) { return env_threads(); }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
void omp_set_num_threads(int n) { g_threads = n > 0 ? n : 1; }
int omp_get_level(void) { return t_level; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit(void) { return 1024; }
double omp_get_wtime(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
double omp_get_wtick(void) { return 1e-9; }
// an omp_lock_t of libgomp is 4 bytes: the locks live here
static std::map<void *, pthread_mutex_t *> *g_locks;
static pthread_mutex_t *lock_of(void *l)
{
    pthread_mutex_lock(&g_namesm);
    if (!g_locks)
        g_locks = new std::map<void *, pthread_mutex_t *>();
    pthread_mutex_t *&m = (*g_locks)[l];
    if (!m) {
        m = new pthread_mutex_t;
        pthread_mutexattr_t a;
        pthread_mutexattr_init(&a);
        pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
        pthread_mutex_init(m, &a);
    }
    pthread_mutex_t *r = m;
    pthread_mutex_unlock(&g_namesm);
    return r;
}
void omp_init_lock(void *l) { lock_of(l); }
void omp_destroy_lock(void *l)
{
    pthread_mutex_lock(&g_namesm);
    if (g_locks)
        g_locks->erase(l);
    pthread_mutex_unlock(&g_namesm);
}
void omp_set_lock(void *l)
{
    jitter();
    pthread_mutex_lock(lock_of(l));
}
void omp_unset_lock(void *l) { pthread_mutex_unlock(lock_of(l)); }
int omp_test_lock(void *l) { return pthread_mutex_trylock(lock_of(l)) == 0; }
void omp_init_nest_lock(void *l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void *l) { omp_destroy_lock(l); }
void omp_set_nest_lock(void *l) { omp_set_lock(l); }
void omp_unset_nest_lock(void *l) { omp_unset_lock(l); }
}

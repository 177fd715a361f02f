/* LD_PRELOAD monitor of the MPI calls of a rank.
 *
 * It makes the library behave as badly as the standard allows (sends complete
 * only when received, probes and tests fail for a while, receives deliver only
 * at completion, delays everywhere) and records what the program does:
 * buffers touched or freed while an operation is pending, requests never
 * completed, messages left over, receives of another size, calls from threads
 * the requested level does not allow, and all messages and collectives.
 */
#define _GNU_SOURCE
#include <mpi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <malloc.h>
#include <time.h>
#include <unistd.h>

static int g_rank = -1, g_on = 0, g_sync = 0, g_spur = 0, g_delay = 0, g_shadow = 0, g_slow = -1;
static uint64_t g_seed = 1, g_ctr = 0;
static int g_level = MPI_THREAD_SINGLE;
static pthread_t g_main;
static FILE *g_log;
static long g_spurious, g_delays, g_p2p, g_coll, g_threads_seen;
static int g_memfd = -1;

/* ---- pending operations */
typedef struct {
    MPI_Request req;
    int used, recv, tag, peer;
    MPI_Comm comm;
    const char *buf;        /* the user's buffer */
    char *shadow;           /* receives: where the message really goes */
    char *snap;             /* contents at the start */
    size_t n;
    char type[8];
    int count;
    int isstack;
} Op;
#define MAXOP 65536
static Op *g_op;
static volatile int g_nop = 0, g_pending = 0;
static volatile int g_lock = 0;
static __thread int t_inside = 0;

static void lock(void) { while (__sync_lock_test_and_set(&g_lock, 1)) sched_yield(); }
static void unlock(void) { __sync_lock_release(&g_lock); }

static void viol(const char *key, const char *fmt, ...)
{
    static int n = 0;
    if (!g_log || n > 50)
        return;
    n++;
    va_list a;
    va_start(a, fmt);
    fprintf(g_log, "VIOL %s rank %d: ", key, g_rank);
    vfprintf(g_log, fmt, a);
    fprintf(g_log, "\n");
    fflush(g_log);
    va_end(a);
}

static uint64_t rnd(void)
{
    uint64_t x = __sync_add_and_fetch(&g_ctr, 1) * 0x9e3779b97f4a7c15ULL + g_seed * 0xbf58476d1ce4e5b9ULL +
                 (uint64_t)(g_rank + 1) * 0x94d049bb133111ebULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

static void nap(void)
{
    uint64_t r = rnd();
    int p = g_delay * (g_rank == g_slow ? 3 : 1);
    if (p && g_delays < 2000 && (int)(r % 1000) < p) {
        struct timespec t = {0, (long)((r >> 20) % (g_rank == g_slow ? 1500000 : 400000))};
        g_delays++;
        nanosleep(&t, 0);
    }
}

/* ---- who may call */
static volatile long g_owner = 0;
static long gettid_(void) { return syscall(SYS_gettid); }
static void enter(const char *what)
{
    if (!g_on || t_inside++)
        return;
    if (g_level <= MPI_THREAD_FUNNELED && !pthread_equal(pthread_self(), g_main))
        viol("thread-level", "%s called from another thread than the one that initialised MPI, level requested %d", what, g_level);
    if (!pthread_equal(pthread_self(), g_main))
        g_threads_seen++;
    if (g_level <= MPI_THREAD_SERIALIZED) {
        long me = gettid_();
        long o = __sync_val_compare_and_swap(&g_owner, 0, me);
        if (o != 0 && o != me)
            viol("concurrent-calls", "%s called while another thread is inside MPI, level requested %d", what, g_level);
    }
    nap();
}
static void leave(void)
{
    if (!g_on || --t_inside)
        return;
    if (g_level <= MPI_THREAD_SERIALIZED)
        __sync_val_compare_and_swap(&g_owner, gettid_(), 0);
}

/* ---- freed buffers */
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
static void check_free(void *p, const char *what)
{
    if (!g_pending || !p || !g_op)
        return;
    size_t n = malloc_usable_size(p);
    const char *key = 0;
    int tag = 0, peer = 0, rc = 0;
    lock();
    for (int i = 0; i < g_nop; i++)
        if (g_op[i].used && g_op[i].n && g_op[i].buf >= (char *)p && g_op[i].buf < (char *)p + n) {
            key = g_op[i].recv ? "freed-receive-buffer" : "freed-send-buffer";
            tag = g_op[i].tag;
            peer = g_op[i].peer;
            rc = g_op[i].recv;
            /* reading the user's memory later would be pointless */
            if (rc) { g_op[i].buf = 0; }
        }
    unlock();
    if (key)
        viol(key, "%s of the buffer of a pending %s, peer %d tag %d", what, rc ? "receive" : "send", peer, tag);
}
void free(void *p)
{
    check_free(p, "free");
    __libc_free(p);
}
void *realloc(void *p, size_t n)
{
    if (p && n > malloc_usable_size(p))
        check_free(p, "realloc");
    return __libc_realloc(p, n);
}

static int readable_copy(char *dst, const char *src, size_t n)
{
    /* through the kernel, so that unmapped memory is an error and no crash */
    size_t o = 0;
    if (g_memfd < 0)
        g_memfd = memfd_create("shim", 0);
    if (g_memfd < 0) {
        memcpy(dst, src, n);
        return 1;
    }
    while (o < n) {
        ssize_t k = pwrite(g_memfd, src + o, n - o, o);
        if (k <= 0)
            return 0;
        o += k;
    }
    o = 0;
    while (o < n) {
        ssize_t k = pread(g_memfd, dst + o, n - o, o);
        if (k <= 0)
            return 0;
        o += k;
    }
    return 1;
}

static const char *tname(MPI_Datatype d)
{
    if (d == MPI_BYTE) return "b";
    if (d == MPI_CHAR) return "c";
    if (d == MPI_DOUBLE) return "d";
    if (d == MPI_UINT64_T || d == MPI_UNSIGNED_LONG) return "u";
    if (d == MPI_INT) return "i";
    return "o";
}

static size_t tsize(MPI_Datatype d)
{
    int s = 0;
    PMPI_Type_size(d, &s);
    return s;
}

/* ---- record of messages */
typedef struct { char what, world, type[6]; int peer, tag; long bytes; } Msg;
static Msg *g_msg;
static long g_nmsg, g_cmsg;
static volatile int g_mlock = 0;
static void message(char what, int peer, int tag, MPI_Comm c, long bytes, const char *type)
{
    while (__sync_lock_test_and_set(&g_mlock, 1)) sched_yield();
    if (g_nmsg == g_cmsg) {
        g_cmsg = g_cmsg ? 2 * g_cmsg : 4096;
        Msg *n = (Msg *)mmap(0, g_cmsg * sizeof(Msg), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_msg) memcpy(n, g_msg, g_nmsg * sizeof(Msg));
        g_msg = n;
    }
    Msg *m = &g_msg[g_nmsg++];
    m->what = what;
    m->world = c == MPI_COMM_WORLD;
    snprintf(m->type, sizeof m->type, "%s", type);
    m->peer = peer;
    m->tag = tag;
    m->bytes = bytes;
    __sync_lock_release(&g_mlock);
}

static Op *new_op(void)
{
    lock();
    for (int i = 0; i < g_nop; i++)
        if (!g_op[i].used) {
            g_op[i].used = 1;
            g_op[i].n = 0;
            g_op[i].buf = 0;
            g_op[i].req = MPI_REQUEST_NULL;
            g_pending++;
            unlock();
            return &g_op[i];
        }
    if (g_nop >= MAXOP) {
        unlock();
        fprintf(stderr, "shim: too many pending operations\n");
        _exit(99);
    }
    Op *o = &g_op[g_nop];
    memset(o, 0, sizeof *o);
    o->req = MPI_REQUEST_NULL;
    o->used = 1;
    g_nop++;
    g_pending++;
    unlock();
    return o;
}

static Op *find_op(MPI_Request r)
{
    if (r == MPI_REQUEST_NULL)
        return 0;
    Op *f = 0;
    lock();
    for (int i = 0; i < g_nop; i++)
        if (g_op[i].used && g_op[i].req == r)
            f = &g_op[i];
    unlock();
    return f;
}

static int on_stack(const void *p)
{
    pthread_attr_t a;
    void *b;
    size_t n;
    if (pthread_getattr_np(pthread_self(), &a))
        return 0;
    pthread_attr_getstack(&a, &b, &n);
    pthread_attr_destroy(&a);
    return (char *)p >= (char *)b && (char *)p < (char *)b + n;
}

static void complete(Op *o, MPI_Status *st, MPI_Request *r)
{
    if (!o)
        return;
    if (!o->recv && *r != MPI_REQUEST_NULL) {
        PMPI_Request_free(r);
        *r = MPI_REQUEST_NULL;
    }
    char here;
    char *now = (char *)mmap(0, o->n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (o->isstack && on_stack(o->buf) && o->buf < &here)
        viol("dead-stack-buffer", "the buffer of a pending %s with %d, tag %d, belongs to a function that returned",
             o->recv ? "receive" : "send", o->peer, o->tag);
    else if (o->n && o->buf) {
        if (!readable_copy(now, o->buf, o->n))
            viol(o->recv ? "freed-receive-buffer" : "freed-send-buffer", "buffer of a pending operation with %d, tag %d, is no memory any more",
                 o->peer, o->tag);
        else {
            if (o->snap && memcmp(now, o->snap, o->n))
                viol(o->recv ? "modified-receive-buffer" : "modified-send-buffer",
                     "buffer of a pending operation with %d, tag %d, %zu bytes was modified", o->peer, o->tag, o->n);
        }
    }
    munmap(now, o->n + 1);
    if (o->recv) {
        int n = 0;
        PMPI_Get_count(st, MPI_BYTE, &n);
        if (o->shadow && o->buf)
            memcpy((char *)o->buf, o->shadow, n);
        message('R', st->MPI_SOURCE, st->MPI_TAG, o->comm, n, o->type);
        if ((size_t)n != o->n)
            viol("size", "receive of %zu bytes from %d tag %d matched a message of %d bytes", o->n, st->MPI_SOURCE, st->MPI_TAG, n);
    }
    if (o->shadow) munmap(o->shadow, o->n + 1);
    if (o->snap) munmap(o->snap, o->n + 1);
    lock();
    o->shadow = o->snap = 0;
    o->n = 0;
    o->buf = 0;
    o->used = 0;
    g_pending--;
    unlock();
}

static Op *start_op(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, int recv)
{
    Op *o = new_op();
    o->recv = recv;
    o->tag = t;
    o->peer = p;
    o->comm = c;
    lock();
    o->n = (size_t)n * tsize(d);
    o->buf = (const char *)b;
    unlock();
    o->count = n;
    snprintf(o->type, sizeof o->type, "%s", tname(d));
    o->isstack = o->n && on_stack(b);
    if (!recv || g_shadow) {
        o->snap = (char *)mmap(0, o->n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(o->snap, b, o->n);
    }
    if (recv && g_shadow)
        o->shadow = (char *)mmap(0, o->n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return o;
}

/* ---- set-up */
static long env(const char *k, long d) { const char *s = getenv(k); return s ? atol(s) : d; }
static void setup(int level)
{
    g_level = level;
    g_main = pthread_self();
    g_sync = env("SHIM_SYNC", 0);
    g_spur = env("SHIM_SPUR", 0);
    g_delay = env("SHIM_DELAY", 0);
    g_shadow = env("SHIM_SHADOW", 1);
    g_slow = env("SHIM_SLOW", -1);
    g_seed = env("SHIM_SEED", 1);
    g_op = (Op *)mmap(0, MAXOP * sizeof(Op), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    PMPI_Comm_rank(MPI_COMM_WORLD, &g_rank);
    char b[4096];
    snprintf(b, sizeof b, "%s.%d", getenv("SHIM_LOG") ? getenv("SHIM_LOG") : "shim", g_rank);
    g_log = fopen(b, "w");
    g_on = 1;
}
int MPI_Init(int *c, char ***v)
{
    int r = PMPI_Init(c, v);
    setup(MPI_THREAD_SINGLE);
    return r;
}
int MPI_Init_thread(int *c, char ***v, int required, int *provided)
{
    int r = PMPI_Init_thread(c, v, required, provided);
    if (*provided > required)
        *provided = required;           /* no more than was asked for */
    setup(*provided);
    return r;
}
int MPI_Finalize(void)
{
    if (g_on) {
        for (int i = 0; i < g_nop; i++)
            if (g_op[i].used)
                viol("incomplete-request", "a %s with %d, tag %d, was never completed", g_op[i].recv ? "receive" : "send",
                     g_op[i].peer, g_op[i].tag);
        PMPI_Barrier(MPI_COMM_WORLD);
        struct timespec t = {0, 20000000};
        nanosleep(&t, 0);
        int flag = 0;
        MPI_Status st;
        for (int i = 0; i < 50 && !flag; i++)
            PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &st);
        if (flag)
            viol("leftover", "a message from %d with tag %d was never received", st.MPI_SOURCE, st.MPI_TAG);
        for (long i = 0; i < g_nmsg; i++)
            fprintf(g_log, "%c %d %d %d %ld %s\n", g_msg[i].what, g_msg[i].world, g_msg[i].peer, g_msg[i].tag, g_msg[i].bytes,
                    g_msg[i].type);
        fprintf(g_log, "STAT level %d p2p %ld coll %ld spurious %ld delays %ld otherthread %ld\nEND\n", g_level, g_p2p, g_coll,
                g_spurious, g_delays, g_threads_seen);
        fclose(g_log);
        g_log = 0;
        g_on = 0;
    }
    return PMPI_Finalize();
}

/* ---- point to point */
static int isend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r, int sync)
{
    enter("MPI_Isend");
    g_p2p++;
    Op *o = start_op(b, n, d, p, t, c, 0);
    message('S', p, t, c, o->n, o->type);
    /* persistent requests have handles of their own, even for buffered sends */
    int e = (sync || g_sync) ? PMPI_Ssend_init(b, n, d, p, t, c, r) : PMPI_Send_init(b, n, d, p, t, c, r);
    o->req = *r;
    if (e == MPI_SUCCESS)
        e = PMPI_Start(r);
    leave();
    return e;
}
int MPI_Isend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ return isend(b, n, d, p, t, c, r, 0); }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{ return isend(b, n, d, p, t, c, r, 1); }
static int send(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, int sync)
{
    enter("MPI_Send");
    g_p2p++;
    message('S', p, t, c, n * tsize(d), tname(d));
    int e = (sync || g_sync) ? PMPI_Ssend(b, n, d, p, t, c) : PMPI_Send(b, n, d, p, t, c);
    leave();
    return e;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send(b, n, d, p, t, c, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send(b, n, d, p, t, c, 1); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Status *s)
{
    MPI_Status mine;
    enter("MPI_Recv");
    g_p2p++;
    int e = PMPI_Recv(b, n, d, p, t, c, &mine);
    int k = 0;
    PMPI_Get_count(&mine, MPI_BYTE, &k);
    message('R', mine.MPI_SOURCE, mine.MPI_TAG, c, k, tname(d));
    if ((size_t)k != n * tsize(d))
        viol("size", "receive of %zu bytes from %d tag %d matched a message of %d bytes", n * tsize(d), mine.MPI_SOURCE, mine.MPI_TAG, k);
    if (s != MPI_STATUS_IGNORE)
        *s = mine;
    leave();
    return e;
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r)
{
    enter("MPI_Irecv");
    g_p2p++;
    Op *o = start_op(b, n, d, p, t, c, 1);
    int e = PMPI_Irecv(o->shadow ? o->shadow : b, n, d, p, t, c, r);
    o->req = *r;
    leave();
    return e;
}
int MPI_Iprobe(int p, int t, MPI_Comm c, int *f, MPI_Status *s)
{
    enter("MPI_Iprobe");
    int e = MPI_SUCCESS;
    if (g_spur && (int)(rnd() % 100) < g_spur) {
        *f = 0;
        g_spurious++;
    } else
        e = PMPI_Iprobe(p, t, c, f, s);
    leave();
    return e;
}

/* ---- completion */
int MPI_Wait(MPI_Request *r, MPI_Status *s)
{
    MPI_Status st;
    enter("MPI_Wait");
    Op *o = find_op(*r);
    int e = PMPI_Wait(r, &st);
    complete(o, &st, r);
    if (s != MPI_STATUS_IGNORE) *s = st;
    leave();
    return e;
}
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s)
{
    MPI_Status st;
    enter("MPI_Test");
    int e = MPI_SUCCESS;
    if (*r != MPI_REQUEST_NULL && g_spur && (int)(rnd() % 100) < g_spur) {
        *f = 0;
        g_spurious++;
        PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &e, &st);
        e = MPI_SUCCESS;
    } else {
        Op *o = find_op(*r);
        e = PMPI_Test(r, f, &st);
        if (*f) complete(o, &st, r);
        if (*f && s != MPI_STATUS_IGNORE) *s = st;
    }
    leave();
    return e;
}
static void done_all(int n, Op **o, MPI_Status *st, MPI_Status *s, MPI_Request *r)
{
    for (int i = 0; i < n; i++) {
        complete(o[i], &st[i], &r[i]);
        if (s != MPI_STATUSES_IGNORE) s[i] = st[i];
    }
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s)
{
    enter("MPI_Waitall");
    MPI_Status *st = (MPI_Status *)mmap(0, (n + 1) * sizeof(MPI_Status), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Op **o = (Op **)mmap(0, (n + 1) * sizeof(Op *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < n; i++) o[i] = find_op(r[i]);
    int e = PMPI_Waitall(n, r, st);
    done_all(n, o, st, s, r);
    munmap(st, (n + 1) * sizeof(MPI_Status));
    munmap(o, (n + 1) * sizeof(Op *));
    leave();
    return e;
}
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s)
{
    enter("MPI_Testall");
    int e = MPI_SUCCESS, any = 0;
    for (int i = 0; i < n; i++) any |= r[i] != MPI_REQUEST_NULL;
    if (any && g_spur && (int)(rnd() % 100) < g_spur) {
        MPI_Status x;
        *f = 0;
        g_spurious++;
        PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &e, &x);
        e = MPI_SUCCESS;
    } else {
        MPI_Status *st = (MPI_Status *)mmap(0, (n + 1) * sizeof(MPI_Status), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        Op **o = (Op **)mmap(0, (n + 1) * sizeof(Op *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < n; i++) o[i] = find_op(r[i]);
        e = PMPI_Testall(n, r, f, st);
        if (*f) done_all(n, o, st, s, r);
        munmap(st, (n + 1) * sizeof(MPI_Status));
        munmap(o, (n + 1) * sizeof(Op *));
    }
    leave();
    return e;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *s)
{
    enter("MPI_Waitany");
    MPI_Status st;
    int any = 0, e = MPI_SUCCESS;
    for (int i = 0; i < n; i++) any |= r[i] != MPI_REQUEST_NULL;
    if (!any)
        e = PMPI_Waitany(n, r, idx, s);
    else {
        /* any completed one may be returned */
        for (int done = 0; !done;) {
            int k = rnd() % n;
            for (int j = 0; j < n && !done; j++) {
                int i = (k + j) % n;
                if (r[i] == MPI_REQUEST_NULL) continue;
                Op *o = find_op(r[i]);
                e = PMPI_Test(&r[i], &done, &st);
                if (done) {
                    complete(o, &st, &r[i]);
                    *idx = i;
                    if (s != MPI_STATUS_IGNORE) *s = st;
                }
            }
            if (!done) sched_yield();
        }
    }
    leave();
    return e;
}
/* these in terms of the others */
static int some(int n, MPI_Request *r, int *k, int *idx, MPI_Status *s, int limit)
{
    int any = 0;
    *k = 0;
    for (int i = 0; i < n && *k < limit; i++) {
        if (r[i] == MPI_REQUEST_NULL) continue;
        any = 1;
        int f = 0;
        MPI_Status st;
        Op *o = find_op(r[i]);
        int e = PMPI_Test(&r[i], &f, &st);
        if (e != MPI_SUCCESS) return e;
        if (f) {
            complete(o, &st, &r[i]);
            idx[*k] = i;
            if (s != MPI_STATUSES_IGNORE) s[*k] = st;
            (*k)++;
        }
    }
    if (!any) *k = MPI_UNDEFINED;
    return MPI_SUCCESS;
}
int MPI_Testsome(int n, MPI_Request *r, int *k, int *idx, MPI_Status *s)
{
    enter("MPI_Testsome");
    int e = some(n, r, k, idx, s, n);
    leave();
    return e;
}
int MPI_Waitsome(int n, MPI_Request *r, int *k, int *idx, MPI_Status *s)
{
    enter("MPI_Waitsome");
    int e;
    do {
        e = some(n, r, k, idx, s, n);
    } while (e == MPI_SUCCESS && *k == 0);
    leave();
    return e;
}
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *s)
{
    enter("MPI_Testany");
    int k;
    MPI_Status st;
    int e = some(n, r, &k, idx, &st, 1);
    *f = k != 0;
    if (k == MPI_UNDEFINED || k == 0) *idx = MPI_UNDEFINED;
    else if (s != MPI_STATUS_IGNORE) *s = st;
    leave();
    return e;
}
int MPI_Request_free(MPI_Request *r)
{
    enter("MPI_Request_free");
    viol("incomplete-request", "a request was freed instead of completed");
    int e = PMPI_Request_free(r);
    leave();
    return e;
}
int MPI_Cancel(MPI_Request *r)
{
    enter("MPI_Cancel");
    viol("incomplete-request", "a request was cancelled");
    int e = PMPI_Cancel(r);
    leave();
    return e;
}

/* ---- collectives */
static void coll(const char *name, MPI_Comm c, int n, MPI_Datatype d, MPI_Op op)
{
    g_coll++;
    if (c == MPI_COMM_WORLD) {
        char b[6];
        snprintf(b, sizeof b, "%s", name);
        message('C', n, op == MPI_SUM ? 1 : op == MPI_MAX ? 2 : op == MPI_MIN ? 3 : 0, c, d == MPI_DATATYPE_NULL ? 0 : (long)tsize(d), b);
    }
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c)
{
    enter("MPI_Allreduce");
    coll("Allr", c, n, d, op);
    int e = PMPI_Allreduce(s, r, n, d, op, c);
    leave();
    return e;
}
int MPI_Barrier(MPI_Comm c)
{
    enter("MPI_Barrier");
    coll("Barr", c, 0, MPI_DATATYPE_NULL, MPI_OP_NULL);
    int e = PMPI_Barrier(c);
    leave();
    return e;
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c)
{
    enter("MPI_Bcast");
    coll("Bcast", c, n, d, MPI_OP_NULL);
    int e = PMPI_Bcast(b, n, d, root, c);
    leave();
    return e;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c)
{
    enter("MPI_Reduce");
    coll("Red", c, n, d, op);
    int e = PMPI_Reduce(s, r, n, d, op, root, c);
    leave();
    return e;
}
int MPI_File_open(MPI_Comm c, const char *f, int m, MPI_Info i, MPI_File *h)
{
    enter("MPI_File_open");
    coll("Fopen", c, m, MPI_DATATYPE_NULL, MPI_OP_NULL);
    int e = PMPI_File_open(c, f, m, i, h);
    leave();
    return e;
}
int MPI_File_close(MPI_File *h)
{
    enter("MPI_File_close");
    coll("Fclos", MPI_COMM_WORLD, 0, MPI_DATATYPE_NULL, MPI_OP_NULL);
    int e = PMPI_File_close(h);
    leave();
    return e;
}
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void *b, int n, MPI_Datatype d, MPI_Status *s)
{
    enter("MPI_File_write_at");
    int e = PMPI_File_write_at(h, o, b, n, d, s);
    leave();
    return e;
}
int MPI_File_read(MPI_File h, void *b, int n, MPI_Datatype d, MPI_Status *s)
{
    enter("MPI_File_read");
    int e = PMPI_File_read(h, b, n, d, s);
    leave();
    return e;
}

/* Preloaded monitor of the resources a process holds: at every MPI_Allreduce
 * (the program calls one or more per iteration, with no work under way) the
 * bytes allocated by the program, by PETSc and by everything else, the open
 * files and the threads are recorded; written at MPI_Finalize to
 * $MON_MEM.<rank>. */
#define _GNU_SOURCE
#include <dirent.h>
#include <malloc.h>
#include <mpi.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <errno.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

enum { PROG, PETSC, OTHER, NCLASS };
static volatile long live[NCLASS], blocks[NCLASS];
static struct { uintptr_t lo, hi; int cls; } range[64];
static volatile int nrange, ready;

/* who owns a block: only blocks of the program and of PETSc are entered */
#define BITS 21
#define SIZE (1ul << BITS)
#define DEAD ((uintptr_t)1)
static struct { uintptr_t p; uint32_t cls; uint32_t pad; } *tab;
static pthread_spinlock_t lock;
static volatile long lost;

static int cls_of(void *ra)
{
    uintptr_t a = (uintptr_t)ra;
    for (int i = 0; i < nrange; i++)
        if (a >= range[i].lo && a < range[i].hi)
            return range[i].cls;
    return OTHER;
}

static size_t slot(uintptr_t p) { return (p * 0x9E3779B97F4A7C15ull) >> (64 - BITS); }

static void enter(void *q, int c)
{
    uintptr_t p = (uintptr_t)q;
    if (!q || !ready)
        return;
    long n = (long)malloc_usable_size(q);
    if (c != OTHER) {
        pthread_spin_lock(&lock);
        size_t s = slot(p), k;
        for (k = 0; k < SIZE; k++, s = (s + 1) & (SIZE - 1))
            if (tab[s].p <= DEAD) {
                tab[s].p = p;
                tab[s].cls = c;
                break;
            }
        if (k == SIZE)
            lost++;
        pthread_spin_unlock(&lock);
    }
    __atomic_fetch_add(&live[c], n, __ATOMIC_RELAXED);
    __atomic_fetch_add(&blocks[c], 1, __ATOMIC_RELAXED);
}

static int leave(void *q)
{
    uintptr_t p = (uintptr_t)q;
    if (!q || !ready)
        return OTHER;
    long n = (long)malloc_usable_size(q);
    int c = OTHER;
    pthread_spin_lock(&lock);
    size_t s = slot(p);
    for (size_t k = 0; k < SIZE && tab[s].p; k++, s = (s + 1) & (SIZE - 1))
        if (tab[s].p == p) {
            c = tab[s].cls;
            tab[s].p = tab[(s + 1) & (SIZE - 1)].p ? DEAD : 0;
            break;
        }
    pthread_spin_unlock(&lock);
    __atomic_fetch_sub(&live[c], n, __ATOMIC_RELAXED);
    __atomic_fetch_sub(&blocks[c], 1, __ATOMIC_RELAXED);
    return c;
}

void *malloc(size_t n)
{
    void *q = __libc_malloc(n);
    enter(q, cls_of(__builtin_return_address(0)));
    return q;
}

void *calloc(size_t a, size_t b)
{
    void *q = __libc_calloc(a, b);
    enter(q, cls_of(__builtin_return_address(0)));
    return q;
}

void *realloc(void *p, size_t n)
{
    int c = p ? leave(p) : cls_of(__builtin_return_address(0));
    void *q = __libc_realloc(p, n);
    enter(q ? q : (n ? p : 0), c);
    return q;
}

void free(void *p)
{
    int e = errno;
    leave(p);
    __libc_free(p);
    errno = e;
}

static void *aligned(size_t a, size_t n, void *ra)
{
    void *q = __libc_memalign(a, n);
    enter(q, cls_of(ra));
    return q;
}

void *memalign(size_t a, size_t n) { return aligned(a, n, __builtin_return_address(0)); }
void *aligned_alloc(size_t a, size_t n) { return aligned(a, n, __builtin_return_address(0)); }
int posix_memalign(void **p, size_t a, size_t n)
{
    void *q = aligned(a, n, __builtin_return_address(0));
    if (!q)
        return ENOMEM;
    *p = q;
    return 0;
}

__attribute__((constructor)) static void start(void)
{
    if (!getenv("MON_MEM"))
        return;
    char exe[4096], line[8192];
    ssize_t n = 0;
    FILE *f = fopen("/proc/self/cmdline", "r");
    if (f) {
        n = fread(exe, 1, sizeof exe - 1, f);
        fclose(f);
    }
    exe[n > 0 ? n : 0] = 0;
    char *base = strrchr(exe, '/') ? strrchr(exe, '/') + 1 : exe;
    f = fopen("/proc/self/maps", "r");
    while (f && fgets(line, sizeof line, f) && nrange < 64) {
        unsigned long lo, hi;
        char perm[8] = "";
        if (sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) != 3 || perm[2] != 'x')
            continue;
        char *b = strrchr(line, '/');
        if (!b)
            continue;
        b[strcspn(b, "\n")] = 0;
        int c = !strcmp(b + 1, base) || strstr(b, "libstdc++") ? PROG : strstr(b, "libpetsc") ? PETSC : -1;
        if (c >= 0) {
            range[nrange].lo = lo;
            range[nrange].hi = hi;
            range[nrange].cls = c;
            nrange++;
        }
    }
    if (f)
        fclose(f);
    tab = mmap(0, SIZE * sizeof *tab, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pthread_spin_init(&lock, 0);
    if (tab != MAP_FAILED && nrange)
        ready = 1;
}

#define MAXS 200000
static struct { long live[NCLASS], blocks[NCLASS]; int fds, threads; } *rec;
static long nrec;

static int entries(const char *d)
{
    int n = 0;
    DIR *x = opendir(d);
    if (!x)
        return -1;
    while (readdir(x))
        n++;
    closedir(x);
    return n - 2;
}

static void sample(void)
{
    if (!ready || nrec >= MAXS)
        return;
    if (!rec)
        rec = mmap(0, MAXS * sizeof *rec, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int c = 0; c < NCLASS; c++) {
        rec[nrec].live[c] = live[c];
        rec[nrec].blocks[c] = blocks[c];
    }
    int full = nrec % 16 == 0;
    rec[nrec].fds = full ? entries("/proc/self/fd") : -1;
    rec[nrec].threads = full ? entries("/proc/self/task") : -1;
    nrec++;
}

int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    sample();
    return PMPI_Allreduce(a, b, n, t, o, c);
}

int MPI_Finalize(void)
{
    const char *p = getenv("MON_MEM");
    if (p && ready) {
        int r = 0;
        char name[4096];
        PMPI_Comm_rank(MPI_COMM_WORLD, &r);
        snprintf(name, sizeof name, "%s.%d", p, r);
        ready = 0;
        FILE *f = fopen(name, "w");
        if (f) {
            for (long i = 0; i < nrec; i++)
                fprintf(f, "%ld %ld %ld %ld %ld %ld %d %d\n", rec[i].live[0], rec[i].blocks[0], rec[i].live[1], rec[i].blocks[1], rec[i].live[2],
                        rec[i].blocks[2], rec[i].fds, rec[i].threads);
            fprintf(f, "end %ld\n", lost);
            fclose(f);
        }
    }
    return PMPI_Finalize();
}

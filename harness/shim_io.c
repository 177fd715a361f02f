/* Preloaded: makes writes to one file fail, as a full or broken disk would.
   IO_TARGET  last component of the name of the file
   IO_FAIL    fail:K   the K-th write of a process and all later ones return ENOSPC
              short:K  the K-th write only writes a part, later ones return ENOSPC
              once:K   the K-th write only writes a part, later ones succeed (the
                       caller has to go on or to report it)
              eio:K    the K-th read of a process and all later ones return EIO
              part:K   the K-th read only reads a part
   IO_RANK    only in this rank (-1: all)
   What was done is appended to the file IO_LOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static __thread int inside;
static int count;

static int hit(int fd)
{
    const char *t = getenv("IO_TARGET"), *rk = getenv("IO_RANK"), *me = getenv("OMPI_COMM_WORLD_RANK");
    char link[64], name[PATH_MAX];
    ssize_t n;
    if (inside || !t || !getenv("IO_FAIL") || (rk && atoi(rk) >= 0 && me && atoi(rk) != atoi(me)))
        return 0;
    inside = 1;
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    n = readlink(link, name, sizeof(name) - 1);
    inside = 0;
    if (n <= 0)
        return 0;
    name[n] = 0;
    char *b = strrchr(name, '/');
    return b && strcmp(b + 1, t) == 0;
}

static void note(const char *what)
{
    char s[100];
    const char *l = getenv("IO_LOG");
    int fd = l ? open(l, O_WRONLY | O_APPEND | O_CREAT, 0600) : -1;
    if (fd >= 0) {
        int n = snprintf(s, sizeof(s), "%s %d\n", what, count);
        inside = 1;
        if (write(fd, s, n) < 0) {}
        close(fd);
        inside = 0;
    }
}

/* -> bytes that may be written (read) now, or -1 */
static ssize_t allow(int fd, size_t n, int reading)
{
    int k, me;
    char kind[16];
    if (!hit(fd) || sscanf(getenv("IO_FAIL"), "%15[a-z]:%d", kind, &k) != 2 || n == 0)
        return n;
    if (reading != (!strcmp(kind, "eio") || !strcmp(kind, "part")))
        return n;
    me = __sync_fetch_and_add(&count, 1);
    if (me < k)
        return n;
    if (me == k && n > 1 && strcmp(kind, "fail") && strcmp(kind, "eio")) {
        note("short");
        return n / 2;
    }
    if (!strcmp(kind, "once") || !strcmp(kind, "part"))
        return n;
    note("error");
    errno = reading ? EIO : ENOSPC;
    return -1;
}

#define NEXT(name) static __typeof__(&name) next; if (!next) next = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

ssize_t write(int fd, const void *b, size_t n)
{
    NEXT(write);
    ssize_t m = allow(fd, n, 0);
    return m < 0 ? m : next(fd, b, m);
}
ssize_t read(int fd, void *b, size_t n)
{
    NEXT(read);
    ssize_t m = allow(fd, n, 1);
    return m < 0 ? m : next(fd, b, m);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    NEXT(pwrite64);
    ssize_t m = allow(fd, n, 0);
    return m < 0 ? m : next(fd, b, m, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    NEXT(pread64);
    ssize_t m = allow(fd, n, 1);
    return m < 0 ? m : next(fd, b, m, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

/* vectors: piece by piece, under one permission */
static ssize_t part(int fd, const struct iovec *v, int c, off64_t o, int at, int reading)
{
    size_t n = 0;
    ssize_t m, done = 0;
    for (int i = 0; i < c; i++)
        n += v[i].iov_len;
    m = allow(fd, n, reading);
    if (m < 0)
        return m;
    inside++;
    for (int i = 0; i < c && done < m; i++) {
        size_t k = v[i].iov_len < (size_t)(m - done) ? v[i].iov_len : (size_t)(m - done);
        ssize_t r = reading ? (at ? pread64(fd, v[i].iov_base, k, o + done) : read(fd, v[i].iov_base, k))
                            : (at ? pwrite64(fd, v[i].iov_base, k, o + done) : write(fd, v[i].iov_base, k));
        if (r < 0) {
            inside--;
            return done ? done : r;
        }
        done += r;
        if ((size_t)r < k)
            break;
    }
    inside--;
    return done;
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return part(fd, v, c, o, 1, 0); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { return part(fd, v, c, o, 1, 0); }
ssize_t writev(int fd, const struct iovec *v, int c) { return part(fd, v, c, 0, 0, 0); }
ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) { return part(fd, v, c, o, 1, 1); }
ssize_t preadv64(int fd, const struct iovec *v, int c, off64_t o) { return part(fd, v, c, o, 1, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) { return part(fd, v, c, 0, 0, 1); }

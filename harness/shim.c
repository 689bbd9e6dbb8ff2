/* Preloaded into marc: records what happens to files on the disk and makes
   chosen writes fail.

   SHIM_LOG    file the record is appended to, one line per operation
   SHIM_FAULT  KIND:N:ALL  the N-th operation (from one) of KIND on a file
               opened for writing fails with ENOSPC; ALL is 1 if all later
               ones of any kind fail too.  KIND: write flush close open any
   SHIM_DENY   name of a file that may not be opened at all (EACCES)
   SHIM_READ   N:NAME  the N-th read of a file of that name and all later
               ones fail with EIO (opening and seeking work) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAX 64
static struct { FILE *f; char name[512]; } out[MAX];
static int logfd = -1, ready, nth, all, count, failing;
static char kind[16], deny[512], readname[512];
static int readnth, readcount;
static FILE *rd[MAX];

static int (*r_open)(const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);

static void setup(void)
{
    char const *s;
    if (ready) return;
    ready = 1;
    r_open = dlsym(RTLD_NEXT, "open");
    r_write = dlsym(RTLD_NEXT, "write");
    if ((s = getenv("SHIM_LOG")) && *s)
        logfd = r_open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if ((s = getenv("SHIM_FAULT")) && *s)
        sscanf(s, "%15[a-z]:%d:%d", kind, &nth, &all);
    if ((s = getenv("SHIM_DENY")) && *s) snprintf(deny, sizeof deny, "%s", s);
    if ((s = getenv("SHIM_READ")) && *s) sscanf(s, "%d:%511s", &readnth, readname);
}

/* Is the last component of path that name? */
static int named(char const *path, char const *name)
{
    size_t a = strlen(path), b = strlen(name);
    setup();
    return b && a >= b && !strcmp(path + a - b, name) && (a == b || path[a - b - 1] == '/' || name[0] == '/');
}

static void note(char const *op, char const *name)
{
    char b[700];
    int n, e = errno;
    setup();
    if (logfd < 0) return;
    n = snprintf(b, sizeof b, "%s %s\n", op, name);
    if (r_write(logfd, b, n) < 0) { }
    errno = e;
}

static int fault(char const *k, char const *name)
{
    setup();
    if (!nth) return 0;
    if (failing && all) { note("fault", name); errno = ENOSPC; return 1; }
    if (strcmp(kind, "any") && strcmp(kind, k)) return 0;
    if (++count != nth) return 0;
    failing = 1;
    note("fault", name);
    errno = ENOSPC;
    return 1;
}

static int slot(FILE *f)
{
    for (int i = 0; i < MAX; ++i) if (out[i].f == f) return i;
    return -1;
}

static FILE *opened(char const *fn, const char *p, const char *m)
{
    FILE *(*r)(const char *, const char *) = dlsym(RTLD_NEXT, fn);
    FILE *f;
    int w = strpbrk(m, "wa+") != 0;
    setup();
    if (named(p, deny)) { note("unread", p); errno = EACCES; return 0; }
    if (w) {
        note("touch", p);
        if (fault("open", p)) return 0;
    }
    f = r(p, m);
    if (f && !w && named(p, readname))
        for (int i = 0; i < MAX; ++i) if (!rd[i]) { rd[i] = f; break; }
    if (f && w)
        for (int i = 0; i < MAX; ++i)
            if (!out[i].f) { out[i].f = f; snprintf(out[i].name, sizeof out[i].name, "%s", p); break; }
    return f;
}
FILE *fopen(const char *p, const char *m) { return opened("fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return opened("fopen64", p, m); }

size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    size_t (*r)(const void *, size_t, size_t, FILE *) = dlsym(RTLD_NEXT, "fwrite");
    int i = slot(f);
    if (i >= 0 && n && fault("write", out[i].name)) return 0;
    return r(b, s, n, f);
}
size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    size_t (*r)(void *, size_t, size_t, FILE *) = dlsym(RTLD_NEXT, "fread");
    for (int i = 0; f && i < MAX; ++i)
        if (rd[i] == f && ++readcount >= readnth) { note("unread", readname); errno = EIO; return 0; }
    return r(b, s, n, f);
}
int fflush(FILE *f)
{
    int (*r)(FILE *) = dlsym(RTLD_NEXT, "fflush");
    int i = f ? slot(f) : -1;
    /* what could not be written is lost, as in the C library */
    if (i >= 0 && __fpending(f) && fault("flush", out[i].name)) { __fpurge(f); return EOF; }
    return r(f);
}
int fclose(FILE *f)
{
    int (*r)(FILE *) = dlsym(RTLD_NEXT, "fclose");
    int i = slot(f), bad = i >= 0 && fault("close", out[i].name), c;
    if (i >= 0) out[i].f = 0;
    for (int j = 0; j < MAX; ++j) if (rd[j] == f) rd[j] = 0;
    if (bad) __fpurge(f);
    c = r(f);
    if (bad) { errno = ENOSPC; return EOF; }
    return c;
}

#define OPEN(fn) \
int fn(const char *p, int fl, ...) \
{ \
    int (*r)(const char *, int, ...) = dlsym(RTLD_NEXT, #fn); \
    int mode = 0; \
    setup(); \
    if (named(p, deny)) { note("unread", p); errno = EACCES; return -1; } \
    if (fl & O_CREAT) { va_list v; va_start(v, fl); mode = va_arg(v, int); va_end(v); } \
    if ((fl & O_ACCMODE) != O_RDONLY || fl & (O_CREAT | O_TRUNC)) note("touch", p); \
    return r(p, fl, mode); \
}
OPEN(open)
OPEN(open64)

#define ONE(fn) \
int fn(const char *p) { int (*r)(const char *) = dlsym(RTLD_NEXT, #fn); note("touch", p); return r(p); }
ONE(unlink)
ONE(remove)
int rename(const char *a, const char *b)
{
    int (*r)(const char *, const char *) = dlsym(RTLD_NEXT, "rename");
    note("touch", a);
    note("touch", b);
    return r(a, b);
}

// Makes closing or reading a file fail, for the tool under test only (LD_PRELOAD).  FAULT says what, FAULT_MARK is
// a file that is created when the fault has happened.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
static int want(const char *f) { const char *e = getenv("FAULT"); return e && !strcmp(e, f); }
static void mark(void) { const char *m = getenv("FAULT_MARK"); int (*cl)(int) = (int (*)(int))dlsym(RTLD_NEXT, "close"); if (m) { int fd = open(m, O_CREAT | O_WRONLY, 0644); if (fd >= 0) cl(fd); } }
static int output(int fd) { struct stat s; int f = fcntl(fd, F_GETFL); return fd > 2 && f >= 0 && (f & O_ACCMODE) != O_RDONLY && !fstat(fd, &s) && S_ISREG(s.st_mode); }
static int input(int fd) { struct stat s; int f = fcntl(fd, F_GETFL); return fd > 2 && f >= 0 && (f & O_ACCMODE) == O_RDONLY && !fstat(fd, &s) && S_ISREG(s.st_mode); }
int fclose(FILE *f)
{
    int (*real)(FILE *) = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    int out = want("close") && output(fileno(f));
    int r = real(f);
    if (out) { mark(); errno = EIO; return EOF; }
    return r;
}
int close(int fd)
{
    int (*real)(int) = (int (*)(int))dlsym(RTLD_NEXT, "close");
    int out = want("close") && output(fd);
    int r = real(fd);
    if (out) { mark(); errno = EIO; return -1; }
    return r;
}
static void spoil(int fd) { int d = open("/", O_RDONLY | O_DIRECTORY); dup2(d, fd); mark(); }
size_t fread(void *p, size_t s, size_t n, FILE *f)
{
    size_t (*real)(void *, size_t, size_t, FILE *) = (size_t (*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread");
    struct stat st;
    if (want("part") && input(fileno(f)) && !fstat(fileno(f), &st)) { // some of it, then an error
        setvbuf(f, 0, _IONBF, 0); size_t h = st.st_size / 2 / (s ? s : 1); if (h > n) h = n;
        size_t k = h ? real(p, s, h, f) : 0; spoil(fileno(f)); return k + (k < n ? real((char *)p + k * s, s, n - k, f) : 0);
    }
    if (want("read") && input(fileno(f))) spoil(fileno(f));
    return real(p, s, n, f);
}
ssize_t read(int fd, void *p, size_t n)
{
    ssize_t (*real)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    struct stat st;
    if (want("part") && input(fd) && !fstat(fd, &st)) { if (n > (size_t)st.st_size / 2) n = st.st_size / 2; ssize_t k = n ? real(fd, p, n) : 0; spoil(fd); return k > 0 ? k : real(fd, p, n ? n : 1); }
    if (want("read") && input(fd)) spoil(fd);
    return real(fd, p, n);
}

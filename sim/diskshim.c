/* A simulated disk under the library's data files.
 *
 * Loaded with LD_PRELOAD; does nothing until vf_arm() is called.  Files whose path starts with the armed prefix and is
 * not Python source are served from a memory file with the content the simulator chose, and opening, reading, closing
 * and stat-ing them fails as the simulator's plan says.  nl_langinfo(CODESET) can be made to name another encoding.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <langinfo.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXREAD 64
static char prefix[1024];
static char prefix2[1024];
static int armed;
static int open_errno, stat_errno, close_errno;
static const unsigned char *content;
static size_t content_len;
static int have_content;
static int chunk;              /* largest number of bytes one read returns, 0 = no limit */
static int read_errno[MAXREAD]; /* errno of the n-th read call, 0 = none */
static int read_short[MAXREAD]; /* n-th read returns at most this many bytes, 0 = no limit */
static char codeset[64];
static unsigned char tracked[MAXFD];
static long n_open, n_read, n_close, n_stat, n_fired;

void vf_arm(const char *p, const char *p2) {
    snprintf(prefix, sizeof prefix, "%s", p);
    snprintf(prefix2, sizeof prefix2, "%s", p2);
    armed = 1;
}
void vf_clear(void) {
    open_errno = stat_errno = close_errno = 0;
    have_content = 0;
    chunk = 0;
    memset(read_errno, 0, sizeof read_errno);
    memset(read_short, 0, sizeof read_short);
    n_read = 0;
}
void vf_open_errno(int e) { open_errno = e; }
void vf_stat_errno(int e) { stat_errno = e; }
void vf_close_errno(int e) { close_errno = e; }
void vf_content(const unsigned char *b, long n) { content = b; content_len = n; have_content = 1; }
void vf_chunk(int n) { chunk = n; }
void vf_read_errno(int i, int e) { if (i >= 0 && i < MAXREAD) read_errno[i] = e; }
void vf_read_short(int i, int n) { if (i >= 0 && i < MAXREAD) read_short[i] = n; }
void vf_codeset(const char *s) { snprintf(codeset, sizeof codeset, "%s", s); }
long vf_opens(void) { return n_open; }
long vf_reads(void) { return n_read; }
long vf_fired(void) { return n_fired; }
long vf_still_open(void) {
    long n = 0;
    for (int i = 0; i < MAXFD; i++) n += tracked[i];
    return n;
}

static int ends(const char *s, const char *e) {
    size_t a = strlen(s), b = strlen(e);
    return a >= b && !strcmp(s + a - b, e);
}
static int match(const char *p) {
    if (!armed || !p) return 0;
    size_t k = strlen(prefix), k2 = strlen(prefix2);
    if (strncmp(p, prefix, k) && strncmp(p, prefix2, k2)) return 0;
    if (ends(p, ".py") || ends(p, ".pyc") || ends(p, ".pyi") || ends(p, "/py.typed")) return 0;
    return 1;
}
static int is_regular(const char *p) {
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) != 0) return 0;
    return S_ISREG(st.st_mode);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (match(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY) && is_regular(path)) {
        n_open++;
        if (open_errno) { n_fired++; errno = open_errno; return -1; }
        int fd;
        if (have_content) {
            n_fired++;
            fd = syscall(SYS_memfd_create, "registry", 1u /* MFD_CLOEXEC */);
            if (fd < 0) return -1;
            size_t off = 0;
            while (off < content_len) {
                long w = syscall(SYS_write, fd, content + off, content_len - off);
                if (w <= 0) { syscall(SYS_close, fd); errno = EIO; return -1; }
                off += w;
            }
            syscall(SYS_lseek, fd, 0L, SEEK_SET);
        } else {
            fd = syscall(SYS_openat, dirfd, path, flags, mode);
        }
        if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
        return fd;
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}
#define GETMODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(flags) return do_open(d, path, flags, mode); }

static size_t limit(int fd, size_t n, int *fail) {
    *fail = 0;
    if (fd < 0 || fd >= MAXFD || !tracked[fd]) return n;
    long i = n_read++;
    if (i < MAXREAD && read_errno[i]) { n_fired++; *fail = read_errno[i]; return n; }
    if (i < MAXREAD && read_short[i] && n > (size_t)read_short[i]) { n_fired++; n = read_short[i]; }
    if (chunk && n > (size_t)chunk) { n_fired++; n = chunk; }
    return n;
}
ssize_t read(int fd, void *b, size_t n) {
    int e;
    n = limit(fd, n, &e);
    if (e) { errno = e; return -1; }
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    int e;
    n = limit(fd, n, &e);
    if (e) { errno = e; return -1; }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
int close(int fd) {
    int t = fd >= 0 && fd < MAXFD && tracked[fd];
    if (t) { tracked[fd] = 0; n_close++; }
    int r = syscall(SYS_close, fd);
    if (t && close_errno) { n_fired++; errno = close_errno; return -1; }
    return r;
}
static int do_stat(int d, const char *path, struct stat *st, int flags) {
    if (match(path) && is_regular(path)) {
        n_stat++;
        if (stat_errno) { n_fired++; errno = stat_errno; return -1; }
    }
    int r = syscall(SYS_newfstatat, d, path, st, flags);
    if (r == 0 && have_content && match(path) && S_ISREG(st->st_mode)) st->st_size = content_len;
    return r;
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int f) { return do_stat(d, p, st, f); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_stat(d, p, (struct stat *)st, f); }

char *nl_langinfo(nl_item item) {
    static char *(*real)(nl_item);
    if (item == CODESET && codeset[0]) return codeset;
    if (!real) real = (char *(*)(nl_item))dlsym(RTLD_NEXT, "nl_langinfo");
    return real(item);
}

// The node process of the simulator.
//
// One zygote loads libhfst and every tool once; each simulated process is a fork of it. In a
// simulated process, every call that meets the outside world (files, pipes, standard streams,
// clocks, random numbers, commands) is defined here, takes precedence over libc's, and is a
// request to the simulator, which answers it when, and how, the seeded schedule says.
// Code of the system under test is not stubbed.
#include "rpc.h"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ext/stdio_sync_filebuf.h>
#include <glob.h>
#include <iostream>
#include <malloc.h>
#include <poll.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <locale.h>

static int g_fd = -1;           // channel to the simulator; -1 in the zygote: everything is real
static const int VBASE = 10000; // virtual descriptors: 0, 1, 2 and VBASE...
static size_t g_bufsize = 0;    // stdio buffer size of virtual files (0: libc's default)

template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) (*real<decltype(&::name)>(#name))

static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);

static void die(const char *m) {
    if (r_write) { if (r_write(2, m, strlen(m))) {} }
    _exit(121);
}

namespace sim {
static char g_out[64];
int64_t call(Op op, int64_t a, int64_t b, const char *p, size_t n, char *buf, size_t cap, size_t *len, int *err) {
    uint32_t total = 1 + 8 + 8 + (uint32_t)n;
    memcpy(g_out, &total, 4);
    g_out[4] = (char)op;
    memcpy(g_out + 5, &a, 8);
    memcpy(g_out + 13, &b, 8);
    struct iovec iov[2] = {{g_out, 21}, {(void *)p, n}};
    size_t done = 0, want = 21 + n;
    while (done < want) {
        ssize_t r = r_writev(g_fd, iov, 2);
        if (r < 0) { if (errno == EINTR) continue; _exit(122); }
        done += (size_t)r;
        for (int i = 0; i < 2 && r > 0; i++) {
            size_t k = (size_t)r < iov[i].iov_len ? (size_t)r : iov[i].iov_len;
            iov[i].iov_base = (char *)iov[i].iov_base + k;
            iov[i].iov_len -= k;
            r -= (ssize_t)k;
        }
    }
    Reply rep;
    size_t got = 0;
    while (got < sizeof rep) {
        ssize_t r = r_read(g_fd, (char *)&rep + got, sizeof rep - got);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(122);
        got += (size_t)r;
    }
    got = 0;
    while (got < rep.len) {
        char sink[4096];
        char *dst = got < cap ? buf + got : sink;
        size_t room = got < cap ? cap - got : sizeof sink;
        size_t need = rep.len - got;
        ssize_t r = r_read(g_fd, dst, need < room ? need : room);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(122);
        got += (size_t)r;
    }
    if (len) *len = rep.len < cap ? rep.len : cap;
    if (err) *err = rep.err;
    return rep.ret;
}
void event(const std::string &s) { call(EVENT, 0, 0, s.data(), s.size(), nullptr, 0, nullptr, nullptr); }
bool next_op(std::string &s) {
    static char buf[1 << 20];
    size_t len = 0;
    int64_t r = call(NEXTOP, 0, 0, nullptr, 0, buf, sizeof buf, &len, nullptr);
    s.assign(buf, len);
    return r != 0;
}
}
using sim::call;

static bool on() { return g_fd >= 0; }
static bool vfd(int fd) { return on() && ((fd >= 0 && fd <= 2) || fd >= VBASE); }
static bool vpath(const char *p) {
    if (!on() || !p) return false;
    static const char *const sys[] = {"/usr/", "/etc/", "/proc/", "/lib", "/sys/", "/opt/"};
    for (auto s : sys) if (!strncmp(p, s, strlen(s))) return false;
    return true;
}
static int64_t rpc(sim::Op op, int64_t a = 0, int64_t b = 0, const char *p = nullptr, size_t n = 0) {
    int e = 0;
    int64_t r = call(op, a, b, p, n, nullptr, 0, nullptr, &e);
    if (r < 0) errno = e;
    return r;
}
static ssize_t v_read(int fd, char *buf, size_t n, bool raw = false) {
    int e = 0;
    size_t len = 0;
    if (n > 1 << 20) n = 1 << 20;
    int64_t r = call(sim::READ, fd, (int64_t)n, "r", raw ? 1 : 0, buf, n, &len, &e);
    if (r < 0) { errno = e; return -1; }
    return (ssize_t)len;
}
static ssize_t v_write(int fd, const char *buf, size_t n, bool raw = false) {
    if (n > 1 << 20) n = 1 << 20;
    int64_t r = rpc(sim::WRITE, fd, raw, buf, n);
    if (r < 0 && errno == EPIPE) { int e = errno; raise(SIGPIPE); errno = e; }
    return (ssize_t)r;
}
static int v_open(const char *path, int flags, const char *mode) {
    std::string s = std::string(mode) + "\n" + path;
    return (int)rpc(sim::OPEN, flags, 0, s.data(), s.size());
}

// ---- stdio ----------------------------------------------------------------------------------
struct VFile { FILE *f; int fd; };
static VFile g_files[256];
static ssize_t ck_read(void *c, char *buf, size_t n) { return v_read((int)(intptr_t)c, buf, n); }
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    size_t done = 0;
    while (done < n) { // as libc's own file write does
        ssize_t r = v_write((int)(intptr_t)c, buf + done, n - done);
        if (r < 0) return done ? (ssize_t)done : 0;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
    int64_t r = rpc(sim::SEEK, (int)(intptr_t)c, *off, reinterpret_cast<char *>(&whence), sizeof whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) {
    for (auto &v : g_files) if (v.f && v.fd == (int)(intptr_t)c) v.f = nullptr;
    return (int)rpc(sim::CLOSE, (int)(intptr_t)c);
}
static FILE *v_fdopen(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    if (!f) die("fopencookie\n");
    if (g_bufsize) setvbuf(f, nullptr, _IOFBF, g_bufsize);
    for (auto &v : g_files) if (!v.f) { v.f = f; v.fd = fd; return f; }
    die("too many files\n");
    return nullptr;
}

extern "C" {
FILE *fopen(const char *path, const char *mode) {
    if (!vpath(path)) return REAL(fopen)(path, mode);
    int fd = v_open(path, 0, mode);
    if (fd < 0) return nullptr;
    return v_fdopen(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *freopen(const char *path, const char *mode, FILE *f) {
    if (!on()) return REAL(freopen)(path, mode, f);
    errno = ENOSYS; return nullptr;
}
FILE *fdopen(int fd, const char *mode) {
    if (!vfd(fd)) return REAL(fdopen)(fd, mode);
    return v_fdopen(fd, mode);
}
FILE *tmpfile(void) {
    if (!on()) return REAL(tmpfile)();
    int fd = v_open("/v/tmpfile", 0, "tmp");
    return fd < 0 ? nullptr : v_fdopen(fd, "w+");
}
FILE *tmpfile64(void) { return tmpfile(); }
FILE *popen(const char *c, const char *m) {
    if (!on()) return REAL(popen)(c, m);
    rpc(sim::SYSTEM, 1, 0, c, strlen(c)); errno = ENOSYS; return nullptr;
}
int fileno(FILE *f) noexcept {
    if (on()) for (auto &v : g_files) if (v.f == f) return v.fd;
    return REAL(fileno)(f);
}
int fileno_unlocked(FILE *f) noexcept { return fileno(f); }

// ---- descriptors ----------------------------------------------------------------------------
int open(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (!vpath(path)) return REAL(open)(path, flags, m);
    return v_open(path, flags, "fd");
}
int open64(const char *path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open(path, flags, m);
}
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *buf, size_t n) {
    if (!vfd(fd)) return REAL(read)(fd, buf, n);
    return v_read(fd, (char *)buf, n, true);
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!vfd(fd)) return REAL(write)(fd, buf, n);
    return v_write(fd, (const char *)buf, n, true);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (!vfd(fd)) return REAL(writev)(fd, iov, cnt);
    std::string s;
    for (int i = 0; i < cnt; i++) s.append((const char *)iov[i].iov_base, iov[i].iov_len);
    return v_write(fd, s.data(), s.size(), true);
}
off_t lseek(int fd, off_t off, int whence) noexcept {
    if (!vfd(fd)) return REAL(lseek)(fd, off, whence);
    return rpc(sim::SEEK, fd, off, reinterpret_cast<char *>(&whence), sizeof whence);
}
off64_t lseek64(int fd, off64_t off, int whence) noexcept { return lseek(fd, off, whence); }
int close(int fd) {
    if (!vfd(fd)) return REAL(close)(fd);
    return (int)rpc(sim::CLOSE, fd);
}
int isatty(int fd) noexcept {
    if (!vfd(fd)) return REAL(isatty)(fd);
    int r = (int)rpc(sim::ISATTY, fd);
    if (!r) errno = ENOTTY;
    return r;
}
int fsync(int fd) { if (!vfd(fd)) return REAL(fsync)(fd); return 0; }
static int fill_stat(struct stat *st, int64_t r) {
    memset(st, 0, sizeof *st);
    st->st_mode = (r >> 62) & 1 ? (S_IFIFO | 0600) : (S_IFREG | 0644);
    st->st_size = r & ((1LL << 60) - 1);
    st->st_nlink = 1;
    st->st_blksize = 4096;
    return 0;
}
int fstat(int fd, struct stat *st) noexcept {
    if (!vfd(fd)) return REAL(fstat)(fd, st);
    int64_t r = rpc(sim::STAT, fd);
    return r < 0 ? -1 : fill_stat(st, r);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) noexcept {
    if (!vpath(p)) return REAL(stat)(p, st);
    int64_t r = rpc(sim::STAT, -1, 0, p, strlen(p));
    return r < 0 ? -1 : fill_stat(st, r);
}
int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) noexcept { return stat(p, st); }
int access(const char *p, int m) noexcept {
    if (!vpath(p)) return REAL(access)(p, m);
    return rpc(sim::STAT, -1, 0, p, strlen(p)) < 0 ? -1 : 0;
}
int unlink(const char *p) noexcept {
    if (!vpath(p)) return REAL(unlink)(p);
    return (int)rpc(sim::UNLINK, 0, 0, p, strlen(p));
}
int remove(const char *p) noexcept {
    if (!vpath(p)) return REAL(remove)(p);
    return (int)rpc(sim::UNLINK, 0, 0, p, strlen(p));
}
int rename(const char *a, const char *b) noexcept {
    if (!vpath(a)) return REAL(rename)(a, b);
    std::string s = std::string(a) + "\n" + b;
    return (int)rpc(sim::RENAME, 0, 0, s.data(), s.size());
}
int mkstemp(char *t) {
    if (!on()) return REAL(mkstemp)(t);
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    snprintf(t + n - 6, 7, "%06d", (int)rpc(sim::TEMPNAM));
    return v_open(t, O_CREAT | O_RDWR | O_TRUNC, "fd");
}
char *tempnam(const char *, const char *pfx) noexcept {
    char b[128];
    snprintf(b, sizeof b, "/v/tmp-%.40s%06d", pfx ? pfx : "", (int)rpc(sim::TEMPNAM));
    return strdup(b);
}
char *getcwd(char *b, size_t n) noexcept {
    if (!on()) return REAL(getcwd)(b, n);
    if (!b) return strdup("/v");
    if (n < 3) { errno = ERANGE; return nullptr; }
    return strcpy(b, "/v");
}
char *get_current_dir_name(void) noexcept { return strdup("/v"); }
int poll(struct pollfd *p, nfds_t n, int t) {
    if (!on()) return REAL(poll)(p, n, t);
    int c = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (vfd(p[i].fd)) { p[i].revents = p[i].events & (POLLIN | POLLOUT); c += !!p[i].revents; } }
    return c;
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (!vfd(fd)) return REAL(ioctl)(fd, req, arg);
    errno = ENOTTY; return -1;
}
int system(const char *c) {
    if (!on()) return REAL(system)(c);
    return (int)rpc(sim::SYSTEM, 0, 0, c ? c : "", c ? strlen(c) : 0);
}
static int g_pid = 4242;
pid_t getpid(void) noexcept { if (!on()) return REAL(getpid)(); return g_pid; }
int glob(const char *pat, int flags, int (*ef)(const char *, int), glob_t *g) noexcept {
    if (!on()) return REAL(glob)(pat, flags, ef, g);
    g->gl_pathc = 0; g->gl_pathv = nullptr;
    if (rpc(sim::STAT, -1, 0, pat, strlen(pat)) < 0) return GLOB_NOMATCH;
    g->gl_pathc = 1;
    g->gl_pathv = (char **)calloc(2, sizeof(char *));
    g->gl_pathv[0] = strdup(pat);
    return 0;
}
void globfree(glob_t *g) noexcept {
    if (!on()) return REAL(globfree)(g);
    for (size_t i = 0; i < g->gl_pathc; i++) free(g->gl_pathv[i]);
    free(g->gl_pathv); g->gl_pathv = nullptr; g->gl_pathc = 0;
}

ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
int __open_2(const char *p, int fl) { return open(p, fl); }
int __open64_2(const char *p, int fl) { return open(p, fl); }
char *__getcwd_chk(char *b, size_t n, size_t) { return getcwd(b, n); }

// ---- time and randomness --------------------------------------------------------------------
clock_t clock(void) noexcept { if (!on()) return REAL(clock)(); return (clock_t)rpc(sim::CLOCK, 0); }
time_t time(time_t *t) noexcept {
    if (!on()) { struct timespec ts; REAL(clock_gettime)(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    time_t r = (time_t)(rpc(sim::CLOCK, 1) / 1000000);
    if (t) *t = r;
    return r;
}
int gettimeofday(struct timeval *tv, void *tz) noexcept {
    if (!on()) return REAL(gettimeofday)(tv, (struct timezone *)tz);
    int64_t us = rpc(sim::CLOCK, 1);
    tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (!on()) return REAL(clock_gettime)(id, ts);
    int64_t us = rpc(sim::CLOCK, id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? 0 : id == CLOCK_REALTIME ? 1 : 2);
    ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000;
    return 0;
}
clock_t times(struct tms *t) noexcept {
    if (!on()) return REAL(times)(t);
    int64_t us = rpc(sim::CLOCK, 0);
    t->tms_utime = us / 10000; t->tms_stime = t->tms_cutime = t->tms_cstime = 0;
    return us / 10000;
}
int rand(void) noexcept { if (!on()) return REAL(rand)(); return (int)rpc(sim::RAND, 0) & INT_MAX; }
void srand(unsigned s) noexcept { if (!on()) return REAL(srand)(s); rpc(sim::SRAND, s); }
long random(void) noexcept { if (!on()) return REAL(random)(); return (long)rpc(sim::RAND, 1) & INT_MAX; }
void srandom(unsigned s) noexcept { if (!on()) return REAL(srandom)(s); rpc(sim::SRAND, s); }
int rand_r(unsigned *s) noexcept { if (!on()) return REAL(rand_r)(s); return (int)rpc(sim::RAND, 2) & INT_MAX; }
double drand48(void) noexcept { if (!on()) return REAL(drand48)(); return (double)((uint64_t)rpc(sim::RAND, 3) & 0x7fffffff) / 2147483648.0; }
void srand48(long s) noexcept { if (!on()) return REAL(srand48)(s); rpc(sim::SRAND, s); }
uint32_t arc4random(void) noexcept { return (uint32_t)rpc(sim::RAND, 4); }
int getentropy(void *b, size_t n) {
    if (!on()) return REAL(getentropy)(b, n);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)rpc(sim::RAND, 5);
    return 0;
}
} // extern "C"

// ---- zygote ---------------------------------------------------------------------------------
// The standard streams are the simulator's before any tool is loaded: tools have globals like "FILE *inputfile = stdin".
static void standard_streams() {
    FILE *in = v_fdopen(0, "r"), *out = v_fdopen(1, "w"), *err = v_fdopen(2, "w");
    setvbuf(err, nullptr, _IONBF, 0);
    stdin = in; stdout = out; stderr = err;
    static __gnu_cxx::stdio_sync_filebuf<char> b0(in), b1(out), b2(err);
    std::cin.rdbuf(&b0); std::cout.rdbuf(&b1); std::cerr.rdbuf(&b2); std::clog.rdbuf(&b2);
}
static char g_spec[1 << 20];
static struct { const char *name; void *handle; } g_tools[128];

// Everything a program must not depend on: what fresh and freed memory and the stack contain, in which order addresses come.
static __attribute__((noinline)) void stain_stack(int c) {
    volatile char b[1 << 18];
    for (size_t i = 0; i < sizeof b; i++) b[i] = (char)c;
}
static void perturb(const char *spec) {     // "byte.heap.pid"
    int byte = 0; unsigned heap = 0; int pid = 0;
    sscanf(spec, "%d.%u.%d", &byte, &heap, &pid);
    if (pid) g_pid = pid;
    if (byte) { mallopt(M_PERTURB, byte); stain_stack(byte); }
    if (heap) {
        uint64_t x = heap;
        auto next = [&](unsigned n) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((x >> 33) % n); };
        std::vector<void *> v(200 + next(3000));
        for (auto &p : v) p = malloc(1 + next(4) * next(130) + next(60));
        for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[next((unsigned)i + 1)]);
        size_t keep = next((unsigned)v.size());
        for (size_t i = keep; i < v.size(); i++) free(v[i]);
    }
}

static void child(char *spec, size_t n, int fd) {
    // spec: NUL-terminated fields: kind, bufsize, perturb, tty mask, argv...
    std::vector<char *> f;
    for (size_t i = 0; i < n;) { f.push_back(spec + i); i += strlen(spec + i) + 1; }
    if (f.size() < 5) die("spec\n");
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = 40; rl.rlim_max = 41; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 3ULL << 30; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_FSIZE, &rl); // nothing real is ever written
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_bufsize = (size_t)atol(f[1]);
    perturb(f[2]);
    int tty = atoi(f[3]);
    g_fd = fd;
    rpc(sim::HELLO);
    if (g_bufsize) { setvbuf(stdin, nullptr, _IOFBF, g_bufsize); setvbuf(stdout, nullptr, _IOFBF, g_bufsize); }
    if (tty & 2) setvbuf(stdout, nullptr, _IOLBF, 8192);
    std::vector<char *> argv(f.begin() + 4, f.end());
    int argc = (int)argv.size();
    argv.push_back(nullptr);
    program_invocation_name = program_invocation_short_name = argv[0];
    int rc;
    if (!strcmp(f[0], "client")) {
        rc = client_main();
    } else {
        void *h = nullptr;
        for (auto &t : g_tools) if (t.name && !strcmp(t.name, f[0])) h = t.handle;
        if (!h) die("tool not loaded\n");
        auto m = (int (*)(int, char **))dlsym(h, "main");
        if (!m) die("no main\n");
        rc = m(argc, argv.data());
    }
    exit(rc);
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: hfstsim CONTROL_FD BIN_DIR TOOL...\n"); return 2; }
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1 && !getenv("HFSTSIM_ASLR")) {
        setenv("HFSTSIM_ASLR", "off", 1);
        execv("/proc/self/exe", argv);
    }
    int ctl = atoi(argv[1]);
    r_read = real<decltype(r_read)>("read");
    r_write = real<decltype(r_write)>("write");
    r_writev = real<decltype(r_writev)>("writev");
    signal(SIGPIPE, SIG_DFL);
    setlocale(LC_ALL, "C");
    standard_streams();
    for (int i = 3; i < argc; i++) {
        std::string p = std::string(argv[2]) + "/" + argv[i] + ".so";
        g_tools[i - 3].name = argv[i];
        if (!(g_tools[i - 3].handle = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL))) { const char *e = dlerror(); if (r_write(2, e, strlen(e)) < 0) {} _exit(3); }
    }
    if (r_write(ctl, "ready", 5) != 5) _exit(2);
    for (;;) {
        struct iovec iov = {g_spec, sizeof g_spec};
        union { char b[CMSG_SPACE(sizeof(int))]; struct cmsghdr h; } cm;
        struct msghdr mh = {};
        mh.msg_iov = &iov; mh.msg_iovlen = 1; mh.msg_control = cm.b; mh.msg_controllen = sizeof cm.b;
        ssize_t n = recvmsg(ctl, &mh, 0);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) _exit(0);
        int32_t rep[2] = {0, 0};
        if (g_spec[0] == 'F') {
            int fd = -1;
            struct cmsghdr *c = CMSG_FIRSTHDR(&mh);
            if (c) memcpy(&fd, CMSG_DATA(c), sizeof fd);
            pid_t pid = fork();
            if (pid == 0) { REAL(close)(ctl); child(g_spec + 1, (size_t)n - 1, fd); _exit(123); }
            REAL(close)(fd);
            rep[0] = pid;
        } else {
            int32_t pid; memcpy(&pid, g_spec + 1, 4);
            if (g_spec[0] == 'K') kill(pid, SIGKILL);
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            rep[0] = pid; rep[1] = st;
        }
        if (r_write(ctl, rep, sizeof rep) != sizeof rep) _exit(2);
    }
}

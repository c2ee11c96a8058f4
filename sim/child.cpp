// qbsim: the process side.  libc entry points the code under test (or libstdc++
// and Boost on its behalf) can reach are defined here and win over libc's by
// symbol interposition.  Outside a simulated process they pass straight through.
#include "rpc.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <unistd.h>

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
const char* __asan_default_options();
const char* __ubsan_default_options();
const char* __asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigbus=0:handle_sigfpe=0:use_sigaltstack=0:"
           "symbolize=0:halt_on_error=1:exitcode=94:alloc_dealloc_mismatch=0:allocator_may_return_null=1:print_legend=0:"
           "detect_stack_use_after_return=0:color=never";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=94:symbolize=0:print_stacktrace=0:color=never"; }
}

namespace qs {

static bool g_active = false; // in a simulated process
static int g_sock = -1;
static Rpc* g_shm = 0;
static ChildCfg g_cfg;
enum { FAKE_FD = 1000000, MAX_FAKE = 4096 };

template <class F> static F real(const char* name, F& slot) {
    if (!slot) slot = (F)dlsym(RTLD_NEXT, name);
    return slot;
}
#define REAL(name) \
    static decltype(&::name) slot_##name; \
    auto real_##name = real(#name, slot_##name)

static ssize_t real_write_fd(int fd, const void* p, size_t n) {
    return syscall(SYS_write, fd, p, n);
}

// One request to the simulated kernel.  Returns false when errno was set.
static bool rpc(int op) {
    g_shm->op = op;
    g_shm->err = 0;
    char c = 1;
    while (::syscall(SYS_write, g_sock, &c, 1) != 1) {
        if (errno != EINTR) ::syscall(SYS_exit_group, 98);
    }
    for (;;) {
        long r = ::syscall(SYS_read, g_sock, &c, 1);
        if (r == 1) break;
        if (r == 0 || errno != EINTR) ::syscall(SYS_exit_group, 98);
    }
    if (g_shm->err) {
        errno = g_shm->err;
        return false;
    }
    return true;
}

static bool set_path(char* dst, const char* src) {
    if (!src) { errno = EFAULT; return false; }
    size_t n = strlen(src);
    if (n >= RPC_PATH || n >= 4096) { errno = ENAMETOOLONG; return false; }
    memcpy(dst, src, n + 1);
    return true;
}

static void unsupported(const char* what) {
    ++g_shm->unsupported;
    char b[128];
    int n = snprintf(b, sizeof b, "QBSIM-UNSUPPORTED %s\n", what);
    real_write_fd(2, b, (size_t)n);
}

// ---------------------------------------------------------------- allocator
static char *ar_base, *ar_lo, *ar_hi;
static char *ar_plo, *ar_phi; // poisoned so far, from the bottom and from the top
static const size_t AR_SIZE = 1ull << 30;
static uint64_t heap_rng;
static int64_t alloc_seq;
static unsigned char fill_new, fill_free = 0xDD;
static const uint64_t MAGIC = 0x5162416c6c6f6321ull, DEAD = 0x46726565644d656dull,
                      TAIL = 0xC3A5C3A5F00DF00Dull;
struct Hdr {
    uint64_t magic;
    uint64_t size;
    Hdr* next; // freelist
    uint64_t pad;
};
static Hdr* freelist[64];

static uint64_t hrand() {
    uint64_t z = (heap_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void heap_fail(int code, const char* msg) {
    g_shm->heap_error = code;
    char b[160];
    int n = snprintf(b, sizeof b, "QBSIM-HEAP %s\n", msg);
    real_write_fd(2, b, (size_t)n);
    ::syscall(SYS_exit_group, 97);
}

static void arena_init() {
    void* want = (void*)0x300000000000ull; // where nothing else wants to be
    void* p = mmap(want, AR_SIZE, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != want) ::syscall(SYS_exit_group, 96);
    ::syscall(SYS_madvise, p, AR_SIZE, 14 /* MADV_HUGEPAGE */);
    ar_base = ar_lo = (char*)p;
    ar_hi = ar_base + AR_SIZE;
    ar_plo = ar_lo;
    ar_phi = ar_hi;
    heap_rng = g_cfg.heap_seed * 77 + 5;
    switch (g_cfg.heap_seed % 4) {
    case 0: fill_new = 0; break;
    case 1: fill_new = 0xFF; break;
    case 2: fill_new = 0xA5; break;
    default: fill_new = (unsigned char)(hrand() & 0xff); break;
    }
    alloc_seq = 0;
}

static inline size_t round16(size_t n) { return (n + 15) & ~(size_t)15; }
static inline size_t block_size(size_t n) { return sizeof(Hdr) + round16(n + 8); }

// With the sanitizers (build.sh QBSIM_SAN) whatever is not a live block may not be touched.
static void poison_ahead() {
    if (!__asan_poison_memory_region) return;
    const size_t ahead = 128 * 1024;
    while (ar_plo < ar_base + AR_SIZE && ar_plo < ar_lo + ahead) {
        __asan_poison_memory_region(ar_plo, ahead);
        ar_plo += ahead;
    }
    while (ar_phi > ar_base && ar_phi > ar_hi - ahead) {
        ar_phi -= ahead;
        __asan_poison_memory_region(ar_phi, ahead);
    }
}

// Where in the program the memory is asked for: the innermost return addresses
// into it, as far as they can be told from other words on the stack.
static uintptr_t g_stack_top;
extern "C" char __executable_start, etext;
static __attribute__((noinline)) void note_site(size_t at) {
    unsigned char const *lo = (unsigned char const*)&__executable_start, *hi = (unsigned char const*)&etext;
    uintptr_t const* sp = (uintptr_t const*)__builtin_frame_address(0);
    uint32_t h = 2166136261u;
    int found = 0;
    for (int i = 0; i < 600 && found < 13 && (uintptr_t)(sp + i) < g_stack_top; ++i) {
        unsigned char const* ret = (unsigned char const*)sp[i];
        if (ret < lo + 16 || ret >= hi) continue;
        if (ret[-5] != 0xE8 && !(ret[-2] == 0xFF && (ret[-1] & 0x38) == 0x10) && !(ret[-3] == 0xFF && (ret[-2] & 0x38) == 0x10) &&
            !(ret[-6] == 0xFF && (ret[-5] & 0x38) == 0x10))
            continue;
        ++found;
        if (found <= 3) continue; // of this file
        h = (h ^ (uint32_t)(ret - lo)) * 16777619u;
        if (found == 7) g_shm->sites[0][at] = h;
    }
    if (found < 7) g_shm->sites[0][at] = h;
    g_shm->sites[1][at] = h;
}

static void* arena_alloc(size_t n) {
    ++alloc_seq;
    g_shm->alloc_count = alloc_seq;
    if (g_cfg.record_sites && alloc_seq <= RPC_SITES) note_site((size_t)alloc_seq - 1);
    if (g_cfg.alloc_fail_at && alloc_seq >= g_cfg.alloc_fail_at &&
        (g_cfg.alloc_fail_count == 0 || alloc_seq < g_cfg.alloc_fail_at + g_cfg.alloc_fail_count)) {
        ++g_shm->alloc_failed;
        return 0;
    }
    if (n > AR_SIZE / 2) {
        ++g_shm->alloc_failed;
        return 0;
    }
    g_shm->alloc_bytes += (int64_t)n;
    ++g_shm->live_allocs;
    size_t bs = block_size(n);
    Hdr* h = 0;
    if (g_cfg.heap_mode == 3) {
        size_t cls = bs / 16;
        if (cls < 64 && freelist[cls]) {
            h = freelist[cls];
            freelist[cls] = h->next;
        }
    }
    if (!h) {
        size_t gap = g_cfg.heap_mode == 2 ? (hrand() % 32) * 16 : 0;
        if ((size_t)(ar_hi - ar_lo) < bs + gap) {
            g_shm->heap_error = 4;
            ++g_shm->alloc_failed;
            return 0;
        }
        if (g_cfg.heap_mode == 1) {
            ar_hi -= bs;
            h = (Hdr*)ar_hi;
        }
        else {
            if (gap) {
                // keep the arena walkable
                Hdr* g = (Hdr*)ar_lo;
                if (gap < sizeof(Hdr) + 16) gap = sizeof(Hdr) + 16;
                if ((size_t)(ar_hi - ar_lo) < bs + gap) gap = 0;
                else {
                    g->magic = 0;
                    g->size = gap;
                    ar_lo += gap;
                }
            }
            h = (Hdr*)ar_lo;
            ar_lo += bs;
        }
    }
    poison_ahead();
    h->magic = MAGIC;
    h->size = n;
    char* p = (char*)(h + 1);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n);
    memset(p, fill_new, n);
    uint64_t t = TAIL;
    memcpy(p + n, &t, 8);
    return p;
}

static inline bool in_arena(void* p) {
    return ar_base && (char*)p >= ar_base && (char*)p < ar_base + AR_SIZE;
}

static void arena_free(void* p) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD) heap_fail(1, "double free");
    if (h->magic != MAGIC) heap_fail(1, "invalid free");
    uint64_t t;
    memcpy(&t, (char*)p + h->size, 8);
    if (t != TAIL) heap_fail(2, "heap block overrun");
    --g_shm->live_allocs;
    h->magic = DEAD;
    memset(p, fill_free, h->size);
    if (__asan_poison_memory_region) __asan_poison_memory_region(p, h->size);
    if (g_cfg.heap_mode == 3) {
        size_t cls = block_size(h->size) / 16;
        if (cls < 64) {
            h->next = freelist[cls];
            freelist[cls] = h;
        }
    }
}

// At the very end of the process: every block's guard is intact, and in the
// never-reuse modes nothing wrote to freed memory.
static void arena_check() {
    if (!g_active || !ar_base) return;
    bool down = g_cfg.heap_mode == 1;
    char *q = down ? ar_hi : ar_base, *end = down ? ar_base + AR_SIZE : ar_lo;
    while (q < end) {
        Hdr* h = (Hdr*)q;
        if (h->magic == 0) { q += h->size; continue; }
        if (h->magic != MAGIC && h->magic != DEAD) heap_fail(2, "heap block header overwritten");
        char* p = (char*)(h + 1);
        uint64_t t;
        memcpy(&t, p + h->size, 8);
        if (t != TAIL) heap_fail(2, "heap block overrun (found at exit)");
        if (h->magic == DEAD && g_cfg.heap_mode != 3) {
            for (size_t i = 0; i < h->size; ++i)
                if ((unsigned char)p[i] != fill_free) heap_fail(3, "write after free");
        }
        q += block_size(h->size);
    }
}
struct ArenaCheckReg {
    ArenaCheckReg() { atexit(arena_check); }
};
__attribute__((init_priority(101))) static ArenaCheckReg arena_check_reg;

static void* do_new(size_t n) {
    if (g_active) return arena_alloc(n);
    return malloc(n ? n : 1);
}
static void do_delete(void* p) {
    if (!p) return;
    if (in_arena(p)) {
        if (g_active) arena_free(p);
        return;
    }
    free(p);
}

// ---------------------------------------------------------------- run
static __attribute__((noinline)) void paint_stack(unsigned char v) {
    volatile char buf[384 * 1024];
    for (size_t i = 0; i < sizeof buf; i += 1) buf[i] = (char)v;
    asm volatile("" ::"r"(&buf[0]) : "memory");
}

void child_run(int sock, Rpc* shm, ChildCfg const& cfg, int (*entry)(int, char**), int argc,
    char** argv) {
    g_sock = sock;
    g_shm = shm;
    g_cfg = cfg;
    g_stack_top = (uintptr_t)__builtin_frame_address(0);
    arena_init();
    paint_stack(fill_new ^ 0x5A);
    g_active = true;
    int r = entry(argc, argv);
    g_shm->reached_exit = 1;
    exit(r);
}

static int open_common(const char* path, int flags, int mode) {
    if (!set_path(g_shm->path, path)) return -1;
    g_shm->a = flags;
    g_shm->b = mode;
    if (!rpc(OP_OPEN)) return -1;
    return FAKE_FD + (int)g_shm->ret;
}
static inline bool fake(int fd) { return g_active && fd >= FAKE_FD && fd < FAKE_FD + MAX_FAKE; }

static ssize_t sim_read(int fd, void* buf, size_t n) {
    if (n > RPC_DATA) n = RPC_DATA;
    g_shm->a = fd - FAKE_FD;
    g_shm->b = (int64_t)n;
    if (!rpc(OP_READ)) return -1;
    memcpy(buf, g_shm->data, (size_t)g_shm->ret);
    return (ssize_t)g_shm->ret;
}
static ssize_t sim_write(int fd, const void* buf, size_t n) {
    if (n > RPC_DATA) n = RPC_DATA;
    g_shm->a = fd - FAKE_FD;
    g_shm->b = (int64_t)n;
    memcpy(g_shm->data, buf, n);
    if (!rpc(OP_WRITE)) return -1;
    return (ssize_t)g_shm->ret;
}
static int64_t sim_lseek(int fd, int64_t off, int wh) {
    g_shm->a = fd - FAKE_FD;
    g_shm->b = off;
    g_shm->c = wh;
    if (!rpc(OP_LSEEK)) return -1;
    return g_shm->ret;
}
static int sim_close(int fd) {
    g_shm->a = fd - FAKE_FD;
    return rpc(OP_CLOSE) ? 0 : -1;
}

// FILE* over a simulated file
static struct FileMap { FILE* f; int fd; } file_map[256];
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    ssize_t r = sim_write((int)(intptr_t)c, b, n);
    return r < 0 ? 0 : r; // cookie protocol: 0 is an error
}
static int ck_seek(void* c, off64_t* off, int wh) {
    int64_t r = sim_lseek((int)(intptr_t)c, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void* c) {
    int fd = (int)(intptr_t)c;
    for (auto& m : file_map)
        if (m.f && m.fd == fd) m.f = 0;
    return sim_close(fd);
}
static FILE* make_file(int fd, const char* mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
    if (!f) return 0;
    for (auto& m : file_map)
        if (!m.f) {
            m.f = f;
            m.fd = fd;
            return f;
        }
    ::syscall(SYS_exit_group, 95);
    return 0;
}
static int mode_flags(const char* mode) {
    int fl = 0;
    bool plus = strchr(mode, '+') != 0;
    switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return -1;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    return fl;
}
static FILE* sim_fopen(const char* path, const char* mode) {
    int fl = mode_flags(mode);
    if (fl < 0) { errno = EINVAL; return 0; }
    int fd = open_common(path, fl, 0666);
    if (fd < 0) return 0;
    return make_file(fd, mode);
}

static void fill_stat(struct stat* st, const StatBuf& s) {
    memset(st, 0, sizeof *st);
    st->st_dev = 77;
    st->st_ino = s.ino;
    st->st_mode = s.mode;
    st->st_nlink = s.nlink;
    st->st_uid = st->st_gid = 1000;
    st->st_size = (off_t)s.size;
    st->st_blksize = 4096;
    st->st_blocks = (blkcnt_t)((s.size + 511) / 512);
    st->st_mtim.tv_sec = s.mtime_s;
    st->st_mtim.tv_nsec = s.mtime_ns;
    st->st_atim = st->st_ctim = st->st_mtim;
}
static int sim_stat(int op, const char* path, struct stat* st) {
    if (!set_path(g_shm->path, path)) return -1;
    if (!rpc(op)) return -1;
    fill_stat(st, g_shm->st);
    return 0;
}
static int sim_fstat(int fd, struct stat* st) {
    g_shm->a = fd - FAKE_FD;
    if (!rpc(OP_FSTAT)) return -1;
    fill_stat(st, g_shm->st);
    return 0;
}

struct SimDir {
    uint32_t magic;
    int fd;
    struct dirent de;
};
static const uint32_t DIRMAGIC = 0x51424449;

static DIR* sim_opendir_fd(int fd) {
    SimDir* d = (SimDir*)calloc(1, sizeof(SimDir));
    d->magic = DIRMAGIC;
    d->fd = fd;
    return (DIR*)d;
}

static int64_t sim_time_ns(int clk) {
    g_shm->a = clk;
    rpc(OP_TIME);
    return g_shm->ret;
}

// the next path is relative to this directory
static bool at(int d, const char* p, bool second = false) {
    if (!p) { errno = EFAULT; return false; }
    int32_t& x = second ? g_shm->dfd2 : g_shm->dfd;
    x = 0;
    if (d == AT_FDCWD || p[0] == '/') return true;
    if (d < FAKE_FD || d >= FAKE_FD + MAX_FAKE) { errno = EBADF; return false; }
    x = d - FAKE_FD + 1;
    return true;
}
static int path1(int op, const char* p, int64_t a = 0) {
    if (!set_path(g_shm->path, p)) return -1;
    g_shm->a = a;
    return rpc(op) ? 0 : -1;
}
static int path2(int op, const char* p, const char* q) {
    if (!set_path(g_shm->path, p) || !set_path(g_shm->path2, q)) return -1;
    return rpc(op) ? 0 : -1;
}

} // namespace qs

using namespace qs;

// ---------------------------------------------------------------- operator new/delete
void* operator new(size_t n) {
    void* p = do_new(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) {
    void* p = do_new(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }

// ---------------------------------------------------------------- libc
static long qs_real_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
    return ::syscall(SYS_mmap, (long)a, (long)n, (long)prot, (long)fl, (long)fd, (long)off);
}
extern "C" {

FILE* fopen(const char* path, const char* mode) {
    if (g_active) return sim_fopen(path, mode);
    REAL(fopen);
    return real_fopen(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
    if (g_active) return sim_fopen(path, mode);
    REAL(fopen64);
    return real_fopen64(path, mode);
}
FILE* freopen(const char* path, const char* mode, FILE* f) {
    if (g_active) {
        if (!path || f == stdin || f == stdout || f == stderr) { unsupported("freopen"); errno = ENOSYS; return 0; }
        fclose(f);
        return sim_fopen(path, mode);
    }
    REAL(freopen);
    return real_freopen(path, mode, f);
}
FILE* fdopen(int fd, const char* mode) noexcept {
    if (fake(fd)) return make_file(fd, mode);
    REAL(fdopen);
    return real_fdopen(fd, mode);
}
int fileno(FILE* f) noexcept {
    if (g_active)
        for (auto& m : file_map)
            if (m.f == f) return m.fd;
    REAL(fileno);
    return real_fileno(f);
}

static int open_impl(const char* path, int flags, va_list ap) {
    int mode = 0;
    if (flags & (O_CREAT | 020000000)) mode = va_arg(ap, int);
    return open_common(path, flags, mode);
}
int open(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int r;
    if (g_active) r = open_impl(path, flags, ap);
    else {
        REAL(open);
        r = real_open(path, flags, va_arg(ap, int));
    }
    va_end(ap);
    return r;
}
int open64(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int r;
    if (g_active) r = open_impl(path, flags, ap);
    else {
        REAL(open64);
        r = real_open64(path, flags, va_arg(ap, int));
    }
    va_end(ap);
    return r;
}
int creat(const char* path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int openat(int dfd, const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int r;
    if (g_active) {
        if (!at(dfd, path)) r = -1;
        else r = open_impl(path, flags, ap);
    }
    else {
        REAL(openat);
        r = real_openat(dfd, path, flags, va_arg(ap, int));
    }
    va_end(ap);
    return r;
}
int openat64(int dfd, const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int r;
    if (g_active) {
        if (!at(dfd, path)) r = -1;
        else r = open_impl(path, flags, ap);
    }
    else {
        REAL(openat64);
        r = real_openat64(dfd, path, flags, va_arg(ap, int));
    }
    va_end(ap);
    return r;
}
int __open_2(const char* p, int fl) { return open(p, fl); }
int __open64_2(const char* p, int fl) { return open64(p, fl); }
int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl); }
int __openat64_2(int d, const char* p, int fl) { return openat64(d, p, fl); }

int close(int fd) {
    if (fake(fd)) return sim_close(fd);
    REAL(close);
    return real_close(fd);
}
ssize_t read(int fd, void* b, size_t n) {
    if (fake(fd)) return sim_read(fd, b, n);
    REAL(read);
    return real_read(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
    if (fake(fd)) return sim_write(fd, b, n);
    REAL(write);
    return real_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
    if (!fake(fd)) {
        REAL(writev);
        return real_writev(fd, v, k);
    }
    // one kernel request, like the real thing
    size_t n = 0;
    for (int i = 0; i < k; ++i) {
        size_t m = v[i].iov_len;
        if (n + m > RPC_DATA) m = RPC_DATA - n;
        memcpy(g_shm->data + n, v[i].iov_base, m);
        n += m;
    }
    g_shm->a = fd - FAKE_FD;
    g_shm->b = (int64_t)n;
    if (!rpc(OP_WRITE)) return -1;
    return (ssize_t)g_shm->ret;
}
ssize_t readv(int fd, const struct iovec* v, int k) {
    if (!fake(fd)) {
        REAL(readv);
        return real_readv(fd, v, k);
    }
    ssize_t t = 0;
    for (int i = 0; i < k; ++i) {
        ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
    if (!fake(fd)) {
        REAL(pread);
        return real_pread(fd, b, n, off);
    }
    int64_t cur = sim_lseek(fd, 0, SEEK_CUR);
    if (cur < 0 || sim_lseek(fd, off, SEEK_SET) < 0) return -1;
    ssize_t r = sim_read(fd, b, n);
    int e = errno;
    sim_lseek(fd, cur, SEEK_SET);
    errno = e;
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
    if (!fake(fd)) {
        REAL(pwrite);
        return real_pwrite(fd, b, n, off);
    }
    int64_t cur = sim_lseek(fd, 0, SEEK_CUR);
    if (cur < 0 || sim_lseek(fd, off, SEEK_SET) < 0) return -1;
    ssize_t r = sim_write(fd, b, n);
    int e = errno;
    sim_lseek(fd, cur, SEEK_SET);
    errno = e;
    return r;
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
// a private mapping of a file: what it holds now
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) noexcept {
    if (!fake(fd)) return (void*)::qs_real_mmap(a, n, prot, fl, fd, off);
    if ((fl & MAP_SHARED) && (prot & PROT_WRITE)) { unsupported("mmap"); errno = ENOSYS; return MAP_FAILED; }
    char* m = (char*)::qs_real_mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return m;
    for (size_t k = 0; k < n;) {
        ssize_t r = pread(fd, m + k, n - k, off + (off_t)k);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) break;
        k += (size_t)r;
    }
    return m;
}
void* mmap64(void* a, size_t n, int prot, int fl, int fd, off64_t off) noexcept { return mmap(a, n, prot, fl, fd, off); }
int flock(int fd, int op) noexcept {
    if (fake(fd)) return 0;
    REAL(flock);
    return real_flock(fd, op);
}
int lockf(int fd, int c, off_t n) {
    if (fake(fd)) return 0;
    REAL(lockf);
    return real_lockf(fd, c, n);
}
int posix_fallocate(int fd, off_t a, off_t n) {
    if (!fake(fd)) {
        REAL(posix_fallocate);
        return real_posix_fallocate(fd, a, n);
    }
    struct stat st;
    if (sim_fstat(fd, &st)) return errno;
    if (st.st_size < a + n && ftruncate(fd, a + n)) return errno;
    return 0;
}
off_t lseek(int fd, off_t off, int wh) noexcept {
    if (fake(fd)) return sim_lseek(fd, off, wh);
    REAL(lseek);
    return real_lseek(fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept {
    if (fake(fd)) return sim_lseek(fd, off, wh);
    REAL(lseek64);
    return real_lseek64(fd, off, wh);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (fake(fd)) {
        if (req == FIONREAD) {
            g_shm->a = fd - FAKE_FD;
            if (!rpc(OP_FIONREAD)) return -1;
            *(int*)arg = (int)g_shm->ret;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    REAL(ioctl);
    return real_ioctl(fd, req, arg);
}
int poll(struct pollfd* p, nfds_t n, int to) {
    if (g_active) {
        int r = 0;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = p[i].events & (POLLIN | POLLOUT);
            if (p[i].revents) ++r;
        }
        return r;
    }
    REAL(poll);
    return real_poll(p, n, to);
}
int fsync(int fd) {
    if (fake(fd)) {
        g_shm->a = fd - FAKE_FD;
        return rpc(OP_FSYNC) ? 0 : -1;
    }
    REAL(fsync);
    return real_fsync(fd);
}
int fdatasync(int fd) {
    if (fake(fd)) return fsync(fd);
    REAL(fdatasync);
    return real_fdatasync(fd);
}
int ftruncate(int fd, off_t n) noexcept {
    if (fake(fd)) {
        g_shm->a = fd - FAKE_FD;
        g_shm->b = n;
        return rpc(OP_FTRUNCATE) ? 0 : -1;
    }
    REAL(ftruncate);
    return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) noexcept {
    if (g_active) {
        if (!set_path(g_shm->path, p)) return -1;
        g_shm->a = n;
        return rpc(OP_TRUNCATE) ? 0 : -1;
    }
    REAL(truncate);
    return real_truncate(p, n);
}
int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
int posix_fadvise(int fd, off_t a, off_t b, int c) noexcept {
    if (fake(fd)) return 0;
    REAL(posix_fadvise);
    return real_posix_fadvise(fd, a, b, c);
}
int posix_fadvise64(int fd, off64_t a, off64_t b, int c) noexcept { return posix_fadvise(fd, a, b, c); }
ssize_t sendfile(int o, int i, off_t* off, size_t n) noexcept {
    if (g_active) {
        if (off) { unsupported("sendfile"); errno = ENOSYS; return -1; }
        char b[65536];
        ssize_t r = read(i, b, n < sizeof b ? n : sizeof b);
        if (r <= 0) return r;
        return write(o, b, (size_t)r);
    }
    REAL(sendfile);
    return real_sendfile(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) noexcept { return sendfile(o, i, off, n); }

int fstat(int fd, struct stat* st) noexcept {
    if (fake(fd)) return sim_fstat(fd, st);
    REAL(fstat);
    return real_fstat(fd, st);
}
int fstat64(int fd, struct stat64* st) noexcept {
    if (fake(fd)) return sim_fstat(fd, (struct stat*)st);
    REAL(fstat64);
    return real_fstat64(fd, st);
}
int stat(const char* p, struct stat* st) noexcept {
    if (g_active) return sim_stat(OP_STAT, p, st);
    REAL(stat);
    return real_stat(p, st);
}
int stat64(const char* p, struct stat64* st) noexcept {
    if (g_active) return sim_stat(OP_STAT, p, (struct stat*)st);
    REAL(stat64);
    return real_stat64(p, st);
}
int lstat(const char* p, struct stat* st) noexcept {
    if (g_active) return sim_stat(OP_LSTAT, p, st);
    REAL(lstat);
    return real_lstat(p, st);
}
int lstat64(const char* p, struct stat64* st) noexcept {
    if (g_active) return sim_stat(OP_LSTAT, p, (struct stat*)st);
    REAL(lstat64);
    return real_lstat64(p, st);
}
int fstatat(int dfd, const char* p, struct stat* st, int fl) noexcept {
    if (g_active) {
        if (fake(dfd) && p[0] == 0) return sim_fstat(dfd, st);
        if (!at(dfd, p)) return -1;
        return sim_stat((fl & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT, p, st);
    }
    REAL(fstatat);
    return real_fstatat(dfd, p, st, fl);
}
int fstatat64(int dfd, const char* p, struct stat64* st, int fl) noexcept {
    return fstatat(dfd, p, (struct stat*)st, fl);
}
int statx(int dfd, const char* p, int fl, unsigned mask, struct statx* x) noexcept {
    if (!g_active) {
        REAL(statx);
        return real_statx(dfd, p, fl, mask, x);
    }
    struct stat st;
    int r;
    if (fake(dfd) && p[0] == 0) r = sim_fstat(dfd, &st);
    else if (!at(dfd, p)) return -1;
    else r = sim_stat((fl & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT, p, &st);
    if (r) return r;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_blksize = 4096;
    x->stx_nlink = (uint32_t)st.st_nlink;
    x->stx_uid = x->stx_gid = 1000;
    x->stx_mode = (uint16_t)st.st_mode;
    x->stx_ino = st.st_ino;
    x->stx_size = (uint64_t)st.st_size;
    x->stx_blocks = (uint64_t)st.st_blocks;
    x->stx_mtime.tv_sec = st.st_mtim.tv_sec;
    x->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
    x->stx_atime = x->stx_ctime = x->stx_mtime;
    x->stx_dev_major = 0;
    x->stx_dev_minor = 77;
    return 0;
}
int access(const char* p, int m) noexcept {
    if (g_active) return path1(OP_ACCESS, p, m);
    REAL(access);
    return real_access(p, m);
}
int faccessat(int d, const char* p, int m, int f) noexcept {
    if (g_active) return !at(d, p) ? -1 : path1(OP_ACCESS, p, m);
    REAL(faccessat);
    return real_faccessat(d, p, m, f);
}

DIR* opendir(const char* p) {
    if (g_active) {
        int fd = open_common(p, O_RDONLY | O_DIRECTORY, 0);
        return fd < 0 ? 0 : sim_opendir_fd(fd);
    }
    REAL(opendir);
    return real_opendir(p);
}
DIR* fdopendir(int fd) {
    if (fake(fd)) return sim_opendir_fd(fd);
    REAL(fdopendir);
    return real_fdopendir(fd);
}
struct dirent* readdir(DIR* dp) {
    SimDir* d = (SimDir*)dp;
    if (g_active && d->magic == DIRMAGIC) {
        int saved = errno;
        g_shm->a = d->fd - FAKE_FD;
        if (!rpc(OP_READDIR)) return 0;
        errno = saved;
        if (!g_shm->ret) return 0;
        memset(&d->de, 0, sizeof d->de);
        d->de.d_ino = g_shm->st.ino;
        d->de.d_reclen = sizeof d->de;
        d->de.d_type = (unsigned char)g_shm->b;
        strncpy(d->de.d_name, g_shm->path, sizeof d->de.d_name - 1);
        return &d->de;
    }
    REAL(readdir);
    return real_readdir(dp);
}
struct dirent64* readdir64(DIR* dp) { return (struct dirent64*)readdir(dp); }
int closedir(DIR* dp) {
    SimDir* d = (SimDir*)dp;
    if (g_active && d->magic == DIRMAGIC) {
        g_shm->a = d->fd - FAKE_FD;
        bool ok = rpc(OP_CLOSEDIR);
        d->magic = 0;
        free(d);
        return ok ? 0 : -1;
    }
    REAL(closedir);
    return real_closedir(dp);
}
int dirfd(DIR* dp) noexcept {
    SimDir* d = (SimDir*)dp;
    if (g_active && d->magic == DIRMAGIC) return d->fd;
    REAL(dirfd);
    return real_dirfd(dp);
}

int mkdir(const char* p, mode_t m) noexcept {
    if (g_active) return path1(OP_MKDIR, p, m);
    REAL(mkdir);
    return real_mkdir(p, m);
}
int mkdirat(int d, const char* p, mode_t m) noexcept {
    if (g_active) return !at(d, p) ? -1 : path1(OP_MKDIR, p, m);
    REAL(mkdirat);
    return real_mkdirat(d, p, m);
}
int rmdir(const char* p) noexcept {
    if (g_active) return path1(OP_RMDIR, p);
    REAL(rmdir);
    return real_rmdir(p);
}
int unlink(const char* p) noexcept {
    if (g_active) return path1(OP_UNLINK, p);
    REAL(unlink);
    return real_unlink(p);
}
int unlinkat(int d, const char* p, int fl) noexcept {
    if (g_active) {
        if (!at(d, p)) return -1;
        return path1((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, p);
    }
    REAL(unlinkat);
    return real_unlinkat(d, p, fl);
}
int remove(const char* p) noexcept {
    if (g_active) {
        int r = path1(OP_UNLINK, p);
        if (r && (errno == EISDIR || errno == EPERM)) r = path1(OP_RMDIR, p);
        return r;
    }
    REAL(remove);
    return real_remove(p);
}
int rename(const char* p, const char* q) noexcept {
    if (g_active) return path2(OP_RENAME, p, q);
    REAL(rename);
    return real_rename(p, q);
}
int renameat(int a, const char* p, int b, const char* q) noexcept {
    if (g_active) return !at(a, p) || !at(b, q, true) ? -1 : path2(OP_RENAME, p, q);
    REAL(renameat);
    return real_renameat(a, p, b, q);
}
int link(const char* p, const char* q) noexcept {
    if (g_active) return path2(OP_LINK, p, q);
    REAL(link);
    return real_link(p, q);
}
int symlink(const char* p, const char* q) noexcept {
    if (g_active) return path2(OP_SYMLINK, p, q);
    REAL(symlink);
    return real_symlink(p, q);
}
int renameat2(int a, const char* p, int b, const char* q, unsigned fl) noexcept {
    if (!g_active) {
        REAL(renameat2);
        return real_renameat2(a, p, b, q, fl);
    }
    if (fl & ~1u) { errno = EINVAL; return -1; }
    if ((fl & 1u) && !faccessat(b, q, 0, 0)) { errno = EEXIST; return -1; }
    return renameat(a, p, b, q);
}
int linkat(int a, const char* p, int b, const char* q, int) noexcept {
    if (g_active) return !at(a, p) || !at(b, q, true) ? -1 : path2(OP_LINK, p, q);
    REAL(linkat);
    return real_linkat(a, p, b, q, 0);
}
int symlinkat(const char* p, int b, const char* q) noexcept {
    if (g_active) return !at(b, q, true) ? -1 : path2(OP_SYMLINK, p, q);
    REAL(symlinkat);
    return real_symlinkat(p, b, q);
}
ssize_t readlinkat(int d, const char* p, char* b, size_t n) noexcept {
    if (g_active) return !at(d, p) ? -1 : readlink(p, b, n);
    REAL(readlinkat);
    return real_readlinkat(d, p, b, n);
}
ssize_t readlink(const char* p, char* b, size_t n) noexcept {
    if (g_active) {
        if (path1(OP_READLINK, p)) return -1;
        size_t m = (size_t)g_shm->ret;
        if (m > n) m = n;
        memcpy(b, g_shm->data, m);
        return (ssize_t)m;
    }
    REAL(readlink);
    return real_readlink(p, b, n);
}
char* realpath(const char* p, char* out) noexcept {
    if (g_active) {
        if (path1(OP_READLINK, p, 1)) return 0; // a=1: canonical path
        if (!out) out = (char*)malloc((size_t)g_shm->ret + 1);
        memcpy(out, g_shm->data, (size_t)g_shm->ret);
        out[g_shm->ret] = 0;
        return out;
    }
    REAL(realpath);
    return real_realpath(p, out);
}
int chmod(const char* p, mode_t m) noexcept {
    if (g_active) return path1(OP_CHMOD, p, m);
    REAL(chmod);
    return real_chmod(p, m);
}
int fchmod(int fd, mode_t m) noexcept {
    if (fake(fd)) return 0;
    REAL(fchmod);
    return real_fchmod(fd, m);
}
int fchmodat(int d, const char* p, mode_t m, int f) noexcept {
    if (g_active) return !at(d, p) ? -1 : path1(OP_CHMOD, p, m);
    REAL(fchmodat);
    return real_fchmodat(d, p, m, f);
}
int chown(const char* p, uid_t a, gid_t b) noexcept {
    if (g_active) { unsupported("chown"); errno = EPERM; return -1; }
    REAL(chown);
    return real_chown(p, a, b);
}
int utimensat(int d, const char* p, const struct timespec* t, int fl) noexcept {
    if (g_active) return !p ? 0 : !at(d, p) ? -1 : path1(OP_UTIME, p, t ? t[1].tv_sec : 0);
    REAL(utimensat);
    return real_utimensat(d, p, t, fl);
}
char* getcwd(char* b, size_t n) noexcept {
    if (g_active) {
        if (!rpc(OP_GETCWD)) return 0;
        size_t m = strlen(g_shm->path);
        if (!b) b = (char*)malloc(n > m + 1 ? n : m + 1);
        else if (m + 1 > n) { errno = ERANGE; return 0; }
        memcpy(b, g_shm->path, m + 1);
        return b;
    }
    REAL(getcwd);
    return real_getcwd(b, n);
}
int chdir(const char* p) noexcept {
    if (g_active) return path1(OP_CHDIR, p);
    REAL(chdir);
    return real_chdir(p);
}
int statvfs(const char* p, struct statvfs* v) noexcept {
    if (g_active) {
        if (path1(OP_STATFS, p)) return -1;
        memset(v, 0, sizeof *v);
        v->f_bsize = v->f_frsize = 1;
        v->f_bavail = v->f_bfree = (fsblkcnt_t)g_shm->ret;
        v->f_blocks = 1ull << 40;
        return 0;
    }
    REAL(statvfs);
    return real_statvfs(p, v);
}
int statvfs64(const char* p, struct statvfs64* v) noexcept { return statvfs(p, (struct statvfs*)v); }
int mkstemp(char* t) {
    if (!g_active) {
        REAL(mkstemp);
        return real_mkstemp(t);
    }
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    for (int i = 0; i < 100; ++i) {
        rpc(OP_RANDOM);
        uint64_t r = (uint64_t)g_shm->ret;
        for (int k = 0; k < 6; ++k, r /= 26) t[n - 6 + (size_t)k] = (char)('a' + r % 26);
        int fd = open_common(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
FILE* tmpfile() {
    if (!g_active) {
        REAL(tmpfile);
        return real_tmpfile();
    }
    char n[] = "/tmp/tmpfXXXXXX";
    int fd = mkstemp(n);
    if (fd < 0) return 0;
    unlink(n);
    return make_file(fd, "w+");
}
int system(const char* c) {
    if (g_active) { unsupported("system"); return -1; }
    REAL(system);
    return real_system(c);
}
FILE* popen(const char* c, const char* m) {
    if (g_active) { unsupported("popen"); return 0; }
    REAL(popen);
    return real_popen(c, m);
}

// ---- time
time_t time(time_t* t) noexcept {
    if (g_active) {
        time_t r = (time_t)(sim_time_ns(0) / 1000000000);
        if (t) *t = r;
        return r;
    }
    REAL(time);
    return real_time(t);
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (g_active) {
        int64_t r = sim_time_ns((int)c);
        ts->tv_sec = r / 1000000000;
        ts->tv_nsec = r % 1000000000;
        return 0;
    }
    REAL(clock_gettime);
    return real_clock_gettime(c, ts);
}
int gettimeofday(struct timeval* tv, void* z) noexcept {
    if (g_active) {
        int64_t r = sim_time_ns(0);
        tv->tv_sec = r / 1000000000;
        tv->tv_usec = r % 1000000000 / 1000;
        return 0;
    }
    REAL(gettimeofday);
    return real_gettimeofday(tv, z);
}
clock_t clock() noexcept {
    if (g_active) return (clock_t)(sim_time_ns(2) / 1000);
    REAL(clock);
    return real_clock();
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (g_active) {
        g_shm->a = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
        rpc(OP_SLEEP);
        return 0;
    }
    REAL(nanosleep);
    return real_nanosleep(a, b);
}
unsigned sleep(unsigned s) {
    if (g_active) {
        g_shm->a = (int64_t)s * 1000000000;
        rpc(OP_SLEEP);
        return 0;
    }
    REAL(sleep);
    return real_sleep(s);
}
int usleep(useconds_t s) {
    if (g_active) {
        g_shm->a = (int64_t)s * 1000;
        rpc(OP_SLEEP);
        return 0;
    }
    REAL(usleep);
    return real_usleep(s);
}

// ---- randomness and ambient identity
static void sim_random(void* b, size_t n) {
    unsigned char* p = (unsigned char*)b;
    while (n) {
        rpc(OP_RANDOM);
        uint64_t r = (uint64_t)g_shm->ret;
        for (int i = 0; i < 8 && n; ++i, --n, r >>= 8) *p++ = (unsigned char)r;
    }
}
ssize_t getrandom(void* b, size_t n, unsigned fl) {
    if (g_active) { sim_random(b, n); return (ssize_t)n; }
    REAL(getrandom);
    return real_getrandom(b, n, fl);
}
int getentropy(void* b, size_t n) {
    if (g_active) { sim_random(b, n); return 0; }
    REAL(getentropy);
    return real_getentropy(b, n);
}
uint32_t arc4random() noexcept {
    if (g_active) { rpc(OP_RANDOM); return (uint32_t)g_shm->ret; }
    REAL(arc4random);
    return real_arc4random();
}
pid_t getpid() noexcept {
    if (g_active) return (pid_t)(g_cfg.ambient % 30000 + 2);
    return (pid_t)::syscall(SYS_getpid);
}
pid_t getppid() noexcept {
    if (g_active) return 1;
    return (pid_t)::syscall(SYS_getppid);
}
uid_t getuid() noexcept {
    if (g_active) return (uid_t)(1000 + g_cfg.ambient / 31 % 50);
    return (uid_t)::syscall(SYS_getuid);
}
uid_t geteuid() noexcept {
    if (g_active) return getuid();
    return (uid_t)::syscall(SYS_geteuid);
}
int isatty(int fd) noexcept {
    if (g_active) {
        if (fd <= 2 && g_cfg.ambient / 7 % 2) return 1;
        errno = ENOTTY;
        return 0;
    }
    REAL(isatty);
    return real_isatty(fd);
}
int gethostname(char* b, size_t n) noexcept {
    if (g_active) { snprintf(b, n, "host%u", (unsigned)(g_cfg.ambient % 97)); return 0; }
    REAL(gethostname);
    return real_gethostname(b, n);
}
int uname(struct utsname* u) noexcept {
    if (g_active) {
        memset(u, 0, sizeof *u);
        strcpy(u->sysname, "Linux");
        snprintf(u->nodename, sizeof u->nodename, "host%u", (unsigned)(g_cfg.ambient % 97));
        strcpy(u->release, "6.1.0");
        strcpy(u->version, "#1");
        strcpy(u->machine, "x86_64");
        return 0;
    }
    REAL(uname);
    return real_uname(u);
}
char* getenv(const char* n) noexcept {
    if (g_active) {
        static char slots[16][256];
        static int next;
        if (!set_path(g_shm->path, n)) return 0;
        if (!rpc(OP_GETENV) || g_shm->ret < 0) return 0;
        char* b = slots[next++ % 16];
        size_t m = (size_t)g_shm->ret;
        if (m > 255) m = 255;
        memcpy(b, g_shm->data, m);
        b[m] = 0;
        return b;
    }
    REAL(getenv);
    return real_getenv(n);
}
char* secure_getenv(const char* n) noexcept {
    if (g_active) return getenv(n);
    REAL(secure_getenv);
    return real_secure_getenv(n);
}

// ---- raw syscalls: nothing the simulator does not own
long syscall(long num, ...) noexcept {
    va_list ap;
    va_start(ap, num);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (g_active) {
        bool ok = num == SYS_exit_group || num == SYS_futex || num == SYS_gettid || num == SYS_mmap ||
                  ((num == SYS_read || num == SYS_write) && ((int)a == g_sock || (int)a <= 2));
        if (!ok) {
            errno = ENOSYS;
            return -1;
        }
    }
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(num), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}

} // extern "C"

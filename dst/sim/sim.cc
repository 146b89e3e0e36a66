// libsim.so: the seams of the simulator that lie below devsim.
//
// Loaded with LD_PRELOAD.  It owns, once armed by the Python side (dst/core.py),
//  - the C++ heap: every operator new/delete of the process, from an arena at a
//    fixed address, with a seeded layout, seeded junk in new and freed memory,
//    canaries, and a scheduled allocation failure;
//  - files under one root directory: open, read, write, close with scheduled
//    errors, short transfers, a full disk, or a crash at a byte position;
//  - threads: pthread_create/join/once/mutex/cond and the futex calls of
//    libstdc++ under a seeded scheduler that lets one thread run at a time.
//    In the instrumented build of devsim every memory access is a scheduling
//    point and feeds a happens-before race detector.
// Unarmed it passes everything through.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

int fatal_fd = -1;

// The run ends here with a reason that the parent process reads.
[[noreturn]] void fatal(int code, const char *fmt, ...)
{
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
  if (fatal_fd >= 0) rawsys(SYS_write, fatal_fd, (long)buf, n);
  rawsys(SYS_exit_group, code);
  __builtin_unreachable();
}

template <typename F> F real(const char *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace

EXPORT void sim_fatal_fd(int fd) { fatal_fd = fd; }

// ---------------------------------------------------------------------------
// threads: declarations used by the other parts
// ---------------------------------------------------------------------------
namespace {
void race_forget(const void *p, size_t n);
bool tracking = false; // more than one simulated thread is alive
} // namespace

// ---------------------------------------------------------------------------
// heap
// ---------------------------------------------------------------------------
namespace {
const size_t ARENA = 24ull << 30;
const uintptr_t ARENA_AT = 0x100000000000ull;
const int NSUB = 8;
const uint32_t LIVE = 0x51edb10cu, DEAD = 0xdeadb10cu;
const unsigned char CANARY = 0xc5;

struct Header
{
  uint64_t size;  // requested; the link of the free list once the block is free
  uint16_t bin;
  uint16_t pad;   // distance from the start of the block to the user pointer, in 16 bytes
  uint32_t magic;
};
static_assert(sizeof(Header) == 16, "");

struct FreeBlock { FreeBlock *next; };

struct Heap
{
  char *base = nullptr;
  char *cur[NSUB];
  char *end[NSUB];
  FreeBlock *bins[256];
  uint64_t mode = 0;      // layout seed; 0 is the plain layout
  Rng rng;
  unsigned char fill = 0, poison = 0;
  bool armed = false;
  long count = 0, fail_at = -1, fail_n = 0, failed = 0, live = 0;
  uint64_t bytes = 0, peak = 0, peak0 = 0, budget = 0; // in use; most that may be in use, 0 for no limit
} heap;
std::atomic_flag heap_lock = ATOMIC_FLAG_INIT;

struct HeapGuard
{
  HeapGuard() { while (heap_lock.test_and_set(std::memory_order_acquire)) { rawsys(SYS_sched_yield); } }
  ~HeapGuard() { heap_lock.clear(std::memory_order_release); }
};

size_t bin_of(size_t n, size_t &blk)
{
  if (n <= 1024)
  {
    size_t b = (n + 15) / 16;
    blk = b * 16;
    return b; // 1..64
  }
  size_t blk2 = 1280, b = 65;
  while (blk2 < n) { blk2 = ((blk2 + blk2 / 4) + 15) & ~size_t(15); ++b; }
  blk = blk2;
  return b;
}

void heap_init()
{
  void *p = mmap((void *)ARENA_AT, ARENA, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_AT) fatal(90, "{\"kind\":\"harness\",\"msg\":\"arena not available\"}");
  heap.base = (char *)p;
  for (int i = 0; i < NSUB; ++i)
  {
    heap.cur[i] = heap.base + i * (ARENA / NSUB);
    heap.end[i] = heap.base + (i + 1) * (ARENA / NSUB);
  }
}

void *heap_alloc(size_t n, size_t align, bool *fail)
{
  HeapGuard g;
  if (!heap.base) heap_init();
  if (heap.armed)
  {
    const long k = heap.count++;
    if (heap.fail_at >= 0 && k >= heap.fail_at && k < heap.fail_at + heap.fail_n)
    {
      ++heap.failed;
      *fail = true;
      return nullptr;
    }
  }
  if (heap.armed && heap.budget && heap.bytes + n > heap.budget)
  {
    ++heap.failed;
    *fail = true;
    return nullptr;
  }
  if (n > (1ull << 32)) { *fail = true; return nullptr; }
  const size_t extra = (align > 16) ? align : 0;
  size_t blk;
  const size_t b = bin_of(n + sizeof(Header) + 16 + extra, blk);
  char *p = nullptr;
  FreeBlock **f = &heap.bins[b];
  if (heap.mode && *f)
  {
    size_t skip = heap.rng.below(6);
    while (skip-- && (*f)->next) f = &(*f)->next;
    if (heap.rng.below(4) == 0) f = nullptr; // take fresh memory all the same
  }
  if (f && *f)
  {
    p = (char *)*f;
    *f = (*f)->next;
  }
  else
  {
    int sub = 0;
    size_t gap = 0;
    if (heap.mode)
    {
      sub = (int)heap.rng.below(NSUB);
      gap = 16 * heap.rng.below(8);
    }
    p = heap.cur[sub] + gap;
    if (p + blk > heap.end[sub]) { *fail = true; return nullptr; }
    heap.cur[sub] = p + blk;
  }
  char *u = p + sizeof(Header);
  if (extra) u = (char *)(((uintptr_t)u + align - 1) & ~(uintptr_t)(align - 1));
  Header *h = (Header *)(u - sizeof(Header));
  h->magic = LIVE;
  h->bin = (uint16_t)b;
  h->pad = (uint16_t)((u - p) / 16);
  h->size = n;
  if (heap.mode) memset(u, heap.fill, n);
  memset(u + n, CANARY, 16);
  ++heap.live;
  heap.bytes += n;
  if (heap.bytes > heap.peak) heap.peak = heap.bytes;
  if (tracking) race_forget(u, n);
  return u;
}

void heap_free(void *v)
{
  if (!v) return;
  char *u = (char *)v;
  if (u < (char *)ARENA_AT || u >= (char *)ARENA_AT + ARENA)
  {
    free(v);
    return;
  }
  HeapGuard g;
  Header *h = (Header *)(u - sizeof(Header));
  if (h->magic != LIVE)
  {
    heap_lock.clear();
    fatal(86, "{\"kind\":\"memory\",\"msg\":\"%s\"}", h->magic == DEAD ? "object freed twice" : "free of memory that was not allocated");
  }
  for (int i = 0; i < 16; ++i)
  {
    if ((unsigned char)u[h->size + i] != CANARY)
    {
      heap_lock.clear();
      fatal(86, "{\"kind\":\"memory\",\"msg\":\"write past the end of an object of %llu bytes\"}", (unsigned long long)h->size);
    }
  }
  h->magic = DEAD;
  if (tracking) race_forget(u, h->size);
  if (heap.mode) memset(u, heap.poison, h->size);
  char *p = u - 16 * (size_t)h->pad;
  FreeBlock *fb = (FreeBlock *)p; // leaves the magic of the dead block in place
  const size_t b = h->bin;
  if (heap.mode && heap.rng.below(2) && heap.bins[b])
  {
    FreeBlock *prev = heap.bins[b];
    fb->next = prev->next;
    prev->next = fb;
  }
  else
  {
    fb->next = heap.bins[b];
    heap.bins[b] = fb;
  }
  --heap.live;
  heap.bytes -= h->size;
}

void *new_or_throw(size_t n, size_t align)
{
  bool fail = false;
  void *p = heap_alloc(n ? n : 1, align, &fail);
  if (fail) throw std::bad_alloc();
  return p;
}
void *new_or_null(size_t n, size_t align)
{
  bool fail = false;
  return heap_alloc(n ? n : 1, align, &fail);
}
} // namespace

#define VIS __attribute__((visibility("default")))
VIS void *operator new(size_t n) { return new_or_throw(n, 16); }
VIS void *operator new[](size_t n) { return new_or_throw(n, 16); }
VIS void *operator new(size_t n, const std::nothrow_t &) noexcept { return new_or_null(n, 16); }
VIS void *operator new[](size_t n, const std::nothrow_t &) noexcept { return new_or_null(n, 16); }
VIS void *operator new(size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a); }
VIS void *operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a); }
VIS void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_or_null(n, (size_t)a); }
VIS void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_or_null(n, (size_t)a); }
VIS void operator delete(void *p) noexcept { heap_free(p); }
VIS void operator delete[](void *p) noexcept { heap_free(p); }
VIS void operator delete(void *p, size_t) noexcept { heap_free(p); }
VIS void operator delete[](void *p, size_t) noexcept { heap_free(p); }
VIS void operator delete(void *p, const std::nothrow_t &) noexcept { heap_free(p); }
VIS void operator delete[](void *p, const std::nothrow_t &) noexcept { heap_free(p); }
VIS void operator delete(void *p, std::align_val_t) noexcept { heap_free(p); }
VIS void operator delete[](void *p, std::align_val_t) noexcept { heap_free(p); }
VIS void operator delete(void *p, size_t, std::align_val_t) noexcept { heap_free(p); }
VIS void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap_free(p); }

EXPORT void sim_layout(uint64_t seed)
{
  HeapGuard g;
  heap.mode = seed;
  heap.rng.s = seed;
  if (seed)
  {
    heap.fill = (unsigned char)heap.rng.next();
    heap.poison = (unsigned char)heap.rng.next();
  }
}
// the clock which devsim reads (std::chrono::system_clock): 1 ms for each reading, or seeded steps and jumps in both directions
static std::atomic<int64_t> clock_now{1600000000ll * 1000000000ll};
static bool clock_wild = false;
static Rng clock_rng;
EXPORT void sim_clock(uint64_t seed)
{
  clock_now = 1600000000ll * 1000000000ll;
  clock_wild = seed != 0;
  clock_rng.s = seed;
}
EXPORT int64_t _ZNSt6chrono3_V212system_clock3nowEv()
{
  int64_t d = 1000000;
  if (clock_wild)
  {
    const uint64_t r = clock_rng.next();
    const int64_t unit[4] = {1000ll, 1000000ll, 1000000000ll, 100000000000000ll};
    d = (int64_t)((r >> 8) % 1000) * unit[r & 3];
    if ((r >> 2) & 1) d = -d;
  }
  return clock_now += d;
}
// junk where the next function finds its uninitialized locals
EXPORT __attribute__((noinline)) void sim_stack_junk(int byte, long n)
{
  if (n > 4096)
  {
    sim_stack_junk(byte, n - 4096);
  }
  volatile char b[4096];
  for (int i = 0; i < 4096; ++i) b[i] = (char)byte;
  asm volatile("" : : "r"(b) : "memory");
}
EXPORT void sim_alloc_arm(long fail_at, long n)
{
  HeapGuard g;
  heap.armed = true;
  heap.count = 0;
  heap.failed = 0;
  heap.fail_at = fail_at;
  heap.fail_n = n;
  heap.budget = 0;
  heap.peak0 = heap.peak = heap.bytes;
}
// no more than that many bytes may be allocated on top of what is in use now
EXPORT void sim_alloc_limit(uint64_t bytes)
{
  HeapGuard g;
  heap.armed = true;
  heap.count = heap.failed = 0;
  heap.fail_at = -1;
  heap.budget = heap.bytes + bytes;
  heap.peak0 = heap.peak = heap.bytes;
}
EXPORT uint64_t sim_alloc_peak() { return heap.peak - heap.peak0; }
EXPORT long sim_alloc_disarm(long *failed)
{
  HeapGuard g;
  heap.armed = false;
  heap.budget = 0;
  if (failed) *failed = heap.failed;
  return heap.count;
}
EXPORT long sim_heap_live() { return heap.live; }

// ---------------------------------------------------------------------------
// files
// ---------------------------------------------------------------------------
namespace {
enum Op { OP_OPENW, OP_OPENR, OP_WRITE, OP_CLOSE, OP_READ, NOPS };
enum Kind
{
  K_ERR = 1,    // the at-th call fails with err
  K_ERRFROM,    // the at-th and all later calls fail with err
  K_SHORT,      // the at-th call transfers arg bytes only
  K_FULL,       // no byte beyond the at-th is accepted: err from then on
  K_CRASH,      // the process ends after at bytes (write) or at calls (others)
  NKINDS
};
struct Fault { int op, kind; long at, arg; int err; long fired; };
const int MAXF = 16;
Fault faults[MAXF];
int nfaults = 0;
char root[512];
size_t rootlen = 0;
long calls[NOPS], bytes[NOPS];
const int MAXFD = 1024;
unsigned char tracked[MAXFD]; // 1 write, 2 read

bool under_root(const char *p)
{
  return rootlen && p && strncmp(p, root, rootlen) == 0;
}

bool from_libstdcxx(void *ret)
{
  Dl_info i;
  return dladdr(ret, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}

// For calls without bytes: the error to fail with, or 0.
int call_fault(int op)
{
  const long k = calls[op]++;
  for (int i = 0; i < nfaults; ++i)
  {
    Fault &f = faults[i];
    if (f.op != op) continue;
    if ((f.kind == K_ERR && k == f.at) || (f.kind == K_ERRFROM && k >= f.at))
    {
      ++f.fired;
      return f.err;
    }
    if (f.kind == K_CRASH && k == f.at)
    {
      rawsys(SYS_exit_group, 77);
    }
  }
  return 0;
}

// For transfers: n bytes are wanted; returns how many to transfer now, or -errno.
// *crash is set when the process is to end after that many.
long xfer_fault(int op, size_t n, bool *crash)
{
  const long k = calls[op]++;
  long m = (long)n;
  *crash = false;
  for (int i = 0; i < nfaults; ++i)
  {
    Fault &f = faults[i];
    if (f.op != op) continue;
    if ((f.kind == K_ERR && k == f.at) || (f.kind == K_ERRFROM && k >= f.at))
    {
      ++f.fired;
      return -f.err;
    }
    if (f.kind == K_SHORT && k >= f.at && f.arg > 0 && m > f.arg)
    {
      ++f.fired;
      m = f.arg;
    }
    if (f.kind == K_FULL && bytes[op] + m > f.at)
    {
      ++f.fired;
      m = f.at - bytes[op];
      if (m <= 0) return -f.err;
    }
    if (f.kind == K_CRASH && bytes[op] + m >= f.at)
    {
      ++f.fired;
      m = f.at - bytes[op];
      if (m < 0) m = 0;
      *crash = true;
    }
  }
  return m;
}

ssize_t cookie_read(void *c, char *buf, size_t n)
{
  const int fd = (int)(intptr_t)c;
  bool crash;
  const long m = xfer_fault(OP_READ, n, &crash);
  if (m < 0) { errno = (int)-m; return -1; }
  const long r = rawsys(SYS_read, fd, (long)buf, m);
  if (r > 0) bytes[OP_READ] += r;
  if (crash) rawsys(SYS_exit_group, 77);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t cookie_write(void *c, const char *buf, size_t n)
{
  const int fd = (int)(intptr_t)c;
  size_t done = 0;
  while (done < n)
  {
    bool crash;
    const long m = xfer_fault(OP_WRITE, n - done, &crash);
    if (m < 0)
    {
      errno = (int)-m;
      return 0;
    }
    const long r = rawsys(SYS_write, fd, (long)(buf + done), m);
    if (crash) rawsys(SYS_exit_group, 77);
    if (r < 0) { errno = (int)-r; return 0; }
    bytes[OP_WRITE] += r;
    done += r;
  }
  return (ssize_t)done;
}
int cookie_close_w(void *c)
{
  const int e = call_fault(OP_CLOSE);
  rawsys(SYS_close, (int)(intptr_t)c);
  if (e) { errno = e; return -1; }
  return 0;
}
int cookie_close_r(void *c)
{
  rawsys(SYS_close, (int)(intptr_t)c);
  return 0;
}
int cookie_seek(void *c, off64_t *pos, int w)
{
  const long r = rawsys(SYS_lseek, (int)(intptr_t)c, *pos, w);
  if (r < 0) { errno = (int)-r; return -1; }
  *pos = r;
  return 0;
}

FILE *sim_fopen(const char *path, const char *mode, void *ret, const char *sym)
{
  typedef FILE *(*fn)(const char *, const char *);
  static fn f = real<fn>("fopen64");
  (void)sym;
  if (!under_root(path)) return f(path, mode);
  const bool w = strpbrk(mode, "wa+") != nullptr;
  const int e = call_fault(w ? OP_OPENW : OP_OPENR);
  if (e) { errno = e; return nullptr; }
  if (from_libstdcxx(ret))
  {
    FILE *fp = f(path, mode);
    if (fp)
    {
      const int fd = fileno(fp);
      if (fd >= 0 && fd < MAXFD) tracked[fd] = w ? 1 : 2;
    }
    return fp;
  }
  int fl = w ? (O_CREAT | (strchr(mode, 'a') ? O_APPEND : O_TRUNC) | (strchr(mode, '+') ? O_RDWR : O_WRONLY)) : O_RDONLY;
  const long fd = rawsys(SYS_openat, AT_FDCWD, (long)path, fl, 0644);
  if (fd < 0) { errno = (int)-fd; return nullptr; }
  cookie_io_functions_t io;
  io.read = cookie_read;
  io.write = cookie_write;
  io.seek = cookie_seek;
  io.close = w ? cookie_close_w : cookie_close_r;
  return fopencookie((void *)(intptr_t)fd, mode, io);
}
} // namespace

EXPORT FILE *fopen(const char *p, const char *m) { return sim_fopen(p, m, __builtin_return_address(0), "fopen"); }
EXPORT FILE *fopen64(const char *p, const char *m) { return sim_fopen(p, m, __builtin_return_address(0), "fopen64"); }

EXPORT int fclose(FILE *fp)
{
  typedef int (*fn)(FILE *);
  static fn f = real<fn>("fclose");
  int fd = fp ? fileno(fp) : -1;
  if (fd >= 0 && fd < MAXFD && tracked[fd])
  {
    const bool w = tracked[fd] == 1;
    tracked[fd] = 0;
    const int e = w ? call_fault(OP_CLOSE) : 0;
    const int r = f(fp);
    if (e) { errno = e; return EOF; }
    return r;
  }
  return f(fp);
}

EXPORT ssize_t write(int fd, const void *buf, size_t n)
{
  if (fd >= 0 && fd < MAXFD && tracked[fd] == 1)
  {
    bool crash;
    const long m = xfer_fault(OP_WRITE, n, &crash);
    if (m < 0) { errno = (int)-m; return -1; }
    const long r = rawsys(SYS_write, fd, (long)buf, m);
    if (r > 0) bytes[OP_WRITE] += r;
    if (crash) rawsys(SYS_exit_group, 77);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
  }
  const long r = rawsys(SYS_write, fd, (long)buf, n);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
  if (fd >= 0 && fd < MAXFD && tracked[fd] == 1)
  {
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
    bool crash;
    const long m = xfer_fault(OP_WRITE, n, &crash);
    if (m < 0) { errno = (int)-m; return -1; }
    long left = m, done = 0;
    for (int i = 0; i < cnt && left > 0; ++i)
    {
      const long c = (long)iov[i].iov_len < left ? (long)iov[i].iov_len : left;
      const long r = rawsys(SYS_write, fd, (long)iov[i].iov_base, c);
      if (r < 0)
      {
        if (done) break;
        errno = (int)-r;
        return -1;
      }
      done += r;
      left -= r;
    }
    bytes[OP_WRITE] += done;
    if (crash) rawsys(SYS_exit_group, 77);
    return done;
  }
  const long r = rawsys(SYS_writev, fd, (long)iov, cnt);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

EXPORT ssize_t read(int fd, void *buf, size_t n)
{
  if (fd >= 0 && fd < MAXFD && tracked[fd] == 2)
  {
    bool crash;
    const long m = xfer_fault(OP_READ, n, &crash);
    if (m < 0) { errno = (int)-m; return -1; }
    const long r = rawsys(SYS_read, fd, (long)buf, m);
    if (r > 0) bytes[OP_READ] += r;
    if (crash) rawsys(SYS_exit_group, 77);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
  }
  const long r = rawsys(SYS_read, fd, (long)buf, n);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

EXPORT void sim_io_root(const char *p)
{
  strncpy(root, p, sizeof(root) - 1);
  rootlen = strlen(root);
}
EXPORT void sim_io_clear()
{
  nfaults = 0;
  memset(calls, 0, sizeof(calls));
  memset(bytes, 0, sizeof(bytes));
}
EXPORT int sim_io_fault(int op, int kind, long at, long arg, int err)
{
  if (nfaults >= MAXF) return -1;
  Fault &f = faults[nfaults];
  f.op = op; f.kind = kind; f.at = at; f.arg = arg; f.err = err; f.fired = 0;
  return nfaults++;
}
EXPORT long sim_io_fired(int i) { return (i >= 0 && i < nfaults) ? faults[i].fired : 0; }
EXPORT void sim_io_counts(long *c, long *b)
{
  for (int i = 0; i < NOPS; ++i) { c[i] = calls[i]; b[i] = bytes[i]; }
}

// ---------------------------------------------------------------------------
// threads
// ---------------------------------------------------------------------------
namespace {
const int MAXT = 64;
enum State { T_NONE, T_READY, T_BLOCKED, T_DONE, T_JOINED };
enum Why { W_NONE, W_JOIN, W_FUTEX, W_MUTEX, W_COND };

struct Thread
{
  State state;
  Why why;
  const void *on;
  bool timed, timedout;
  std::atomic<int> go;
  pthread_t handle;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  uint32_t vc[MAXT];
  long prio;
};

Thread thr[MAXT];
int nthr = 0;           // slots used in this region, slot 0 is the main thread
int alive = 0;          // simulated threads besides main that are not joined
thread_local int self_id = -1;
int current = 0;
bool sched_on = false;
int sched_mode = 0;     // 0 sync points only, 1 random preemption, 2 priorities, 3 replay
uint64_t sched_p = 0;   // preemption probability out of 2^16
Rng srng;
uint64_t trace_hash = 1469598103934665603ull;
long yields = 0, switches = 0, created = 0, create_calls = 0, maxlive = 0, create_failed = 0;
long change_at[8];
int nchange = 0;
long fail_create_at = -1, fail_create_n = 0;
long step_limit = 50000000;

// decisions taken, for the replay file: at yield number step, go on with thread to
struct Decision { long step; int to; };
const int MAXD = 1 << 16;
Decision dec[MAXD];
int ndec = 0;
Decision rep[MAXD];
int nrep = 0, irep = 0;

void thash(uint64_t x)
{
  trace_hash ^= x;
  trace_hash *= 1099511628211ull;
}

void wait_go(int t)
{
  while (thr[t].go.load(std::memory_order_acquire) == 0)
  {
    rawsys(SYS_futex, (long)&thr[t].go, FUTEX_WAIT_PRIVATE, 0, 0);
  }
  thr[t].go.store(0, std::memory_order_relaxed);
}

void hand_to(int t)
{
  const int me = self_id;
  if (t == me) return;
  ++switches;
  thash((uint64_t)yields * 64 + t);
  current = t;
  thr[t].go.store(1, std::memory_order_release);
  rawsys(SYS_futex, (long)&thr[t].go, FUTEX_WAKE_PRIVATE, 1);
  if (me >= 0 && thr[me].state != T_DONE) wait_go(me);
}

int runnable(int *out)
{
  int n = 0;
  for (int i = 0; i < nthr; ++i)
  {
    if (thr[i].state == T_READY) out[n++] = i;
  }
  return n;
}

int pick(const int *c, int n, int forced)
{
  // forced: the current thread cannot go on
  if (sched_mode == 3)
  {
    if (irep < nrep && rep[irep].step == yields)
    {
      const int want = rep[irep++].to;
      for (int i = 0; i < n; ++i) if (c[i] == want) return want;
    }
    if (!forced) return self_id;
    return c[0];
  }
  if (sched_mode == 2)
  {
    int best = c[0];
    for (int i = 1; i < n; ++i) if (thr[c[i]].prio > thr[best].prio) best = c[i];
    return best;
  }
  return c[srng.below(n)];
}

void note(int to)
{
  if (ndec < MAXD) { dec[ndec].step = yields; dec[ndec].to = to; ++ndec; }
}

[[noreturn]] void deadlock()
{
  char buf[200];
  int n = 0;
  for (int i = 0; i < nthr && n < 150; ++i)
  {
    n += snprintf(buf + n, sizeof(buf) - n, " t%d:%d/%d", i, (int)thr[i].state, (int)thr[i].why);
  }
  fatal(87, "{\"kind\":\"deadlock\",\"msg\":\"no thread can run:%s\"}", buf);
}

// the current thread cannot continue: run somebody else until it can
void block(Why w, const void *on, bool timed)
{
  Thread &me = thr[self_id];
  me.state = T_BLOCKED;
  me.why = w;
  me.on = on;
  me.timed = timed;
  me.timedout = false;
  ++yields;
  int c[MAXT];
  int n = runnable(c);
  if (n == 0)
  {
    // simulated time jumps to the first timeout
    for (int i = 0; i < nthr; ++i)
    {
      if (thr[i].state == T_BLOCKED && thr[i].timed)
      {
        thr[i].state = T_READY;
        thr[i].timedout = true;
        c[n++] = i;
        break;
      }
    }
    if (n == 0) deadlock();
  }
  const int t = pick(c, n, 1);
  note(t);
  hand_to(t);
}

void wake(Why w, const void *on, int max)
{
  int c[MAXT], n = 0;
  for (int i = 0; i < nthr; ++i)
  {
    if (thr[i].state == T_BLOCKED && thr[i].why == w && thr[i].on == on) c[n++] = i;
  }
  while (n > 0 && max != 0)
  {
    const int k = (sched_mode == 1) ? (int)srng.below(n) : 0;
    thr[c[k]].state = T_READY;
    thr[c[k]].why = W_NONE;
    c[k] = c[--n];
    if (max > 0) --max;
  }
}

bool in_sim() { return sched_on && self_id >= 0 && (alive > 0 || self_id > 0); }

void yield_point()
{
  ++yields;
  if (yields > step_limit) fatal(88, "{\"kind\":\"livelock\",\"msg\":\"no progress within the step limit\"}");
  if (sched_mode == 0) return;
  if (sched_mode == 1)
  {
    if ((srng.next() & 0xffff) >= sched_p) return;
  }
  else if (sched_mode == 2)
  {
    bool hit = false;
    for (int i = 0; i < nchange; ++i)
    {
      if (change_at[i] == yields) { hit = true; thr[self_id].prio = -1 - i; }
    }
    if (!hit && (yields & 63)) return;
  }
  else if (!(irep < nrep && rep[irep].step == yields))
  {
    return;
  }
  int c[MAXT];
  const int n = runnable(c);
  const int t = pick(c, n, 0);
  if (t != self_id)
  {
    note(t);
    hand_to(t);
  }
}

// --- happens before -----------------------------------------------------------
struct Access { uint64_t gran; uint32_t epoch; uint8_t tid, mask, wr, used; uint32_t pad; const void *pc; };
const int SHADOW = 1 << 16; // granules
const int WAYS = 6;
struct Cell { uint64_t gran; Access a[WAYS]; };
Cell *shadow = nullptr;
int *shadow_list = nullptr; // the cells in use
long shadow_used = 0;
long naccess = 0;
uint32_t region = 0;

struct Sync { uint64_t addr; uint32_t vc[MAXT]; };
const int NSYNC = 4096;
Sync *syncs = nullptr;
int nsync = 0;

struct Race { const void *pc0, *pc1; const void *addr; int wr0, wr1; };
const int MAXR = 32;
Race races[MAXR];
int nraces = 0;

void region_start()
{
  if (!shadow)
  {
    shadow = (Cell *)mmap(nullptr, sizeof(Cell) * SHADOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow_list = (int *)mmap(nullptr, sizeof(int) * SHADOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = (Sync *)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  else if (shadow_used)
  {
    for (long i = 0; i < shadow_used; ++i) memset(&shadow[shadow_list[i]], 0, sizeof(Cell));
  }
  shadow_used = 0;
  nsync = 0;
  nthr = 1;
  memset(thr[0].vc, 0, sizeof(thr[0].vc));
  thr[0].vc[0] = 1;
  thr[0].state = T_READY;
  thr[0].go.store(0);
  self_id = 0;
  current = 0;
  ++region;
  thr[0].prio = 1000;
}

Sync *sync_of(const void *p, bool create)
{
  for (int i = 0; i < nsync; ++i) if (syncs[i].addr == (uint64_t)p) return &syncs[i];
  if (!create || nsync >= NSYNC) return nullptr;
  Sync *s = &syncs[nsync++];
  s->addr = (uint64_t)p;
  memset(s->vc, 0, sizeof(s->vc));
  return s;
}
void acquire(const void *p)
{
  Sync *s = sync_of(p, false);
  if (!s) return;
  Thread &t = thr[self_id];
  for (int i = 0; i < nthr; ++i) if (s->vc[i] > t.vc[i]) t.vc[i] = s->vc[i];
}
void release(const void *p)
{
  Sync *s = sync_of(p, true);
  if (!s) return;
  Thread &t = thr[self_id];
  for (int i = 0; i < nthr; ++i) if (t.vc[i] > s->vc[i]) s->vc[i] = t.vc[i];
  t.vc[self_id]++;
}

void check_gran(uint64_t g, uint8_t mask, bool wr, const void *pc)
{
  uint64_t h = (g * 0x9e3779b97f4a7c15ull) >> 48;
  Cell *c = nullptr;
  for (int i = 0; i < 64; ++i)
  {
    Cell *x = &shadow[(h + i) & (SHADOW - 1)];
    if (x->gran == g) { c = x; break; }
    if (x->gran == 0) { x->gran = g; shadow_list[shadow_used++] = (int)(x - shadow); c = x; break; }
  }
  if (!c) return; // the shadow is full: this access is not followed
  Thread &me = thr[self_id];
  Access *slot = nullptr, *old = nullptr;
  for (int i = 0; i < WAYS; ++i)
  {
    Access &a = c->a[i];
    if (!a.used) { if (!slot) slot = &a; continue; }
    if (a.tid == self_id)
    {
      if (a.wr == wr && (a.mask | mask) == mask) old = &a;
      continue;
    }
    if ((a.mask & mask) && (a.wr || wr) && a.epoch > me.vc[a.tid])
    {
      bool known = false;
      for (int r = 0; r < nraces; ++r)
      {
        if ((races[r].pc0 == a.pc && races[r].pc1 == pc) || (races[r].pc0 == pc && races[r].pc1 == a.pc)) known = true;
      }
      if (!known && nraces < MAXR)
      {
        Race &r = races[nraces++];
        r.pc0 = a.pc; r.pc1 = pc; r.addr = (const void *)(g << 3); r.wr0 = a.wr; r.wr1 = wr;
      }
    }
  }
  if (old) slot = old;
  if (!slot) slot = &c->a[(pc ? ((uintptr_t)pc >> 2) : 0) % WAYS];
  slot->used = 1;
  slot->tid = (uint8_t)self_id;
  slot->epoch = me.vc[self_id];
  slot->mask = mask;
  slot->wr = wr;
  slot->pc = pc;
}

void access(const void *p, size_t n, bool wr, const void *pc)
{
  if (!tracking || !in_sim()) return;
  ++naccess;
  yield_point();
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e)
  {
    const uint64_t g = a >> 3;
    const unsigned off = a & 7;
    const unsigned len = (unsigned)((e - a) < (8 - off) ? (e - a) : (8 - off));
    check_gran(g, (uint8_t)(((1u << len) - 1) << off), wr, pc);
    a += len;
  }
}

void race_forget(const void *p, size_t n)
{
  if (!shadow || !tracking) return;
  uint64_t a = (uint64_t)p, e = a + n;
  for (uint64_t g = a >> 3; g <= ((e - 1) >> 3); ++g)
  {
    uint64_t h = (g * 0x9e3779b97f4a7c15ull) >> 48;
    for (int i = 0; i < 64; ++i)
    {
      Cell *x = &shadow[(h + i) & (SHADOW - 1)];
      if (x->gran == g) { memset(x->a, 0, sizeof(x->a)); break; }
      if (x->gran == 0) break;
    }
    if (g - (a >> 3) > 4096) break;
  }
}

// The thread local storage of a thread which ends goes back to the C library,
// which may give it to another thread without any synchronisation seen here.
int forget_tls(struct dl_phdr_info *info, size_t, void *)
{
  if (!info->dlpi_tls_data) return 0;
  for (int i = 0; i < info->dlpi_phnum; ++i)
  {
    if (info->dlpi_phdr[i].p_type == PT_TLS) race_forget(info->dlpi_tls_data, info->dlpi_phdr[i].p_memsz);
  }
  return 0;
}

void thread_end()
{
  dl_iterate_phdr(forget_tls, nullptr);
  Thread &me = thr[self_id];
  me.state = T_DONE;
  wake(W_JOIN, &me, -1);
  ++yields;
  int c[MAXT];
  int n = runnable(c);
  if (n == 0)
  {
    for (int i = 0; i < nthr; ++i)
    {
      if (thr[i].state == T_BLOCKED && thr[i].timed) { thr[i].state = T_READY; thr[i].timedout = true; c[n++] = i; break; }
    }
    if (n == 0) deadlock();
  }
  const int t = pick(c, n, 1);
  note(t);
  // control leaves this thread for good
  ++switches;
  thash((uint64_t)yields * 64 + t);
  current = t;
  thr[t].go.store(1, std::memory_order_release);
  rawsys(SYS_futex, (long)&thr[t].go, FUTEX_WAKE_PRIVATE, 1);
}

void *trampoline(void *v)
{
  const int id = (int)(intptr_t)v;
  self_id = id;
  wait_go(id);
  void *r = thr[id].fn(thr[id].arg);
  thr[id].ret = r;
  thread_end();
  self_id = -1;
  return r;
}

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
typedef int (*mutex_t)(pthread_mutex_t *);
typedef int (*cond1_t)(pthread_cond_t *);
typedef int (*condw_t)(pthread_cond_t *, pthread_mutex_t *);
typedef int (*condtw_t)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
typedef int (*condcw_t)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
typedef int (*once_t)(pthread_once_t *, void (*)(void));

int sim_lock(pthread_mutex_t *m)
{
  static mutex_t tl = real<mutex_t>("pthread_mutex_trylock");
  yield_point();
  int r;
  while ((r = tl(m)) == EBUSY) block(W_MUTEX, m, false);
  acquire(m);
  return r;
}
int sim_unlock(pthread_mutex_t *m)
{
  static mutex_t ul = real<mutex_t>("pthread_mutex_unlock");
  release(m);
  const int r = ul(m);
  wake(W_MUTEX, m, -1);
  return r;
}
int sim_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
  sim_unlock(m);
  block(W_COND, c, timed);
  const bool to = thr[self_id].timedout;
  static mutex_t tl = real<mutex_t>("pthread_mutex_trylock");
  while (tl(m) == EBUSY) block(W_MUTEX, m, false);
  acquire(m);
  return to ? ETIMEDOUT : 0;
}
} // namespace

EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
  static create_t rc = real<create_t>("pthread_create");
  if (!sched_on || (self_id < 0 && alive > 0)) return rc(t, a, fn, arg);
  const long k = create_calls++;
  if (fail_create_at >= 0 && k >= fail_create_at && k < fail_create_at + fail_create_n)
  {
    ++create_failed;
    return EAGAIN;
  }
  if (alive == 0 && self_id <= 0) region_start();
  if (nthr >= MAXT) return EAGAIN;
  const int id = nthr++;
  Thread &n = thr[id];
  n.state = T_READY;
  n.why = W_NONE;
  n.go.store(0);
  n.fn = fn;
  n.arg = arg;
  n.prio = (long)srng.below(1000) + 10;
  memset(n.vc, 0, sizeof(n.vc));
  Thread &me = thr[self_id];
  for (int i = 0; i < MAXT; ++i) n.vc[i] = me.vc[i];
  n.vc[id] = 1;
  me.vc[self_id]++;
  const int r = rc(&n.handle, a, trampoline, (void *)(intptr_t)id);
  if (r)
  {
    --nthr;
    n.state = T_NONE;
    return r;
  }
  *t = n.handle;
  ++created;
  ++alive;
  if (alive > maxlive) maxlive = alive;
  tracking = true;
  yield_point();
  return 0;
}

EXPORT int pthread_join(pthread_t t, void **ret)
{
  static join_t rj = real<join_t>("pthread_join");
  if (sched_on && self_id >= 0)
  {
    int id = -1;
    for (int i = 1; i < nthr; ++i)
    {
      if (thr[i].state != T_NONE && thr[i].state != T_JOINED && pthread_equal(thr[i].handle, t)) id = i;
    }
    if (id > 0)
    {
      while (thr[id].state != T_DONE) block(W_JOIN, &thr[id], false);
      const int r = rj(t, ret);
      thr[id].state = T_JOINED;
      for (int i = 0; i < nthr; ++i) if (thr[id].vc[i] > thr[self_id].vc[i]) thr[self_id].vc[i] = thr[id].vc[i];
      --alive;
      if (alive == 0) tracking = false;
      return r;
    }
  }
  return rj(t, ret);
}

EXPORT int pthread_detach(pthread_t t)
{
  static int (*rd)(pthread_t) = real<int (*)(pthread_t)>("pthread_detach");
  if (sched_on && self_id >= 0)
  {
    for (int i = 1; i < nthr; ++i)
    {
      if (thr[i].state != T_NONE && thr[i].state != T_JOINED && pthread_equal(thr[i].handle, t))
      {
        fatal(85, "{\"kind\":\"detached\",\"msg\":\"a worker thread was detached\"}");
      }
    }
  }
  return rd(t);
}

EXPORT int pthread_mutex_lock(pthread_mutex_t *m)
{
  static mutex_t f = real<mutex_t>("pthread_mutex_lock");
  return in_sim() ? sim_lock(m) : f(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m)
{
  static mutex_t f = real<mutex_t>("pthread_mutex_unlock");
  return in_sim() ? sim_unlock(m) : f(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m)
{
  static mutex_t f = real<mutex_t>("pthread_mutex_trylock");
  const int r = f(m);
  if (in_sim() && r == 0) acquire(m);
  return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  static condw_t f = real<condw_t>("pthread_cond_wait");
  return in_sim() ? sim_wait(c, m, false) : f(c, m);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
  static condtw_t f = real<condtw_t>("pthread_cond_timedwait");
  return in_sim() ? sim_wait(c, m, true) : f(c, m, ts);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
{
  static condcw_t f = real<condcw_t>("pthread_cond_clockwait");
  return in_sim() ? sim_wait(c, m, true) : f(c, m, k, ts);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c)
{
  static cond1_t f = real<cond1_t>("pthread_cond_signal");
  if (in_sim()) { wake(W_COND, c, 1); return 0; }
  return f(c);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c)
{
  static cond1_t f = real<cond1_t>("pthread_cond_broadcast");
  if (in_sim()) { wake(W_COND, c, -1); return 0; }
  return f(c);
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void))
{
  static once_t f = real<once_t>("pthread_once");
  if (!in_sim()) return f(o, fn);
  // 0: not run, 2: done (glibc); a thread inside fn may be preempted
  static const void *busy[16];
  static int nbusy = 0;
  for (;;)
  {
    bool b = false;
    for (int i = 0; i < nbusy; ++i) if (busy[i] == o) b = true;
    if (!b) break;
    block(W_MUTEX, o, false);
  }
  if (nbusy < 16) busy[nbusy++] = o;
  acquire(o);
  struct Leave
  {
    pthread_once_t *o;
    ~Leave()
    {
      release(o);
      for (int i = 0; i < nbusy; ++i) if (busy[i] == o) { busy[i] = busy[--nbusy]; break; }
      wake(W_MUTEX, o, -1);
    }
  } leave{o};
  return f(o, fn);
}

// libstdc++ waits for futures with futex calls made through syscall()
EXPORT long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && in_sim())
  {
    const int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
      if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      block(W_FUTEX, (const void *)a[0], a[3] != 0);
      if (thr[self_id].timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
      wake(W_FUTEX, (const void *)a[0], (int)a[2]);
      return 0;
    }
  }
  const long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// guards of function local statics
namespace { const void *guard_busy[16]; int nguard = 0; }
EXPORT int __cxa_guard_acquire(long long int *g)
{
  volatile unsigned char *b = (volatile unsigned char *)g;
  if (!in_sim())
  {
    if (b[0]) return 0;
    // as in the single threaded case: nobody else can be inside
    b[1] = 1;
    return 1;
  }
  for (;;)
  {
    if (b[0]) { acquire(g); return 0; }
    bool busy = false;
    for (int i = 0; i < nguard; ++i) if (guard_busy[i] == g) busy = true;
    if (!busy) break;
    block(W_MUTEX, g, false);
  }
  if (nguard < 16) guard_busy[nguard++] = g;
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(long long int *g)
{
  volatile unsigned char *b = (volatile unsigned char *)g;
  b[1] = 0;
  b[0] = 1;
  if (in_sim())
  {
    release(g);
    for (int i = 0; i < nguard; ++i) if (guard_busy[i] == g) { guard_busy[i] = guard_busy[--nguard]; break; }
    wake(W_MUTEX, g, -1);
  }
}
EXPORT void __cxa_guard_abort(long long int *g)
{
  volatile unsigned char *b = (volatile unsigned char *)g;
  b[1] = 0;
  if (in_sim())
  {
    for (int i = 0; i < nguard; ++i) if (guard_busy[i] == g) { guard_busy[i] = guard_busy[--nguard]; break; }
    wake(W_MUTEX, g, -1);
  }
}

EXPORT void sim_thread_on(uint64_t seed, int mode, long p)
{
  srng.s = seed;
  sched_mode = mode;
  sched_p = (uint64_t)p;
  sched_on = true;
  trace_hash = 1469598103934665603ull;
  yields = switches = created = create_calls = maxlive = create_failed = naccess = 0;
  ndec = 0;
  irep = 0;
  nraces = 0;
  nchange = 0;
  if (mode == 2)
  {
    nchange = 4;
    for (int i = 0; i < nchange; ++i) change_at[i] = 1 + (long)srng.below(p > 0 ? p : 2000);
  }
  self_id = 0;
}
EXPORT void sim_thread_off()
{
  sched_on = false;
  tracking = false;
  fail_create_at = -1;
  nrep = 0;
}
EXPORT void sim_thread_fail(long at, long n)
{
  fail_create_at = at;
  fail_create_n = n;
}
EXPORT void sim_thread_replay(const long *steps, const int *to, int n)
{
  nrep = n > MAXD ? MAXD : n;
  for (int i = 0; i < nrep; ++i) { rep[i].step = steps[i]; rep[i].to = to[i]; }
  irep = 0;
}
EXPORT int sim_thread_decisions(long *steps, int *to, int max)
{
  const int n = ndec < max ? ndec : max;
  for (int i = 0; i < n; ++i) { steps[i] = dec[i].step; to[i] = dec[i].to; }
  return ndec;
}
EXPORT void sim_thread_stats(long *o)
{
  o[0] = created; o[1] = yields; o[2] = switches; o[3] = maxlive; o[4] = nraces;
  o[5] = create_failed; o[6] = alive; o[7] = (long)(trace_hash & 0x7fffffffffffffffull); o[8] = naccess; o[9] = create_calls;
}
EXPORT int sim_race(int i, uint64_t *pc0, uint64_t *pc1, int *wr)
{
  if (i >= nraces) return 0;
  *pc0 = (uint64_t)races[i].pc0;
  *pc1 = (uint64_t)races[i].pc1;
  *wr = races[i].wr0 * 2 + races[i].wr1;
  return 1;
}

// ---------------------------------------------------------------------------
// entry points of -fsanitize=thread instrumentation
// ---------------------------------------------------------------------------
#define PC __builtin_return_address(0)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
  EXPORT void __tsan_read##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, false, PC); } \
  EXPORT void __tsan_write##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, true, PC); } \
  EXPORT void __tsan_unaligned_read##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, false, PC); } \
  EXPORT void __tsan_unaligned_write##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, true, PC); } \
  EXPORT void __tsan_volatile_read##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, false, PC); } \
  EXPORT void __tsan_volatile_write##n(void *p) { if (__builtin_expect(tracking, 0)) access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { if (tracking) access(p, n, false, PC); }
EXPORT void __tsan_write_range(void *p, size_t n) { if (tracking) access(p, n, true, PC); }
EXPORT void __tsan_vptr_read(void **p) { if (tracking) access(p, 8, false, PC); }
EXPORT void __tsan_vptr_update(void **p, void *v) { if (tracking && *p != v) access(p, 8, true, PC); }

namespace {
inline void at_before(const void *p) { if (tracking && in_sim()) { yield_point(); acquire(p); } }
inline void at_after(const void *p) { if (tracking && in_sim()) release(p); }
} // namespace
#define ATOMIC(n, T) \
  EXPORT T __tsan_atomic##n##_load(const volatile T *p, int) { at_before((const void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##n##_store(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { at_before((const void *)p); at_after((const void *)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int, int) { at_before((const void *)p); at_after((const void *)p); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { static char f; at_before(&f); at_after(&f); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// For debugging: the stack of a crash, on standard error.
#include <execinfo.h>
#include <signal.h>
#include <initializer_list>
namespace {
void show_stack(int sig)
{
  void *a[60];
  int n = backtrace(a, 60);
  backtrace_symbols_fd(a, n, 2);
  signal(sig, SIG_DFL);
  raise(sig);
}
} // namespace
EXPORT void sim_debug()
{
  static char stack[1 << 16];
  stack_t s{};
  s.ss_sp = stack;
  s.ss_size = sizeof stack;
  sigaltstack(&s, nullptr);
  struct sigaction sa{};
  sa.sa_handler = show_stack;
  sa.sa_flags = SA_ONSTACK;
  for (int x : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS})
    sigaction(x, &sa, nullptr);
}

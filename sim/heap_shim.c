/* The simulated heap: LD_PRELOADed; serves malloc/calloc/realloc requests that come from the compiled modules of the
 * tree under test from a private arena, so that one seed decides what fresh memory holds, which request fails, and
 * what a stale pointer reads. Blocks are never reused within a run (runs are short-lived forked processes). */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

#define ARENA_SIZE ((size_t)1 << 30)
#define GUARD 32
#define MAGIC 0x51ab1e5ec0de0001ULL
#define FREED 0x51ab1e5ec0de0002ULL

typedef struct { uint64_t magic; uint64_t size; uint64_t serial; uint64_t site; } header;

static char *arena, *top, *end_;
static struct { uintptr_t lo, hi; } range[256];
static int nrange, enabled;
static int fill_mode;               /* 0 zero, 1 NaN bytes, 2 huge doubles, 3 pseudo-random */
static uint64_t fill_state;
static long fail_at, fail_every;    /* 1-based number of the request that fails; 0: never */
static uint64_t limit_bytes;        /* a single request above this fails (0: no limit) */
static uint64_t n_requests, n_failed, n_bytes, n_freed, n_double_free, n_big;
static uint64_t last_failed_site;

void shim_add_range(uintptr_t lo, uintptr_t hi) { if (nrange < 256) { range[nrange].lo = lo; range[nrange].hi = hi; nrange++; } }
void shim_clear_ranges(void) { nrange = 0; }
int shim_enable(int on, int mode, uint64_t seed, long fail, uint64_t limit) {
    if (!arena) {
        void *p = mmap(NULL, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return -1;
        arena = top = p; end_ = arena + ARENA_SIZE;
    }
    fill_mode = mode; fill_state = seed * 2 + 1; fail_at = fail; limit_bytes = limit; enabled = on;
    n_requests = 0;
    return 0;
}
void shim_fail(long at) { fail_at = at ? (long)n_requests + at : 0; }
uint64_t shim_stat(int i) {
    switch (i) {
    case 0: return n_requests; case 1: return n_failed; case 2: return n_bytes; case 3: return n_freed;
    case 4: return n_double_free; case 5: return last_failed_site; case 6: return n_big;
    } return 0;
}
void shim_disable(void) { enabled = 0; }

static inline int ours(const void *p) { return arena && (char *)p >= arena && (char *)p < end_; }
static inline int from_tree(uintptr_t a) {
    for (int i = 0; i < nrange; i++) if (a >= range[i].lo && a < range[i].hi) return 1;
    return 0;
}
static uint64_t nextr(void) { fill_state ^= fill_state << 13; fill_state ^= fill_state >> 7; fill_state ^= fill_state << 17; return fill_state; }
static void fill(char *p, size_t n) {
    size_t i = 0;
    switch (fill_mode) {
    case 0: memset(p, 0, n); return;
    case 1: memset(p, 0xff, n); return;
    case 2: { double v = 8.9e303; for (; i + 8 <= n; i += 8) memcpy(p + i, &v, 8); memset(p + i, 0x7e, n - i); return; }
    default: for (; i + 8 <= n; i += 8) { double v = (double)(int64_t)(nextr() % 2000001) / 1000.0 - 1000.0; memcpy(p + i, &v, 8); }
             for (; i < n; i++) p[i] = (char)nextr(); return;
    }
}
static size_t padded(size_t n) { return (n + 15) & ~(size_t)15; }

static void *serve(size_t n, int zero, uintptr_t site) {
    n_requests++;
    if ((fail_at && (long)n_requests == fail_at) || (limit_bytes && n > limit_bytes)) {
        if (limit_bytes && n > limit_bytes) n_big++;
        n_failed++; last_failed_site = site; errno = ENOMEM; return NULL;
    }
    size_t need = sizeof(header) + padded(n) + 2 * GUARD;
    if (n > ARENA_SIZE / 2 || top + need > end_) return zero ? __libc_calloc(1, n) : __libc_malloc(n);
    char *b = top; top += need;
    header *h = (header *)b;
    h->magic = MAGIC; h->size = n; h->serial = n_requests; h->site = site;
    char *p = b + sizeof(header) + GUARD;
    memset(p - GUARD, 0xA5, GUARD);
    memset(p + n, 0xA5, padded(n) - n + GUARD);
    if (zero) memset(p, 0, n); else fill(p, n);
    n_bytes += n;
    return p;
}
static header *head(void *p) { return (header *)((char *)p - GUARD - sizeof(header)); }

/* walks every block: number of blocks whose guard bytes were overwritten, or that were written after free */
long shim_audit(uint64_t *site, uint64_t *size) {
    long bad = 0;
    if (!arena) return 0;
    for (char *b = arena; b < top;) {
        header *h = (header *)b;
        if (h->magic != MAGIC && h->magic != FREED) { if (!bad) { *site = 0; *size = 0; } return bad + 1; }
        char *p = b + sizeof(header) + GUARD;
        size_t tail = padded(h->size) - h->size + GUARD;
        int broken = 0;
        for (size_t i = 0; i < GUARD; i++) if ((unsigned char)p[-(long)GUARD + (long)i] != 0xA5) broken = 1;
        for (size_t i = 0; i < tail; i++) if ((unsigned char)p[h->size + i] != 0xA5) broken = 1;
        if (h->magic == FREED) for (size_t i = 0; i < h->size; i++) if ((unsigned char)p[i] != 0xFB) { broken = 2; break; }
        if (broken) { if (!bad) { *site = h->site; *size = h->size; } bad++; }
        b += sizeof(header) + padded(h->size) + 2 * GUARD;
    }
    return bad;
}
/* blocks requested since `serial` and not freed */
long shim_live(uint64_t serial, uint64_t *bytes) {
    long n = 0; *bytes = 0;
    if (!arena) return 0;
    for (char *b = arena; b < top;) {
        header *h = (header *)b;
        if (h->magic == MAGIC && h->serial > serial) { n++; *bytes += h->size; }
        b += sizeof(header) + padded(h->size) + 2 * GUARD;
    }
    return n;
}

void *malloc(size_t n) {
    if (enabled && from_tree((uintptr_t)__builtin_return_address(0))) return serve(n, 0, (uintptr_t)__builtin_return_address(0));
    return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
    if (enabled && from_tree((uintptr_t)__builtin_return_address(0))) {
        size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
        return serve(n, 1, (uintptr_t)__builtin_return_address(0));
    }
    return __libc_calloc(a, b);
}
void free(void *p) {
    if (ours(p)) {
        header *h = head(p);
        if (h->magic == MAGIC) { h->magic = FREED; memset(p, 0xFB, h->size); n_freed++; }
        else n_double_free++;
        return;
    }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    uintptr_t site = (uintptr_t)__builtin_return_address(0);
    if (ours(p)) {
        header *h = head(p);
        size_t old = h->size;
        void *q = serve(n, 0, site);
        if (!q) return NULL;
        memcpy(q, p, old < n ? old : n);
        free(p);
        return q;
    }
    if (enabled && from_tree(site) && !p) return serve(n, 0, site);
    return __libc_realloc(p, n);
}

// Preloaded into the code generator: an allocator which returns addresses in an order selected by RRJ_ALLOC.
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define CHUNKS 64
static char *base, *low[CHUNKS], *high[CHUNKS];
static unsigned counter;
static volatile int lock;
static char mode;
static const size_t total = 64ull << 30;
extern char **environ;

static void setup(void)
{
    mode = 'u';
    for (char **e = environ; e && *e; ++e)
        if (!strncmp(*e, "RRJ_ALLOC=", 10))
            mode = (*e)[10];
    base = mmap(0, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED)
        abort();
    for (int i = 0; i < CHUNKS; ++i) {
        low[i] = base + total / CHUNKS * i;
        high[i] = base + total / CHUNKS * (i + 1);
    }
}

void *memalign(size_t align, size_t n)
{
    while (__sync_lock_test_and_set(&lock, 1)) { }
    if (!base)
        setup();
    if (align < 16)
        align = 16;
    size_t room = (n + 16 + align + 15) & ~(size_t)15;
    unsigned c = 0, down = mode == 'd';
    if (mode == 'h')
        c = (counter * 2654435761u >> 7) % CHUNKS;
    else if (mode == 'a') {
        c = counter % CHUNKS;
        down = counter & 1;
    }
    ++counter;
    char *p;
    if (down) {
        p = high[c] -= room;
    } else {
        p = low[c];
        low[c] += room;
    }
    if (low[c] > high[c])
        abort();
    __sync_lock_release(&lock);
    char *r = (char *)(((uintptr_t)p + 16 + align - 1) & ~(uintptr_t)(align - 1));
    ((size_t *)r)[-1] = n;
    return r;
}
void *malloc(size_t n) { return memalign(16, n); }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return 0;
    return malloc(n); // pages are fresh and never reused
}
void *realloc(void *p, size_t n)
{
    if (p && ((size_t *)p)[-1] >= n)
        return p;
    void *r = malloc(n);
    if (p)
        memcpy(r, p, ((size_t *)p)[-1]);
    return r;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ul); }
int posix_memalign(void **p, size_t a, size_t n)
{
    *p = memalign(a, n);
    return 0;
}
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }

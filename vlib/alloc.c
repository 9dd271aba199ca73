/* Counts the bytes the interpreter asks its allocators for (memory and
   object domains) while enabled: copying inside C calls shows up here. */
#include <stddef.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *);
} Alloc;

extern void PyMem_GetAllocator(int, Alloc *);
extern void PyMem_SetAllocator(int, Alloc *);

static Alloc orig[3];
static int on, installed;
static unsigned long long bytes, calls;

static void *m(void *c, size_t n) {
    Alloc *o = c;
    if (on) { bytes += n; calls++; }
    return o->malloc(o->ctx, n);
}
static void *k(void *c, size_t a, size_t b) {
    Alloc *o = c;
    if (on) { bytes += a * b; calls++; }
    return o->calloc(o->ctx, a, b);
}
static void *r(void *c, void *p, size_t n) {
    Alloc *o = c;
    if (on) { bytes += n; calls++; }
    return o->realloc(o->ctx, p, n);
}
static void f(void *c, void *p) {
    Alloc *o = c;
    o->free(o->ctx, p);
}

void alloc_start(void) {
    if (!installed) {
        for (int d = 1; d <= 2; d++) {
            PyMem_GetAllocator(d, &orig[d]);
            Alloc a = {&orig[d], m, k, r, f};
            PyMem_SetAllocator(d, &a);
        }
        installed = 1;
    }
    bytes = calls = 0;
    on = 1;
}
unsigned long long alloc_stop(void) {
    on = 0;
    return bytes;
}

/* Counts the bytes that the interpreter asks its allocators for (new blocks, not resized ones),
   and the comparisons of objects of the built-in types. */
#include <stddef.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *);
} Allocator;

extern void PyMem_GetAllocator(int, Allocator *);
extern void PyMem_SetAllocator(int, Allocator *);

static Allocator old[3];
static unsigned long long total;

static void *count_malloc(void *ctx, size_t n) {
    Allocator *a = ctx;
    total += n;
    return a->malloc(a->ctx, n);
}
static void *count_calloc(void *ctx, size_t m, size_t n) {
    Allocator *a = ctx;
    total += m * n;
    return a->calloc(a->ctx, m, n);
}
static void *count_realloc(void *ctx, void *p, size_t n) {
    Allocator *a = ctx;
    return a->realloc(a->ctx, p, n);
}
static void count_free(void *ctx, void *p) {
    Allocator *a = ctx;
    a->free(a->ctx, p);
}

void start(void) {
    for (int i = 0; i < 3; i++) {
        PyMem_GetAllocator(i, &old[i]);
        Allocator a = {&old[i], count_malloc, count_calloc, count_realloc, count_free};
        PyMem_SetAllocator(i, &a);
    }
    total = 0;
}

unsigned long long stop(void) {
    for (int i = 0; i < 3; i++) PyMem_SetAllocator(i, &old[i]);
    return total;
}

/* Comparisons: the tp_richcompare slots of the given types are replaced by ones that count. */
typedef void *(*Compare)(void *, void *, int);
#define TYPES 8
static Compare real_compare[TYPES];
static Compare *slots[TYPES];
static int types;
static unsigned long long compared;

#define COUNTER(n) static void *compare##n(void *a, void *b, int op) { compared++; return real_compare[n](a, b, op); }
COUNTER(0) COUNTER(1) COUNTER(2) COUNTER(3) COUNTER(4) COUNTER(5) COUNTER(6) COUNTER(7)
static Compare counters[TYPES] = {compare0, compare1, compare2, compare3, compare4, compare5, compare6, compare7};

/* tp_richcompare is the 26th word of a type object (CPython 3.9 to 3.13). */
int watch(void **type) {
    if (types == TYPES || !type[25]) return -1;
    slots[types] = (Compare *)&type[25];
    real_compare[types] = *slots[types];
    return types++;
}

void start_compare(void) {
    compared = 0;
    for (int i = 0; i < types; i++) *slots[i] = counters[i];
}

unsigned long long stop_compare(void) {
    for (int i = 0; i < types; i++) *slots[i] = real_compare[i];
    return compared;
}

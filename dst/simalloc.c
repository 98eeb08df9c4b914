/* Simulated allocator for NumPy array data.
 *
 * Installed through NumPy's own allocator seam (NEP 49,
 * PyDataMem_SetHandler).  It decides what freshly obtained memory contains
 * (poison), when an allocation fails, and what freed memory turns into.  All
 * decisions are pure functions of the configuration and of the allocation
 * counter, so a run is exactly repeatable.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *ctx, size_t size);
    void *(*calloc)(void *ctx, size_t nelem, size_t elsize);
    void *(*realloc)(void *ctx, void *ptr, size_t new_size);
    void (*free)(void *ctx, void *ptr, size_t size);
} Allocator;

typedef struct {
    char name[127];
    uint8_t version;
    Allocator allocator;
} Handler;

/* configuration, written from Python through ctypes */
typedef struct {
    int64_t armed;        /* 0: behave like a plain allocator, count nothing */
    int64_t pattern;      /* poison kind, see fill() */
    uint64_t seed;
    int64_t fail_at;      /* fail the allocation with this ordinal (1-based) */
    int64_t fail_count;   /* ... and the following fail_count-1 ones */
    int64_t fail_min;     /* fail every allocation of at least this size */
    int64_t offset;       /* alignment offset of returned blocks (0/16/32/48) */
    /* counters, read from Python */
    int64_t n_alloc;
    int64_t n_failed;
    int64_t n_poisoned;   /* bytes */
    int64_t n_free;
    int64_t n_overrun;    /* guard bytes found damaged */
    int64_t max_size;
} Config;

Config dst_config;

#define HDR 64
#define GUARD 16
static const unsigned char GUARD_BYTE = 0xA5;

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void fill(unsigned char *p, size_t n, uint64_t key)
{
    size_t i;
    double d;
    uint64_t w;
    switch (dst_config.pattern) {
    case 0:                      /* zeros */
        memset(p, 0, n);
        return;
    case 1:                      /* all ones: NaN as a double, -1 as integer */
        memset(p, 0xFF, n);
        return;
    case 2:                      /* large finite doubles */
        d = 1.2345e+290;
        memcpy(&w, &d, 8);
        break;
    case 3:                      /* small plausible doubles */
        d = 0.6931471805599453;
        memcpy(&w, &d, 8);
        break;
    case 4:                      /* denormal double / integer 3 */
        w = 3;
        break;
    case 5:                      /* -infinity */
        w = 0xFFF0000000000000ull;
        break;
    default:                     /* 6: bytes of other data (seeded) */
        for (i = 0; i + 8 <= n; i += 8) {
            /* plausible doubles of either sign around 1 */
            w = mix(key + i);
            w = (w & 0x800FFFFFFFFFFFFFull) | (0x3F0ull + (w >> 52 & 0x1F)) << 52;
            memcpy(p + i, &w, 8);
        }
        for (; i < n; ++i)
            p[i] = (unsigned char) mix(key + i);
        return;
    }
    for (i = 0; i + 8 <= n; i += 8)
        memcpy(p + i, &w, 8);
    for (; i < n; ++i)
        p[i] = ((unsigned char *) &w)[i & 7];
}

/* Layout: [raw .. HDR (stores raw pointer, size)] [data] [guard] */
static void *get(size_t size, int zero)
{
    unsigned char *raw, *data;
    uintptr_t a;
    size_t want = size ? size : 1;
    int64_t off = dst_config.armed ? dst_config.offset : 0;

    if (dst_config.armed) {
        int64_t k = ++dst_config.n_alloc;
        int fail = 0;
        if (dst_config.fail_at > 0 && k >= dst_config.fail_at
                && k < dst_config.fail_at + dst_config.fail_count)
            fail = 1;
        if (dst_config.fail_min > 0 && (int64_t) size >= dst_config.fail_min)
            fail = 1;
        if (fail) {
            dst_config.n_failed++;
            return NULL;
        }
        if ((int64_t) size > dst_config.max_size)
            dst_config.max_size = (int64_t) size;
    }
    if (want > (size_t) 1 << 40)
        return NULL;
    raw = malloc(want + HDR + 64 + 64 + GUARD);
    if (raw == NULL)
        return NULL;
    a = ((uintptr_t) raw + HDR + 63) & ~(uintptr_t) 63;
    a += (uintptr_t) off;
    data = (unsigned char *) a;
    memcpy(data - 16, &raw, sizeof raw);
    memcpy(data - 8, &want, sizeof want);
    memset(data + want, GUARD_BYTE, GUARD);
    if (zero)
        memset(data, 0, want);
    else if (dst_config.armed) {
        fill(data, want, mix(dst_config.seed ^ (uint64_t) dst_config.n_alloc));
        dst_config.n_poisoned += (int64_t) want;
    } else
        memset(data, 0, want);
    return data;
}

static void release(void *ptr)
{
    unsigned char *data = ptr, *raw;
    size_t want, i;
    if (ptr == NULL)
        return;
    memcpy(&raw, data - 16, sizeof raw);
    memcpy(&want, data - 8, sizeof want);
    for (i = 0; i < GUARD; ++i)
        if (data[want + i] != GUARD_BYTE) {
            dst_config.n_overrun++;
            break;
        }
    if (dst_config.armed) {
        dst_config.n_free++;
        /* freed memory does not keep its contents */
        fill(data, want, mix(dst_config.seed + 77));
    }
    free(raw);
}

static void *h_malloc(void *ctx, size_t size) { (void) ctx; return get(size, 0); }

static void *h_calloc(void *ctx, size_t n, size_t sz)
{
    (void) ctx;
    if (sz && n > ((size_t) 1 << 40) / sz)
        return NULL;
    return get(n * sz, 1);
}

static void h_free(void *ctx, void *ptr, size_t size)
{
    (void) ctx; (void) size;
    release(ptr);
}

static void *h_realloc(void *ctx, void *ptr, size_t size)
{
    void *p;
    size_t old;
    (void) ctx;
    if (ptr == NULL)
        return get(size, 0);
    memcpy(&old, (unsigned char *) ptr - 8, sizeof old);
    p = get(size, 0);
    if (p == NULL)
        return NULL;
    memcpy(p, ptr, old < size ? old : size);
    release(ptr);
    return p;
}

Handler dst_handler = {
    "dst_simalloc", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free }
};

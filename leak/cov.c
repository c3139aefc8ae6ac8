/* What an observer of time sees: the sequence of basic blocks run and of
 * addresses accessed, as two running hashes.  The compiler calls these from
 * every block and access of the instrumented code (SanitizerCoverage). */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

static int on;
static uint64_t h[2], n[2], moved;

int cov_switch(int x) { int o = on; on = x; return o; }
int cov_is_on(void) { return on; }
void cov_reset(void) { h[0] = h[1] = 0xcbf29ce484222325ull; n[0] = n[1] = moved = 0; }
void cov_get(uint64_t *o) { o[0] = h[0]; o[1] = n[0]; o[2] = h[1]; o[3] = n[1]; }

/* what has been done: blocks, and octets copied or compared by the C library */
uint64_t cov_work(void) { return n[0] + moved / 32; }

static inline void mix(int k, uint64_t x) {
    h[k] = (h[k] ^ x) * 0x100000001b3ull;
    h[k] ^= h[k] >> 29;
    n[k]++;
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t c;
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++c;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (on) mix(0, *g); }

#define LS(k) \
    void __sanitizer_cov_load##k(void *p) { if (on) mix(1, (uint64_t)p * 2); } \
    void __sanitizer_cov_store##k(void *p) { if (on) mix(1, (uint64_t)p * 2 + 1); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* the comparison of the C library stops at the first difference */
static int cmp(const unsigned char *a, const unsigned char *b, size_t k) {
    size_t i = 0;
    while (i < k && a[i] == b[i]) i++;
    if (on) { mix(0, ~(uint64_t)i); moved += i; }
    return i == k ? 0 : a[i] < b[i] ? -1 : 1;
}
int memcmp(const void *a, const void *b, size_t k) { return cmp(a, b, k); }
int bcmp(const void *a, const void *b, size_t k) { return cmp(a, b, k); }

/* copies count as accesses */
static void copied(void *d, const void *s, size_t k) {
    if (on) { mix(1, (uint64_t)s * 2); mix(1, (uint64_t)d * 2 + 1); mix(1, k); moved += k; }
}
void *memcpy(void *d, const void *s, size_t k) {
    void *r = d;
    copied(d, s, k);
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(k) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t k) {
    unsigned char *a = d;
    const unsigned char *b = s;
    copied(d, s, k);
    if (a <= b || a >= b + k) {
        __asm__ volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(k) : : "memory");
        return d;
    }
    while (k--) a[k] = b[k];
    return d;
}

/* chosen system randomness: a prefix, then numbers from a seed */
static const unsigned char *fb;
static size_t fn, fi;
static uint64_t fs;
static int fed;
void feed(const unsigned char *p, size_t k, uint64_t seed) { fb = p; fn = k; fi = 0; fs = seed * 2 + 1; fed = 1; }
static void fill(unsigned char *b, size_t k) {
    for (size_t i = 0; i < k; i++) {
        fs = fs * 6364136223846793005ull + 1442695040888963407ull;
        b[i] = fi < fn ? fb[fi] : (unsigned char)(fs >> 33);
        fi++;
    }
}
static long raw(long c, long a1, long a2, long a3, long a4, long a5, long a6) {
    long r;
    register long r10 __asm__("r10") = a4;
    register long r8 __asm__("r8") = a5;
    register long r9 __asm__("r9") = a6;
    __asm__ volatile("syscall" : "=a"(r) : "a"(c), "D"(a1), "S"(a2), "d"(a3), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
extern int *__errno_location(void);
static long ret(long r) {
    if (r < 0 && r > -4096) { *__errno_location() = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void *b, size_t k, unsigned f) {
    if (fed) { fill(b, k); return (ssize_t)k; }
    return ret(raw(318, (long)b, (long)k, f, 0, 0, 0));
}
long syscall(long c, ...) {
    va_list v;
    long a[6];
    va_start(v, c);
    for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
    va_end(v);
    if (c == 318 && fed) { fill((unsigned char *)a[0], (size_t)a[1]); return a[1]; }
    return ret(raw(c, a[0], a[1], a[2], a[3], a[4], a[5]));
}

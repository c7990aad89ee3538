#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>
#include "n.h"
#include <cx.h>
#include <os.h>
#include "crypto_prims.h"

static uint64_t st;
static uint64_t cur;
static jmp_buf out_of_case;
static const char *key;
static char det[2000];

uint64_t rnd(void) {
    uint64_t z = (st += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
bool chance(unsigned percent) { return below(100) < percent; }
uint64_t edge64(void) {
    switch (below(6)) {
        case 0: return below(300);
        case 1: { uint64_t p = 1ull << below(64); return p + below(5) - 2; }
        case 2: return UINT64_MAX - below(300);
        case 3: return rnd() >> below(64);
        case 4: { static const uint64_t e[] = {INT64_MAX, INT64_MAX + 1ull, UINT32_MAX, UINT32_MAX + 1ull, INT32_MAX, INT32_MAX + 1ull, 65535, 65536, 32767, 32768};
                  return e[below(10)] + below(3) - 1; }
        default: return rnd();
    }
}
uint32_t edge32(void) {
    switch (below(5)) {
        case 0: return below(300);
        case 1: { uint32_t p = 1u << below(32); return p + (uint32_t) below(5) - 2; }
        case 2: return UINT32_MAX - below(300);
        case 3: return 0x80000000u + below(50);
        default: return rnd();
    }
}
void fill(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = rnd(); }

#define NAMES 400
static struct { const char *name; uint64_t n; } names[NAMES];
static uint64_t sig;
void mix(uint64_t v) { sig ^= v + 0x9E3779B97F4A7C15ull + (sig << 6) + (sig >> 2); sig *= 0xBF58476D1CE4E5B9ull; }
void saw(const char *name) {
    for (int i = 0; i < NAMES; i++) {
        if (names[i].name == NULL) names[i].name = name;
        if (names[i].name == name || strcmp(names[i].name, name) == 0) { names[i].n++; mix(i + 1); return; }
    }
    abort();
}
void fail(const char *k, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(det, sizeof det, fmt, ap);
    va_end(ap);
    key = k;
    longjmp(out_of_case, 1);
}
const char *hex(const void *p, size_t n) {
    static char b[8][520];
    static int w;
    char *o = b[w = (w + 1) % 8];
    *o = 0;
    for (size_t i = 0; i < n && i < 250; i++) sprintf(o + 2 * i, "%02x", ((const uint8_t *) p)[i]);
    return o;
}

#define MAXEX 64
static uint8_t *ex[MAXEX];
static int nex;
uint8_t *exact(size_t n) {
    if (nex == MAXEX) abort();
    uint8_t *p = malloc(n);
    if (p == NULL) abort();
    return ex[nex++] = p;
}

uint8_t hlog[1 << 20];
size_t hlog_len;
long hash_fail_at = -1, hash_calls;
void log_reset(void) { hlog_len = 0; }
static bool hfault(void) {
    long n = hash_calls++;
    return n == hash_fail_at;
}
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *c, size_t bits) {
    if (hfault()) return CX_INTERNAL_ERROR;
    memset(c, 0, sizeof *c);
    c->header.md_type = CX_BLAKE2B;
    c->header.output_size = bits / 8;
    for (int i = 0; i < 8; i++) c->h[i] = prim_blake2b_iv[i];
    c->h[0] ^= 0x01010000 ^ (bits / 8);
    return CX_OK;
}
static void upd(cx_blake2b_t *c, const uint8_t *in, size_t len) {
    while (len) {
        if (c->blen == 128) {
            c->t[0] += 128;
            prim_blake2b_compress(c->h, c->buf, c->t, 0);
            c->blen = 0;
        }
        size_t k = 128 - c->blen;
        if (k > len) k = len;
        memcpy(c->buf + c->blen, in, k);
        c->blen += k; in += k; len -= k;
    }
}
static void fin(cx_blake2b_t *c, uint8_t *out) {
    memset(c->buf + c->blen, 0, 128 - c->blen);
    c->t[0] += c->blen;
    prim_blake2b_compress(c->h, c->buf, c->t, ~0ull);
    memcpy(out, c->h, c->header.output_size);
}
cx_err_t cx_hash_no_throw(cx_hash_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    if (hfault()) return CX_INTERNAL_ERROR;
    if (len) {
        if (hlog_len + len > sizeof hlog) abort();
        for (size_t i = 0; i < len; i++) hlog[hlog_len + i] = in[i];
        hlog_len += len;
        upd((cx_blake2b_t *) h, in, len);
    }
    if (mode & CX_LAST) {
        if (out_len < h->output_size) return CX_INVALID_PARAMETER;
        uint8_t d[64];
        fin((cx_blake2b_t *) h, d);
        for (size_t i = 0; i < h->output_size; i++) out[i] = d[i];
    }
    return CX_OK;
}
void ref_blake2b256(const uint8_t *in, size_t n, uint8_t out[32]) {
    cx_blake2b_t c;
    memset(&c, 0, sizeof c);
    c.header.output_size = 32;
    for (int i = 0; i < 8; i++) c.h[i] = prim_blake2b_iv[i];
    c.h[0] ^= 0x01010000 ^ 32;
    upd(&c, in, n);
    fin(&c, out);
}
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t n, uint8_t *out) {
    if (hfault()) return CX_INTERNAL_ERROR;
    uint8_t d[32];
    ref_blake2b256(in, n, d);
    for (int i = 0; i < 32; i++) out[i] = d[i];
    return CX_OK;
}
void emu_ledger_assert_failed(const char *file, int line) {
    const char *b = strrchr(file, '/');
    printf("FAIL\t%llu\tassert\tthe library gave up at %s:%d\n", (unsigned long long) cur, b ? b + 1 : file, line);
    fflush(stdout);
    _exit(1);
}
void os_sched_exit(int code) { (void) code; abort(); }

static void died(void) {
    char b[64];
    int n = snprintf(b, sizeof b, "DIED\t%llu\n", (unsigned long long) cur);
    if (write(1, b, n)) {}
}
static void hang(int s) {
    (void) s;
    char b[64];
    int n = snprintf(b, sizeof b, "HANG\t%llu\n", (unsigned long long) cur);
    if (write(1, b, n)) {}
    _exit(4);
}

static uint64_t *set;
static size_t set_n, set_cap = 1 << 16;
static void set_add(uint64_t v) {
    if (v == 0) v = 1;
    if (set == NULL) set = calloc(set_cap, 8);
    if (set_n * 2 > set_cap) {
        uint64_t *o = set;
        size_t oc = set_cap;
        set_cap *= 2; set_n = 0; set = calloc(set_cap, 8);
        for (size_t i = 0; i < oc; i++) if (o[i]) set_add(o[i]);
        free(o);
    }
    size_t i = (v * 0x9E3779B97F4A7C15ull) >> 20 & (set_cap - 1);
    while (set[i]) { if (set[i] == v) return; i = (i + 1) & (set_cap - 1); }
    set[i] = v;
    set_n++;
}

/* usage: harness SEED FIRST COUNT */
int main(int argc, char **argv) {
    if (argc != 4) return 2;
    uint64_t seed = strtoull(argv[1], NULL, 10), first = strtoull(argv[2], NULL, 10), count = strtoull(argv[3], NULL, 10);
    int bad = 0;
    __sanitizer_set_death_callback(died);
    signal(SIGALRM, hang);
    for (cur = first; cur < first + count; cur++) {
        if (((cur - first) & 1023) == 0) alarm(60);
        st = seed * 0x2545F4914F6CDD1Dull + cur * 0xD1342543DE82EF95ull;
        rnd(); rnd();
        sig = 0;
        hash_fail_at = -1; hash_calls = 0; hlog_len = 0;
        key = NULL;
        if (setjmp(out_of_case) == 0) one_case(cur);
        else {
            printf("FAIL\t%llu\t%s\t%s\n", (unsigned long long) cur, key, det);
            if (++bad >= 3) break;
        }
        set_add(sig);
        while (nex) free(ex[--nex]);
    }
    alarm(0);
    for (int i = 0; i < NAMES && names[i].name; i++) printf("SAW\t%s\t%llu\n", names[i].name, (unsigned long long) names[i].n);
    for (int i = 0; FOCUS[i]; i++) printf("FOCUS\t%s\n", FOCUS[i]);
    printf("DONE\t%llu\t%zu\n", (unsigned long long) (cur - first), set_n);
    fflush(stdout);
    return bad ? 1 : 0;
}
void emu_overrun(const char *file, int line, size_t room, size_t n) {
    fprintf(stderr, "%s:%d: runtime error: %zu bytes for a member of %zu\n", file, line, n, room);
    abort();
}

/*
 * Host emulation of the Ledger SDK runtime around the *real* application code: the application's
 * own app_main() loop runs here, and every SDK call it makes is answered and recorded.
 *
 * Host protocol (stdin):  u8 type, u16le length, payload
 *   'T' boot (payload: u64 seed, u8 flags)   'Q' end this boot        'A' APDU
 *   'L' 'R' 'B' button presses               'G' bytes queued as the next random bytes
 *   'F' u32 [u32 [u8]]: make the n-th following fallible SDK call fail (and those after it, so many in all; what it was
 *       to compute is left alone, or, with the third value, replaced by something plausible but wrong)
 *   'Z' end of program
 * Event stream (stdout): u8 type, u32le length, payload; see emit() callers below.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#ifdef EMU_RESIDUE
#include <ucontext.h>
#endif
#include "os.h"
#include "cx.h"
#include "io.h"
#include "ux.h"
#include "parser.h"
#include "format.h"
#include "glyphs.h"
#include "read.h"
#include "write.h"
#include "ledger_assert.h"
#include "crypto_prims.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define EMU_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#if __has_feature(address_sanitizer)
#define EMU_ASAN 1
#endif
#endif

#ifdef EMU_RESIDUE
/* The primitives stand for system calls: they run on a stack of their own, so that what they leave behind
   is not taken for something the application left behind. */
static void *k_stack_top __attribute__((used));
long k_call(void *fn, ...);
__asm__(".text\n.globl k_call\n.type k_call,@function\nk_call:\n"
        " push %rbx\n mov %rsp,%rbx\n mov k_stack_top(%rip),%rsp\n mov %rdi,%r11\n mov %rsi,%rdi\n mov %rdx,%rsi\n"
        " mov %rcx,%rdx\n mov %r8,%rcx\n mov %r9,%r8\n mov 16(%rbx),%r9\n xor %eax,%eax\n call *%r11\n"
        " mov %rbx,%rsp\n pop %rbx\n ret\n");
#define K(fn, ...) k_call((void *) fn, ##__VA_ARGS__, 0L, 0L, 0L, 0L, 0L)
#define prim_sha256(a, n, o) K(prim_sha256, a, (size_t) (n), o)
#define prim_hmac_sha256(k, kl, a, n, o) K(prim_hmac_sha256, k, (size_t) (kl), a, (size_t) (n), o)
#define prim_ec_mul(p, k, n) ((_Bool) (K(prim_ec_mul, p, k, (size_t) (n)) & 1))
#define prim_mulmod(r, a, b, m) K(prim_mulmod, r, a, b, m)
#define prim_addmod(r, a, b, m) K(prim_addmod, r, a, b, m)
#define prim_submod(r, a, b, m) K(prim_submod, r, a, b, m)
#endif

/* entry point of the application under test; its prototype is app_main() */
extern void app_main();

uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
ux_state_t G_ux;

#define EVMAX (1 << 20)
typedef struct {
    uint8_t kind; /* 0 private key, 1 32-byte random, 2 product with a private key, 3 session key, 4 chain code */
    uint8_t len;
    uint8_t b[32];
    uint8_t known; /* pieces of eight bytes that are, nearly or all, in a result too (a sum with a value of few digits) */
} secret_t;
#define MAXSECRETS 96
typedef struct {
    size_t evlen;
    uint8_t ev[EVMAX];
    uint64_t rs[4];
    uint8_t rngq[4096];
    size_t rngq_len, rngq_pos;
    uint64_t seed;
    bool fault_wild;     /* a failing call leaves something wrong in its results */
    uint32_t fault_count; /* how many calls in a row fail */
    uint32_t fallible;   /* number of fallible SDK calls made */
    uint32_t fault_at;   /* fail when the counter reaches this value; 0: never */
    int io_state;        /* 0 ready, 1 APDU received and not yet answered, 2 waiting */
    secret_t secrets[MAXSECRETS];
    size_t nsecrets;
    uint8_t bitmap[8192];
    uint32_t ux_depth;
    uint8_t told[MAXSECRETS]; /* found below a frame during this step */
} emu_t;
static emu_t *E; /* shared with the parent, outside the scanned memory */

static void emit(uint8_t type, const void *p, size_t n) {
    if (E->evlen + n + 5 > EVMAX) _exit(70);
    uint8_t *o = E->ev + E->evlen;
    o[0] = type;
    o[1] = (uint8_t) n; o[2] = (uint8_t) (n >> 8); o[3] = (uint8_t) (n >> 16); o[4] = (uint8_t) (n >> 24);
    if (n) memcpy(o + 5, p, n);
    E->evlen += 5 + n;
}
static void flush_events(void) {
    size_t off = 0;
    while (off < E->evlen) {
        ssize_t w = write(1, E->ev + off, E->evlen - off);
        if (w < 0) { if (errno == EINTR) continue; _exit(71); }
        off += (size_t) w;
    }
    E->evlen = 0;
}
static bool read_exact(uint8_t *p, size_t n) {
    while (n) {
        ssize_t r = read(0, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        p += r; n -= (size_t) r;
    }
    return true;
}
void emu_ledger_assert_failed(const char *file, int line) {
    char b[300];
    int n = snprintf(b, sizeof b, "%s:%d", file, line);
    emit('a', b, (size_t) n);
    flush_events();
    _exit(77);
}
void os_sched_exit(int code) {
    int32_t c = code;
    emit('e', &c, 4);
    flush_events();
    _exit(0);
}

/* ---------------- random numbers ---------------- */
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd64(void) {
    uint64_t *s = E->rs, r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
static void rnd_seed(uint64_t x) {
    for (int i = 0; i < 4; i++) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        E->rs[i] = z ^ (z >> 31);
    }
}
/* few different bytes: could be found in any memory */
static bool plain_piece(const uint8_t *b) {
    int distinct = 0;
    for (int i = 0; i < 8; i++) {
        int j = 0;
        while (j < i && b[j] != b[i]) j++;
        distinct += j == i;
    }
    return distinct < 6;
}
static void add_secret(uint8_t kind, const uint8_t *b, size_t n) {
    if (n > 32) n = 32;
    /* values such as 1 are found in any memory */
    size_t distinct = 0;
    for (size_t i = 0; i < n; i++) {
        size_t j = 0;
        while (j < i && b[j] != b[i]) j++;
        if (j == i) distinct++;
    }
    if (distinct < 8) return;
    for (size_t i = 0; i < E->nsecrets; i++)
        if (E->secrets[i].len == n && memcmp(E->secrets[i].b, b, n) == 0) {
            uint8_t again[2] = {E->secrets[i].kind, (uint8_t) i};
            emit('k', again, 2);
            return;
        }
    size_t at = E->nsecrets < MAXSECRETS ? E->nsecrets++ : MAXSECRETS - 1;
    uint8_t rec[2] = {kind, (uint8_t) at};
    emit('k', rec, 2);
    E->secrets[at].kind = kind;
    E->secrets[at].len = (uint8_t) n;
    E->secrets[at].known = 0;
    memcpy(E->secrets[at].b, b, n);
    /* any eight bytes of it at a multiple of eight are recognised: part of a secret left behind is a leak too */
    for (size_t o = 0; o + 8 <= n; o += 8) {
        if (plain_piece(b + o)) continue;
        uint32_t k = b[o] | (b[o + 1] << 8);
        E->bitmap[k >> 3] |= (uint8_t) (1 << (k & 7));
    }
}
static bool is_private(const uint8_t *b) {
    for (size_t i = 0; i < E->nsecrets; i++)
        if (E->secrets[i].kind == 0 && memcmp(E->secrets[i].b, b, 32) == 0) return true;
    return false;
}
static void rng_fill(uint8_t *b, size_t n) {
    bool chosen = E->rngq_pos < E->rngq_len;   /* by the host: known values, not secrets */
    for (size_t i = 0; i < n; i++) {
        if (E->rngq_pos < E->rngq_len) b[i] = E->rngq[E->rngq_pos++];
        else b[i] = (uint8_t) (rnd64() >> 56);
    }
    emit('g', b, n);
    if (chosen) return;
    if (n == 32) add_secret(1, b, n);
    if (n == 16) add_secret(3, b, n);
}
void cx_rng_no_throw(uint8_t *b, size_t n) { rng_fill(b, n); }
uint8_t *cx_rng(uint8_t *b, size_t n) { rng_fill(b, n); return b; }
uint8_t cx_rng_u8(void) { uint8_t b; rng_fill(&b, 1); return b; }
uint32_t cx_rng_u32(void) { uint8_t b[4]; rng_fill(b, 4); return b[0] | b[1] << 8 | b[2] << 16 | (uint32_t) b[3] << 24; }

/* ---------------- fault injection ---------------- */
#define UNTIL_NEXT 0xFFFFFFFEu   /* a count: all calls up to the next request or button */
static bool fault(const char *what) {
    E->fallible++;
    if (E->fault_at && E->fallible >= E->fault_at && E->fallible - E->fault_at < E->fault_count) {
        emit('f', what, strlen(what));
        return true;
    }
    return false;
}
/* what a failing call leaves in its results: bytes that look like a good result and are none */
static void spoil(void *p, size_t n) {
    static uint32_t x = 0x2545F491;
    uint8_t *b = p;
    if (!E->fault_wild || !b) return;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = (uint8_t) (x >> 8); }
    if (n && b[0] > 0xF0) b[0] = 0x71;
}

/* ---------------- hashes ---------------- */
#define HMAGIC 0xB1A4E2B2u
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *c, size_t bits) {
    if (fault("cx_blake2b_init_no_throw")) return CX_INTERNAL_ERROR;
    if (bits == 0 || bits > 512 || bits % 8) return CX_INVALID_PARAMETER;
    memset(c, 0, sizeof *c);
    c->header.md_type = CX_BLAKE2B;
    c->header.output_size = bits / 8;
    c->header.magic = HMAGIC;
    memcpy(c->h, prim_blake2b_iv, sizeof c->h);
    c->h[0] ^= 0x01010000 ^ (bits / 8);
    return CX_OK;
}
static void b2_update(cx_blake2b_t *c, const uint8_t *in, size_t len) {
    while (len) {
        if (c->blen == 128) {
            c->t[0] += 128; if (c->t[0] < 128) c->t[1]++;
            prim_blake2b_compress(c->h, c->buf, c->t, 0);
            c->blen = 0;
        }
        size_t n = 128 - c->blen;
        if (n > len) n = len;
        memcpy(c->buf + c->blen, in, n);
        c->blen += n; in += n; len -= n;
    }
}
static void b2_final(cx_blake2b_t *c, uint8_t *out) {
    c->t[0] += c->blen; if (c->t[0] < c->blen) c->t[1]++;
    memset(c->buf + c->blen, 0, 128 - c->blen);
    prim_blake2b_compress(c->h, c->buf, c->t, ~0ULL);
    for (size_t i = 0; i < c->header.output_size; i++) out[i] = (uint8_t) (c->h[i / 8] >> (8 * (i % 8)));
    c->header.magic = 0;
}
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len,
                          uint8_t *out, size_t out_len) {
    cx_blake2b_t *c = (cx_blake2b_t *) hash;
    if (fault("cx_hash_no_throw")) { if (mode & CX_LAST) spoil(out, out_len > 32 ? 32 : out_len); return CX_INTERNAL_ERROR; }
    if (c->header.md_type != CX_BLAKE2B || c->header.magic != HMAGIC || c->blen > 128 ||
        c->header.output_size > 64) {
        emit('h', NULL, 0); /* hash context used while not initialised (or overwritten) */
        return CX_INVALID_PARAMETER;
    }
    if (len) b2_update(c, in, len);
    if (mode & CX_LAST) {
        if (out_len < c->header.output_size) return CX_INVALID_PARAMETER;
        b2_final(c, out);
        if (!(mode & CX_NO_REINIT)) {
            size_t bits = c->header.output_size * 8;
            memset(c, 0, sizeof *c);
            c->header.md_type = CX_BLAKE2B; c->header.output_size = bits / 8; c->header.magic = HMAGIC;
            memcpy(c->h, prim_blake2b_iv, sizeof c->h);
            c->h[0] ^= 0x01010000 ^ (bits / 8);
        }
    }
    return CX_OK;
}
cx_err_t cx_hash_update(cx_hash_t *h, const uint8_t *in, size_t len) { return cx_hash_no_throw(h, 0, in, len, NULL, 0); }
cx_err_t cx_hash_final(cx_hash_t *h, uint8_t *out) { return cx_hash_no_throw(h, CX_LAST | CX_NO_REINIT, NULL, 0, out, 64); }
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t *out) {
    if (fault("cx_blake2b_256_hash")) { spoil(out, 32); return CX_INTERNAL_ERROR; }
    cx_blake2b_t c;
    memset(&c, 0, sizeof c);
    c.header.output_size = 32;
    memcpy(c.h, prim_blake2b_iv, sizeof c.h);
    c.h[0] ^= 0x01010000 ^ 32;
    if (len) b2_update(&c, data, len);
    b2_final(&c, out);
    return CX_OK;
}
size_t cx_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t *mac, size_t mlen) {
    uint8_t m[32];
    prim_hmac_sha256(key, klen, in, len, m);
    if (mlen > 32) mlen = 32;
    memcpy(mac, m, mlen);
    return mlen;
}
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    uint8_t m[32];
    prim_sha256(in, len, m);
    if (out_len > 32) out_len = 32;
    memcpy(out, m, out_len);
    return out_len;
}

/* ---------------- keys and curve ---------------- */
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len,
                                  uint8_t raw[static 64], uint8_t *chain) {
    uint8_t rec[4 + 4 * 64];
    if (path_len > 64) path_len = 64;
    for (size_t i = 0; i < path_len; i++) {
        uint32_t v = path[i];
        rec[4 * i] = (uint8_t) v; rec[4 * i + 1] = (uint8_t) (v >> 8);
        rec[4 * i + 2] = (uint8_t) (v >> 16); rec[4 * i + 3] = (uint8_t) (v >> 24);
    }
    if (fault("os_derive_bip32_no_throw")) { spoil(raw, 64); spoil(chain, 32); return CX_INTERNAL_ERROR; }
    emit('d', rec, 4 * path_len);
    if (curve != CX_CURVE_SECP256K1) return CX_INVALID_PARAMETER;
    uint8_t msg[9 + 4 * 64];
    msg[0] = 'k';
    for (int i = 0; i < 8; i++) msg[1 + i] = (uint8_t) (E->seed >> (8 * i));
    memcpy(msg + 9, rec, 4 * path_len);
    prim_sha256(msg, 9 + 4 * path_len, raw);
    add_secret(0, raw, 32);
    if (chain) {
        msg[0] = 'c';
        prim_sha256(msg, 9 + 4 * path_len, chain);
        add_secret(4, chain, 32);
    }
    return CX_OK;
}
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len,
                                           cx_ecfp_256_private_key_t *key) {
    if (fault("cx_ecfp_init_private_key_no_throw")) {
        if (E->fault_wild) { key->curve = CX_CURVE_SECP256K1; key->d_len = 32; spoil(key->d, 32); }
        return CX_INTERNAL_ERROR;
    }
    if (curve != CX_CURVE_SECP256K1 || len != 32) return CX_INVALID_PARAMETER;
    key->curve = curve;
    key->d_len = len;
    memcpy(key->d, raw, len);
    return CX_OK;
}
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub,
                                        cx_ecfp_256_private_key_t *priv, bool keep) {
    if (fault("cx_ecfp_generate_pair_no_throw")) {
        if (E->fault_wild) { pub->curve = CX_CURVE_SECP256K1; pub->W_len = 65; memcpy(pub->W, prim_secp_g, 65); }
        return CX_INTERNAL_ERROR;
    }
    if (curve != CX_CURVE_SECP256K1) return CX_INVALID_PARAMETER;
    if (!keep) rng_fill(priv->d, 32);
    pub->curve = curve;
    pub->W_len = 65;
    memcpy(pub->W, prim_secp_g, 65);
    if (!prim_ec_mul(pub->W, priv->d, 32)) return CX_EC_INFINITE_POINT;
    return CX_OK;
}
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t len) {
    if (fault("cx_ecfp_scalar_mult_no_throw")) { if (E->fault_wild) memcpy(P, prim_secp_g, 65); return CX_INTERNAL_ERROR; }
    if (curve != CX_CURVE_SECP256K1) return CX_INVALID_PARAMETER;
    return prim_ec_mul(P, k, len) ? CX_OK : CX_EC_INFINITE_POINT;
}
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff) {
    if (fault("cx_math_cmp_no_throw")) { if (E->fault_wild) *diff = -1; return CX_INTERNAL_ERROR; }
    int d = memcmp(a, b, len);
    *diff = d < 0 ? -1 : d > 0;
    return CX_OK;
}
bool cx_math_is_zero(const uint8_t *a, size_t len) {
    uint8_t o = 0;
    while (len--) o |= *a++;
    return o == 0;
}
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("cx_math_multm_no_throw")) { spoil(r, 32); return CX_INTERNAL_ERROR; }
    if (len != 32) return CX_INVALID_PARAMETER;
    bool sec = is_private(a) || is_private(b);
    prim_mulmod(r, a, b, m);
    if (sec) add_secret(2, r, 32);
    return CX_OK;
}
#ifdef EMU_RESIDUE
static void result_known(const uint8_t *r) {
    for (size_t i = 0; i < E->nsecrets; i++)
        for (size_t o = 0; o + 8 <= E->secrets[i].len; o += 8)
        {
            int same = 0;
            for (int j = 0; j < 8; j++) same += E->secrets[i].b[o + (size_t) j] == r[o + (size_t) j];
            if (same >= 4) E->secrets[i].known |= (uint8_t) (1 << o / 8);
        }
}
#endif
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("cx_math_addm_no_throw")) { spoil(r, 32); return CX_INTERNAL_ERROR; }
    if (len != 32) return CX_INVALID_PARAMETER;
    prim_addmod(r, a, b, m);
#ifdef EMU_RESIDUE
    K(result_known, r);
#endif
    return CX_OK;
}
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m, size_t len) {
    if (fault("cx_math_subm_no_throw")) { spoil(r, 32); return CX_INTERNAL_ERROR; }
    if (len != 32) return CX_INVALID_PARAMETER;
    prim_submod(r, a, b, m);
    return CX_OK;
}

cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m) {
    static const uint8_t zero[32];
    if (fault("cx_math_modm_no_throw")) return CX_INTERNAL_ERROR;
    if (len_v != 32 || len_m != 32) return CX_INVALID_PARAMETER;
    bool sec = is_private(v);
    prim_addmod(v, v, zero, m);
    if (sec) add_secret(2, v, 32);
    return CX_OK;
}
cx_err_t cx_math_add_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len) {
    if (fault("cx_math_add_no_throw")) return CX_INTERNAL_ERROR;
    unsigned c = 0;
    while (len--) { c += a[len] + b[len]; r[len] = (uint8_t) c; c >>= 8; }
    return c ? CX_CARRY : CX_OK;
}
cx_err_t cx_math_sub_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len) {
    if (fault("cx_math_sub_no_throw")) return CX_INTERNAL_ERROR;
    int c = 0;
    while (len--) { c += a[len] - b[len]; r[len] = (uint8_t) c; c >>= 8; }
    return c ? CX_CARRY : CX_OK;
}

/* ---------------- formatting ---------------- */
bool format_u64(char *dst, size_t dst_len, uint64_t value) {
    char tmp[21];
    size_t n = 0;
    do { tmp[n++] = (char) ('0' + value % 10); value /= 10; } while (value);
    if (dst_len < n + 1) return false;
    for (size_t i = 0; i < n; i++) dst[i] = tmp[n - 1 - i];
    dst[n] = 0;
    return true;
}
bool format_i64(char *dst, size_t dst_len, const int64_t value) {
    if (value < 0) {
        if (dst_len < 2) return false;
        *dst = '-';
        return format_u64(dst + 1, dst_len - 1, 0 - (uint64_t) value);
    }
    return format_u64(dst, dst_len, (uint64_t) value);
}
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    char b[21] = {0};
    if (!format_u64(b, sizeof b, value)) return false;
    size_t digits = strlen(b);
    if (digits <= decimals) {
        if (dst_len <= 2u + decimals) return false;
        *dst++ = '0'; *dst++ = '.';
        for (size_t i = 0; i < decimals - digits; i++) *dst++ = '0';
        memcpy(dst, b, digits + 1);
    } else {
        if (dst_len <= digits + 1 + decimals) return false;
        size_t shift = digits - decimals;
        memcpy(dst, b, shift);
        dst[shift] = '.';
        memcpy(dst + shift + 1, b + shift, decimals);
        dst[shift + 1 + decimals] = 0;
    }
    return true;
}
bool format_fpu64_trimmed(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals) {
    if (!format_fpu64(dst, dst_len, value, decimals)) return false;
    size_t n = strlen(dst);
    while (n && dst[n - 1] == '0') dst[--n] = 0;
    if (n && dst[n - 1] == '.') dst[--n] = 0;
    return true;
}
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len) {
    static const char hex[] = "0123456789ABCDEF";
    if (out_len < 2 * in_len + 1) return -1;
    size_t w = 0;
    for (size_t i = 0; i < in_len; i++) {
        out[w++] = hex[in[i] >> 4];
        out[w++] = hex[in[i] & 15];
    }
    out[w++] = 0;
    return (int) w;
}

/* ---------------- user interface ---------------- */
#define ICON(n) const bagl_icon_details_t n = {#n}
ICON(C_icon_warning); ICON(C_icon_processing); ICON(C_icon_validate_14); ICON(C_icon_eye);
ICON(C_icon_dashboard_x); ICON(C_icon_crossmark); ICON(C_icon_certificate); ICON(C_icon_back);
ICON(C_app_logo); ICON(C_icon_validate); ICON(C_icon_certificate_14); ICON(C_icon_coggle);

static void screen(uint8_t kind, const char *a, const char *b) {
    uint8_t o[1024];
    size_t la = a ? strnlen(a, 400) : 0, lb = b ? strnlen(b, 400) : 0;
    o[0] = kind;
    if (la) memcpy(o + 1, a, la);
    o[1 + la] = 0;
    if (lb) memcpy(o + 2 + la, b, lb);
#ifdef EMU_MSAN
    __msan_check_mem_is_initialized(o, 2 + la + lb);
#endif
    emit('s', o, 2 + la + lb);
}
static const void *params(unsigned int slot) {
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    return f->steps[f->index]->params;
}
#define L1(kindname, code)                                                    \
    void ux_layout_##kindname##_init(unsigned int s) {                        \
        const ux_layout_##kindname##_params_t *p = params(s);                 \
        screen(code, p->line1, NULL);                                         \
    }
#define L2(kindname, code)                                                    \
    void ux_layout_##kindname##_init(unsigned int s) {                        \
        const ux_layout_##kindname##_params_t *p = params(s);                 \
        screen(code, p->line1, p->line2);                                     \
    }
L1(pn, 'n') L1(pb, 'b') L2(pnn, '2') L2(pbb, '2') L2(bn, '2') L2(nn, '2') L2(bb, '2')
void ux_layout_bnnn_paging_init(unsigned int s) {
    const ux_layout_bnnn_paging_params_t *p = params(s);
    const ux_flow_state_t *f = &G_ux.flow_stack[s];
    /* like the SDK: coming from behind, a long text starts with its last part */
    screen(f->index < f->prev_index ? 'q' : 'p', p->title, p->text);
}
void ux_layout_paging_init(unsigned int s) { ux_layout_bnnn_paging_init(s); }

unsigned int ux_stack_push(void) {
    if (G_ux.stack_count < UX_STACK_SLOT_COUNT) {
        memset(&G_ux.flow_stack[G_ux.stack_count], 0, sizeof(ux_flow_state_t));
        G_ux.stack_count++;
    }
    return G_ux.stack_count - 1;
}
static bool special(const ux_flow_step_t *s) {
    return s == FLOW_END_STEP || s == FLOW_BARRIER || s == FLOW_START || s == FLOW_LOOP;
}
static void init_step(unsigned int slot) {
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    if (!f->steps || f->index >= f->length || special(f->steps[f->index])) {
        emit('u', "flow index out of the flow", 26);
        return;
    }
    if (++E->ux_depth > 64) {
        emit('u', "runaway screen recursion", 24);
        flush_events();
        _exit(78);
    }
    f->steps[f->index]->init(slot);
    E->ux_depth--;
}
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start) {
    if (slot >= UX_STACK_SLOT_COUNT) return;
    ux_flow_state_t *f = &G_ux.flow_stack[slot];
    f->index = f->prev_index = f->length = 0;
    f->steps = NULL;
    if (!steps) return;
    f->steps = steps;
    while (steps[f->length] != FLOW_END_STEP) {
        if (start && steps[f->length] == start) f->index = f->length;
        f->length++;
        if (f->length > 64) { emit('u', "unterminated flow", 17); flush_events(); _exit(78); }
    }
    f->prev_index = f->index;
    init_step(slot);
}
void ux_flow_next(void) {
    if (!G_ux.stack_count) return;
    ux_flow_state_t *f = &G_ux.flow_stack[G_ux.stack_count - 1];
    if (!f->steps || f->length == 0 || f->index + 1 >= f->length) return;
    if (f->steps[f->index + 1] == FLOW_BARRIER) return;
    if (f->steps[f->index + 1] == FLOW_LOOP) {
        f->prev_index = f->index = 0;   /* counts as forward */
        init_step(G_ux.stack_count - 1);
        return;
    }
    f->prev_index = f->index;
    f->index++;
    init_step(G_ux.stack_count - 1);
}
void ux_flow_prev(void) {
    if (!G_ux.stack_count) return;
    ux_flow_state_t *f = &G_ux.flow_stack[G_ux.stack_count - 1];
    if (!f->steps || f->length == 0) return;
    if (f->index == 0) {
        if (f->length >= 2 && f->steps[f->length - 1] == FLOW_LOOP) {
            f->prev_index = f->length - 1;
            f->index = f->length - 2;
            init_step(G_ux.stack_count - 1);
        }
        return;
    }
    if (f->steps[f->index - 1] == FLOW_BARRIER) return;
    f->prev_index = f->index;
    f->index--;
    init_step(G_ux.stack_count - 1);
}
void ux_flow_relayout(void) {
    if (!G_ux.stack_count) return;
    init_step(G_ux.stack_count - 1);
}
void ux_flow_validate(void) {
    if (!G_ux.stack_count) return;
    ux_flow_state_t *f = &G_ux.flow_stack[G_ux.stack_count - 1];
    if (!f->steps || f->index >= f->length || special(f->steps[f->index])) return;
    const ux_flow_step_t *const *v = f->steps[f->index]->validate_flow;
    if (v) ux_flow_init(G_ux.stack_count - 1, v, NULL);
}

/* ---------------- APDU I/O ---------------- */
bool apdu_parser(command_t *cmd, uint8_t *buf, size_t buf_len) {
    if (buf_len < OFFSET_CDATA || buf_len - OFFSET_CDATA != buf[OFFSET_LC]) return false;
    cmd->cla = buf[OFFSET_CLA];
    cmd->ins = buf[OFFSET_INS];
    cmd->p1 = buf[OFFSET_P1];
    cmd->p2 = buf[OFFSET_P2];
    cmd->lc = buf[OFFSET_LC];
    cmd->data = buf[OFFSET_LC] > 0 ? buf + OFFSET_CDATA : NULL;
    return true;
}
void io_init(void) { E->io_state = 0; }

int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw) {
    size_t length = 0;
    for (size_t i = 0; i < count && rdatalist; i++) {
        const buffer_t *r = &rdatalist[i];
        if (r->offset > r->size) { emit('u', "response buffer offset beyond size", 34); return -1; }
        if (!buffer_copy(r, G_io_apdu_buffer + length, sizeof(G_io_apdu_buffer) - length - 2))
            return io_send_sw(0xB001);
        length += r->size - r->offset;
    }
#ifdef EMU_MSAN
    __msan_check_mem_is_initialized(G_io_apdu_buffer, (ssize_t) length);
    __msan_check_mem_is_initialized(&sw, sizeof sw);
#endif
    G_io_apdu_buffer[length] = (uint8_t) (sw >> 8);
    G_io_apdu_buffer[length + 1] = (uint8_t) sw;
    length += 2;
    uint8_t rec[1 + IO_APDU_BUFFER_SIZE + 2];
    rec[0] = (uint8_t) E->io_state;
    memcpy(rec + 1, G_io_apdu_buffer, length);
    emit('r', rec, 1 + length);
    switch (E->io_state) {
        case 1: E->io_state = 0; return 0;
        case 2: E->io_state = 0; return 0;
        default: return -1;
    }
}

#ifdef EMU_RESIDUE
extern char __data_start, _end;
static uint8_t *g_stack;
#define STACK_SIZE (96 * 1024)
static void scan(uint8_t where, const uint8_t *lo, const uint8_t *hi) {
    static const uint8_t pad[1];
    (void) pad;
    for (const uint8_t *p = lo; p + 8 <= hi; p++) {
        uint32_t k = p[0] | (p[1] << 8);
        if (!(E->bitmap[k >> 3] & (1 << (k & 7)))) continue;
        for (size_t i = 0; i < E->nsecrets; i++) {
            const secret_t *s = &E->secrets[i];
            if (where == 2 && E->told[i]) continue;
            bool found = false;
            for (size_t o = 0; o + 8 <= s->len && !found; o += 8)
                found = !(s->known >> o / 8 & 1) && p[0] == s->b[o] && p[1] == s->b[o + 1] && memcmp(p, s->b + o, 8) == 0 && !plain_piece(p);
            if (found) {
                uint32_t o = (uint32_t) (where ? p - lo : hi - p);
                uint8_t rec[7] = {where, s->kind, (uint8_t) i, (uint8_t) o, (uint8_t) (o >> 8), (uint8_t) (o >> 16), (uint8_t) (o >> 24)};
                emit('m', rec, 7);
                if (where == 2) E->told[i] = 1;
            }
        }
    }
}
/* Entered by the trampolines below, on a stack of its own, whenever the application calls a platform service:
   everything below the caller's frame is abandoned memory. */
void *tr_stack_top __attribute__((used));
void *tr_sp __attribute__((used));
uint64_t tr_regs[8] __attribute__((used));
__attribute__((used)) void tr_scan(void) {
    const uint8_t *sp = tr_sp;
    if (E->nsecrets == 0 || sp < g_stack || sp > g_stack + STACK_SIZE) return;
    const uint8_t *lo = sp - g_stack > 16384 ? sp - 16384 : g_stack;
    scan(2, lo, sp);
}
/* Called at the end of every routine of the application (variant residue): its own frame is about to be abandoned. */
void *tr_bp __attribute__((used));
__attribute__((used)) void tr_exit(void) {
    const uint8_t *sp = tr_sp, *bp = tr_bp;
    if (E->nsecrets == 0 || sp < g_stack || bp > g_stack + STACK_SIZE || bp < sp) return;
    scan(2, sp, bp);
}
__asm__(".text\n.globl __cyg_profile_func_enter\n__cyg_profile_func_enter:\n ret\n"
    ".globl __cyg_profile_func_exit\n__cyg_profile_func_exit:\n mov %rsp,tr_sp(%rip)\n mov %rbp,tr_bp(%rip)\n mov %rax,tr_regs(%rip)\n mov %rdx,8+tr_regs(%rip)\n"
    " mov tr_stack_top(%rip),%rsp\n call tr_exit\n mov tr_regs(%rip),%rax\n mov 8+tr_regs(%rip),%rdx\n mov tr_sp(%rip),%rsp\n ret\n");
#define TRAMPOLINE(f) __asm__(".text\n.globl __wrap_" #f "\n.type __wrap_" #f ",@function\n__wrap_" #f ":\n" \
    " mov %rsp,tr_sp(%rip)\n mov %rdi,tr_regs(%rip)\n mov %rsi,8+tr_regs(%rip)\n mov %rdx,16+tr_regs(%rip)\n mov %rcx,24+tr_regs(%rip)\n" \
    " mov %r8,32+tr_regs(%rip)\n mov %r9,40+tr_regs(%rip)\n mov %rax,48+tr_regs(%rip)\n mov tr_stack_top(%rip),%rsp\n call tr_scan\n" \
    " mov tr_regs(%rip),%rdi\n mov 8+tr_regs(%rip),%rsi\n mov 16+tr_regs(%rip),%rdx\n mov 24+tr_regs(%rip),%rcx\n" \
    " mov 32+tr_regs(%rip),%r8\n mov 40+tr_regs(%rip),%r9\n mov 48+tr_regs(%rip),%rax\n mov tr_sp(%rip),%rsp\n jmp __real_" #f "\n");
#include "wrapped.h"
static void scan_all(void) {
    scan(0, g_stack, g_stack + STACK_SIZE);
    scan(1, (const uint8_t *) &__data_start, (const uint8_t *) &_end);
}
#endif

static void arm_watchdog(void) {
    /* CPU time, so that a loaded machine cannot make it fire */
    struct itimerval t = {{0, 0}, {10, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
}

int io_recv_command(void) {
    static uint8_t payload[65536];
#ifdef EMU_RESIDUE
    scan_all();
#endif
    if (E->io_state == 2) { emit('u', "io_recv_command while waiting", 29); return -1; }
    for (;;) {
        uint8_t st[6];
        E->ux_depth = 0;
        st[0] = (uint8_t) E->fallible; st[1] = (uint8_t) (E->fallible >> 8);
        st[2] = (uint8_t) (E->fallible >> 16); st[3] = (uint8_t) (E->fallible >> 24);
        st[4] = (uint8_t) E->io_state;
        st[5] = 0;
        emit('W', st, 6);
        flush_events();
        memset(E->told, 0, sizeof E->told);
        uint8_t hd[3];
        if (!read_exact(hd, 3)) _exit(0);
        size_t len = hd[1] | (hd[2] << 8);
        if (len && !read_exact(payload, len)) _exit(0);
        arm_watchdog();
        if (E->fault_at && E->fault_count == UNTIL_NEXT && E->fallible >= E->fault_at && hd[0] != 'F') E->fault_at = 0;
#ifdef EMU_MSAN
        __msan_unpoison(hd, sizeof hd);
        __msan_unpoison(payload, len);
#endif
        switch (hd[0]) {
            case 'A':
                if (len > sizeof(G_io_apdu_buffer)) len = sizeof(G_io_apdu_buffer);
                memcpy(G_io_apdu_buffer, payload, len);
                memset(payload, 0, len);
#ifdef EMU_MSAN
                __msan_poison(G_io_apdu_buffer + len, sizeof(G_io_apdu_buffer) - len);
#endif
                E->io_state = 1;
                return (int) len;
            case 'L': ux_flow_prev(); break;
            case 'R': ux_flow_next(); break;
            case 'B': ux_flow_validate(); break;
            case 'G':
                if (len > sizeof E->rngq) len = sizeof E->rngq;
                memcpy(E->rngq, payload, len);
                memset(payload, 0, len);
                E->rngq_len = len; E->rngq_pos = 0;
                break;
            case 'F':
                E->fault_at = 0;
                E->fault_wild = len == 9 && payload[8];
                E->fault_count = len >= 8 ? payload[4] | payload[5] << 8 | payload[6] << 16 | (uint32_t) payload[7] << 24 : 1;
                if (len == 4 || len == 8 || len == 9) {
                    uint32_t n = payload[0] | payload[1] << 8 | payload[2] << 16 | (uint32_t) payload[3] << 24;
                    if (n) E->fault_at = E->fallible + n;
                }
                break;
            case 'Q': _exit(0);
            default: _exit(72);
        }
#ifdef EMU_RESIDUE
        scan_all();
#endif
    }
}

#ifdef EMU_RESIDUE
static ucontext_t g_main_uc, g_app_uc;
static void app_entry(void) {
    app_main();
    emit('o', NULL, 0);
    flush_events();
    _exit(0);
}
#endif

int main(void) {
    E = mmap(NULL, sizeof *E, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (E == MAP_FAILED) return 73;
    for (;;) {
        uint8_t hd[3], pl[64];
        if (!read_exact(hd, 3)) return 0;
        size_t len = hd[1] | (hd[2] << 8);
        if (len > sizeof pl) {
            uint8_t c;
            while (len--) if (!read_exact(&c, 1)) return 0;
            continue;
        }
        if (len && !read_exact(pl, len)) return 0;
#ifdef EMU_MSAN
        __msan_unpoison(hd, sizeof hd);
        __msan_unpoison(pl, sizeof pl);
#endif
        if (hd[0] == 'Z') return 0;
        if (hd[0] != 'T') continue; /* commands sent to a boot that is already over */
        memset(E, 0, sizeof *E);
        uint64_t seed = 0;
        for (int i = 7; i >= 0; i--) seed = (seed << 8) | (i < (int) len ? pl[i] : 0);
        E->seed = seed;
        rnd_seed(seed);
        pid_t pid = fork();
        if (pid < 0) return 74;
        if (pid == 0) {
            arm_watchdog();
#ifdef EMU_RESIDUE
            k_stack_top = (char *) mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + STACK_SIZE;
            tr_stack_top = (char *) mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + STACK_SIZE;
            g_stack = mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            getcontext(&g_app_uc);
            g_app_uc.uc_stack.ss_sp = g_stack;
            g_app_uc.uc_stack.ss_size = STACK_SIZE;
            g_app_uc.uc_link = &g_main_uc;
            makecontext(&g_app_uc, app_entry, 0);
            swapcontext(&g_main_uc, &g_app_uc);
            _exit(0);
#else
            app_main();
            emit('o', NULL, 0);
            flush_events();
            _exit(0);
#endif
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
#ifdef EMU_MSAN
        __msan_unpoison(&st, sizeof st);
#endif
        flush_events();
        uint32_t s = (uint32_t) st;
        emit('X', &s, 4);
        flush_events();
    }
}
/* members.h */
void emu_overrun(const char *file, int line, size_t room, size_t n) {
    fprintf(stderr, "%s:%d: runtime error: %zu bytes for a member of %zu\n", file, line, n, room);
    abort();
}

#ifdef DEBUG_BUILD
#include <stdarg.h>
/* the SDK's debug output: understands %.*H (bytes), %s, and numbers */
void emu_printf(const char *fmt, ...) {
    static volatile unsigned sink;
    va_list a;
    va_start(a, fmt);
    for (const char *p = fmt; *p; p++) {
        if (*p != '%') continue;
        int n = -1, l = 0;
        for (p++; *p && strchr("0123456789.*-+ l", *p); p++) {
            if (*p == '*') n = va_arg(a, int);
            if (*p == 'l') l++;
        }
        if (*p == 'H' || *p == 'h') {
            const uint8_t *b = va_arg(a, const uint8_t *);
            for (int i = 0; i < n; i++) sink += b[i];
        } else if (*p == 's') {
            const char *b = va_arg(a, const char *);
            for (int i = 0; n < 0 ? b[i] : i < n; i++) sink += (unsigned) b[i];
        } else if (*p == '%') {
        } else if (!*p) break;
        else if (l > 1) sink += (unsigned) va_arg(a, long long);
        else if (l) sink += (unsigned) va_arg(a, long);
        else sink += (unsigned) va_arg(a, int);
    }
    va_end(a);
}
#endif

/* Small independent crypto primitives for the SDK emulator. */
#include "crypto_prims.h"
#include <string.h>
typedef uint64_t u64;

/* ---------------- SHA-256 / HMAC ---------------- */
static const uint32_t K256[64] = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
    0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
    0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
    0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
    0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
typedef struct { uint32_t h[8]; uint64_t total; uint8_t buf[64]; size_t n; } sha_t;
static void sha_block(sha_t *s, const uint8_t *p) {
    uint32_t w[64], a[8];
    for (int i = 0; i < 16; i++)
        w[i] = ((uint32_t) p[4 * i] << 24) | ((uint32_t) p[4 * i + 1] << 16) | ((uint32_t) p[4 * i + 2] << 8) | p[4 * i + 3];
    for (int i = 16; i < 64; i++) {
        uint32_t s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3);
        uint32_t s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    memcpy(a, s->h, sizeof a);
    for (int i = 0; i < 64; i++) {
        uint32_t S1 = ror(a[4], 6) ^ ror(a[4], 11) ^ ror(a[4], 25);
        uint32_t ch = (a[4] & a[5]) ^ (~a[4] & a[6]);
        uint32_t t1 = a[7] + S1 + ch + K256[i] + w[i];
        uint32_t S0 = ror(a[0], 2) ^ ror(a[0], 13) ^ ror(a[0], 22);
        uint32_t mj = (a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]);
        uint32_t t2 = S0 + mj;
        a[7] = a[6]; a[6] = a[5]; a[5] = a[4]; a[4] = a[3] + t1;
        a[3] = a[2]; a[2] = a[1]; a[1] = a[0]; a[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) s->h[i] += a[i];
}
static void sha_init(sha_t *s) {
    static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    memset(s, 0, sizeof *s);
    memcpy(s->h, iv, sizeof iv);
}
static void sha_upd(sha_t *s, const uint8_t *p, size_t n) {
    s->total += n;
    while (n--) {
        s->buf[s->n++] = *p++;
        if (s->n == 64) { sha_block(s, s->buf); s->n = 0; }
    }
}
static void sha_fin(sha_t *s, uint8_t out[32]) {
    uint64_t bits = s->total * 8;
    uint8_t b = 0x80;
    sha_upd(s, &b, 1);
    b = 0;
    while (s->n != 56) sha_upd(s, &b, 1);
    uint8_t l[8];
    for (int i = 0; i < 8; i++) l[i] = (uint8_t) (bits >> (56 - 8 * i));
    sha_upd(s, l, 8);
    for (int i = 0; i < 32; i++) out[i] = (uint8_t) (s->h[i / 4] >> (24 - 8 * (i % 4)));
    memset(s, 0, sizeof *s);
}
void prim_sha256(const uint8_t *in, size_t len, uint8_t out[32]) {
    sha_t s;
    sha_init(&s);
    sha_upd(&s, in, len);
    sha_fin(&s, out);
}
void prim_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]) {
    uint8_t k[64] = {0}, x[64], ih[32];
    if (klen > 64) prim_sha256(key, klen, k); else if (klen) memcpy(k, key, klen);
    sha_t s;
    for (int i = 0; i < 64; i++) x[i] = k[i] ^ 0x36;
    sha_init(&s); sha_upd(&s, x, 64); sha_upd(&s, in, len); sha_fin(&s, ih);
    for (int i = 0; i < 64; i++) x[i] = k[i] ^ 0x5c;
    sha_init(&s); sha_upd(&s, x, 64); sha_upd(&s, ih, 32); sha_fin(&s, out);
}

/* ---------------- BLAKE2b compression ---------------- */
const uint64_t prim_blake2b_iv[8] = {
    0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL,
    0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
static const uint8_t SIG[12][16] = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0},
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}};
static u64 ror64(u64 x, int n) { return (x >> n) | (x << (64 - n)); }
void prim_blake2b_compress(uint64_t h[8], const uint8_t block[128], const uint64_t t[2], uint64_t f) {
    u64 m[16], v[16];
    for (int i = 0; i < 16; i++) {
        m[i] = 0;
        for (int j = 7; j >= 0; j--) m[i] = (m[i] << 8) | block[8 * i + j];
    }
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = prim_blake2b_iv[i]; }
    v[12] ^= t[0]; v[13] ^= t[1]; v[14] ^= f;
#define G(a,b,c,d,x,y) do { a = a + b + x; d = ror64(d ^ a, 32); c = c + d; b = ror64(b ^ c, 24); \
        a = a + b + y; d = ror64(d ^ a, 16); c = c + d; b = ror64(b ^ c, 63); } while (0)
    for (int r = 0; r < 12; r++) {
        const uint8_t *s = SIG[r];
        G(v[0], v[4], v[8], v[12], m[s[0]], m[s[1]]);   G(v[1], v[5], v[9], v[13], m[s[2]], m[s[3]]);
        G(v[2], v[6], v[10], v[14], m[s[4]], m[s[5]]);  G(v[3], v[7], v[11], v[15], m[s[6]], m[s[7]]);
        G(v[0], v[5], v[10], v[15], m[s[8]], m[s[9]]);  G(v[1], v[6], v[11], v[12], m[s[10]], m[s[11]]);
        G(v[2], v[7], v[8], v[13], m[s[12]], m[s[13]]); G(v[3], v[4], v[9], v[14], m[s[14]], m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
}

/* ---------------- 256-bit arithmetic (little-endian limbs) ---------------- */
typedef struct { u64 v[4]; } n256;
static void load(n256 *r, const uint8_t b[32]) {
    for (int i = 0; i < 4; i++) {
        r->v[3 - i] = 0;
        for (int j = 0; j < 8; j++) r->v[3 - i] = (r->v[3 - i] << 8) | b[8 * i + j];
    }
}
static void store(uint8_t b[32], const n256 *a) {
    for (int i = 0; i < 32; i++) b[i] = (uint8_t) (a->v[3 - i / 8] >> (56 - 8 * (i % 8)));
}
static int cmp(const n256 *a, const n256 *b) {
    for (int i = 3; i >= 0; i--) if (a->v[i] != b->v[i]) return a->v[i] > b->v[i] ? 1 : -1;
    return 0;
}
/* a * b + x + *c, the high half left in *c */
static u64 muladd(u64 a, u64 b, u64 x, u64 *c) {
#ifdef __SIZEOF_INT128__
    unsigned __int128 t = (unsigned __int128) a * b + x + *c;
    *c = (u64) (t >> 64);
    return (u64) t;
#else
    u64 al = (uint32_t) a, ah = a >> 32, bl = (uint32_t) b, bh = b >> 32;
    u64 ll = al * bl, lh = al * bh, hl = ah * bl, hh = ah * bh;
    u64 mid = (ll >> 32) + (uint32_t) lh + (uint32_t) hl;
    u64 lo = (mid << 32) | (uint32_t) ll, hi = hh + (lh >> 32) + (hl >> 32) + (mid >> 32);
    lo += x; hi += lo < x;
    lo += *c; hi += lo < *c;
    *c = hi;
    return lo;
#endif
}
static u64 add(n256 *r, const n256 *a, const n256 *b) {
    u64 c = 0;
    for (int i = 0; i < 4; i++) r->v[i] = muladd(1, a->v[i], b->v[i], &c);
    return c;
}
static u64 sub(n256 *r, const n256 *a, const n256 *b) {
    u64 bo = 0;
    for (int i = 0; i < 4; i++) {
        u64 x = a->v[i], y = b->v[i];
        r->v[i] = x - y - bo;
        bo = x < y || (x == y && bo);
    }
    return bo;
}
static void wide_mul(u64 r[8], const n256 *a, const n256 *b) {
    memset(r, 0, 64);
    for (int i = 0; i < 4; i++) {
        u64 c = 0;
        for (int j = 0; j < 4; j++) r[i + j] = muladd(a->v[i], b->v[j], r[i + j], &c);
        r[i + 4] = c;
    }
}
static void mod_wide(n256 *r, const u64 w[8], const n256 *m) { /* bitwise, generic */
    n256 acc = {{0}};
    for (int i = 511; i >= 0; i--) {
        u64 top = acc.v[3] >> 63;
        for (int k = 3; k > 0; k--) acc.v[k] = (acc.v[k] << 1) | (acc.v[k - 1] >> 63);
        acc.v[0] = (acc.v[0] << 1) | ((w[i / 64] >> (i % 64)) & 1);
        if (top || cmp(&acc, m) >= 0) sub(&acc, &acc, m);
    }
    *r = acc;
}
void prim_mulmod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    n256 x, y, mm, o; u64 w[8];
    load(&x, a); load(&y, b); load(&mm, m);
    wide_mul(w, &x, &y);
    mod_wide(&o, w, &mm);
    store(r, &o);
}
static void reduce(n256 *x, const n256 *m) {
    u64 w[8] = {x->v[0], x->v[1], x->v[2], x->v[3], 0, 0, 0, 0};
    mod_wide(x, w, m);
}
void prim_addmod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    n256 x, y, mm, o;
    load(&x, a); load(&y, b); load(&mm, m);
    reduce(&x, &mm); reduce(&y, &mm);
    if (add(&o, &x, &y) || cmp(&o, &mm) >= 0) sub(&o, &o, &mm);
    store(r, &o);
}
void prim_submod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]) {
    n256 x, y, mm, o;
    load(&x, a); load(&y, b); load(&mm, m);
    reduce(&x, &mm); reduce(&y, &mm);
    if (sub(&o, &x, &y)) add(&o, &o, &mm);
    store(r, &o);
}

/* ---------------- secp256k1 ---------------- */
const uint8_t prim_secp_n[32] = {
    0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,
    0xba,0xae,0xdc,0xe6,0xaf,0x48,0xa0,0x3b,0xbf,0xd2,0x5e,0x8c,0xd0,0x36,0x41,0x41};
const uint8_t prim_secp_g[65] = {0x04,
    0x79,0xbe,0x66,0x7e,0xf9,0xdc,0xbb,0xac,0x55,0xa0,0x62,0x95,0xce,0x87,0x0b,0x07,
    0x02,0x9b,0xfc,0xdb,0x2d,0xce,0x28,0xd9,0x59,0xf2,0x81,0x5b,0x16,0xf8,0x17,0x98,
    0x48,0x3a,0xda,0x77,0x26,0xa3,0xc4,0x65,0x5d,0xa4,0xfb,0xfc,0x0e,0x11,0x08,0xa8,
    0xfd,0x17,0xb4,0x48,0xa6,0x85,0x54,0x19,0x9c,0x47,0xd0,0x8f,0xfb,0x10,0xd4,0xb8};
static const n256 P = {{0xFFFFFFFEFFFFFC2FULL, ~0ULL, ~0ULL, ~0ULL}};
#define C977 0x1000003D1ULL
static void fadd(n256 *r, const n256 *a, const n256 *b) {
    if (add(r, a, b) || cmp(r, &P) >= 0) sub(r, r, &P);
}
static void fsub(n256 *r, const n256 *a, const n256 *b) { if (sub(r, a, b)) add(r, r, &P); }
static void fmul(n256 *r, const n256 *a, const n256 *b) {
    u64 w[8];
    wide_mul(w, a, b);
    u64 c = 0, t[5];
    for (int i = 0; i < 4; i++) t[i] = muladd(w[4 + i], C977, w[i], &c);
    t[4] = c;
    c = 0;
    n256 o;
    o.v[0] = muladd(t[4], C977, t[0], &c);
    for (int i = 1; i < 4; i++) o.v[i] = muladd(1, t[i], 0, &c);
    if (c) { n256 k = {{C977, 0, 0, 0}}; add(&o, &o, &k); }
    if (cmp(&o, &P) >= 0) sub(&o, &o, &P);
    *r = o;
}
static void finv(n256 *r, const n256 *a) {
    n256 e = P, res = {{1, 0, 0, 0}}, b = *a;
    e.v[0] -= 2;
    for (int i = 0; i < 256; i++) {
        if ((e.v[i / 64] >> (i % 64)) & 1) fmul(&res, &res, &b);
        fmul(&b, &b, &b);
    }
    *r = res;
}
typedef struct { n256 x, y, z; bool inf; } jac;
static bool fzero(const n256 *a) { return !(a->v[0] | a->v[1] | a->v[2] | a->v[3]); }
static void jdbl(jac *r, const jac *p) {
    if (p->inf || fzero(&p->y)) { r->inf = true; return; }
    n256 a, b, c, d, e, f, t;
    fmul(&a, &p->x, &p->x); fmul(&b, &p->y, &p->y); fmul(&c, &b, &b);
    fadd(&t, &p->x, &b); fmul(&t, &t, &t); fsub(&t, &t, &a); fsub(&t, &t, &c); fadd(&d, &t, &t);
    fadd(&e, &a, &a); fadd(&e, &e, &a);
    fmul(&f, &e, &e);
    n256 x3, y3, z3;
    fadd(&t, &d, &d); fsub(&x3, &f, &t);
    fmul(&z3, &p->y, &p->z); fadd(&z3, &z3, &z3);
    fsub(&t, &d, &x3); fmul(&y3, &e, &t);
    fadd(&c, &c, &c); fadd(&c, &c, &c); fadd(&c, &c, &c); fsub(&y3, &y3, &c);
    r->x = x3; r->y = y3; r->z = z3; r->inf = false;
}
static void jadd(jac *r, const jac *p, const jac *q) {
    if (p->inf) { *r = *q; return; }
    if (q->inf) { *r = *p; return; }
    n256 z1, z2, u1, u2, s1, s2, h, rr, t;
    fmul(&z1, &p->z, &p->z); fmul(&z2, &q->z, &q->z);
    fmul(&u1, &p->x, &z2); fmul(&u2, &q->x, &z1);
    fmul(&s1, &p->y, &q->z); fmul(&s1, &s1, &z2);
    fmul(&s2, &q->y, &p->z); fmul(&s2, &s2, &z1);
    fsub(&h, &u2, &u1); fsub(&rr, &s2, &s1);
    if (fzero(&h)) { if (fzero(&rr)) jdbl(r, p); else r->inf = true; return; }
    n256 h2, h3, v, x3, y3, z3;
    fmul(&h2, &h, &h); fmul(&h3, &h2, &h); fmul(&v, &u1, &h2);
    fmul(&x3, &rr, &rr); fsub(&x3, &x3, &h3); fsub(&x3, &x3, &v); fsub(&x3, &x3, &v);
    fsub(&t, &v, &x3); fmul(&y3, &rr, &t); fmul(&t, &s1, &h3); fsub(&y3, &y3, &t);
    fmul(&z3, &p->z, &q->z); fmul(&z3, &z3, &h);
    r->x = x3; r->y = y3; r->z = z3; r->inf = false;
}
bool prim_ec_mul(uint8_t B[65], const uint8_t *k, size_t klen) {
    jac p, tab[16], r;
    if (B[0] != 0x04) return false;
    load(&p.x, B + 1); load(&p.y, B + 33);
    p.z = (n256){{1, 0, 0, 0}}; p.inf = false;
    if (cmp(&p.x, &P) >= 0 || cmp(&p.y, &P) >= 0) return false;
    n256 l, q, seven = {{7, 0, 0, 0}};
    fmul(&l, &p.y, &p.y); fmul(&q, &p.x, &p.x); fmul(&q, &q, &p.x); fadd(&q, &q, &seven);
    if (cmp(&l, &q) != 0) return false;
    memset(&r, 0, sizeof r); r.inf = true;
    tab[0] = r; tab[1] = p;
    for (int i = 2; i < 16; i++) jadd(&tab[i], &tab[i - 1], &p);
    for (size_t i = 0; i < klen; i++) {
        for (int half = 0; half < 2; half++) {
            for (int d = 0; d < 4; d++) jdbl(&r, &r);
            int nib = half ? (k[i] & 15) : (k[i] >> 4);
            if (nib) jadd(&r, &r, &tab[nib]);
        }
    }
    if (r.inf) return false;
    n256 zi, z2, z3;
    finv(&zi, &r.z); fmul(&z2, &zi, &zi); fmul(&z3, &z2, &zi);
    fmul(&r.x, &r.x, &z2); fmul(&r.y, &r.y, &z3);
    store(B + 1, &r.x); store(B + 33, &r.y);
    return true;
}

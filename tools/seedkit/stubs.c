#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cx.h>
#include <os.h>
#include "crypto_prims.h"
cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *c, size_t bits) {
    memset(c, 0, sizeof *c);
    c->header.md_type = CX_BLAKE2B;
    c->header.output_size = bits / 8;
    for (int i = 0; i < 8; i++) c->h[i] = prim_blake2b_iv[i];
    c->h[0] ^= 0x01010000 ^ (bits / 8);
    return CX_OK;
}
static void upd(cx_blake2b_t *c, const uint8_t *in, size_t len) {
    while (len) {
        if (c->blen == 128) {
            c->t[0] += 128;
            prim_blake2b_compress(c->h, c->buf, c->t, 0);
            c->blen = 0;
        }
        size_t k = 128 - c->blen;
        if (k > len) k = len;
        memcpy(c->buf + c->blen, in, k);
        c->blen += k; in += k; len -= k;
    }
}
static void fin(cx_blake2b_t *c, uint8_t *out) {
    memset(c->buf + c->blen, 0, 128 - c->blen);
    c->t[0] += c->blen;
    prim_blake2b_compress(c->h, c->buf, c->t, ~0ull);
    memcpy(out, c->h, c->header.output_size);
}
cx_err_t cx_hash_no_throw(cx_hash_t *h, uint32_t mode, const uint8_t *in, size_t len, uint8_t *out, size_t out_len) {
    if (len) {
        upd((cx_blake2b_t *) h, in, len);
    }
    if (mode & CX_LAST) {
        if (out_len < h->output_size) return CX_INVALID_PARAMETER;
        uint8_t d[64];
        fin((cx_blake2b_t *) h, d);
        for (size_t i = 0; i < h->output_size; i++) out[i] = d[i];
    }
    return CX_OK;
}
void ref_blake2b256(const uint8_t *in, size_t n, uint8_t out[32]) {
    cx_blake2b_t c;
    memset(&c, 0, sizeof c);
    c.header.output_size = 32;
    for (int i = 0; i < 8; i++) c.h[i] = prim_blake2b_iv[i];
    c.h[0] ^= 0x01010000 ^ 32;
    upd(&c, in, n);
    fin(&c, out);
}
cx_err_t cx_blake2b_256_hash(const uint8_t *in, size_t n, uint8_t *out) {
    uint8_t d[32];
    ref_blake2b256(in, n, d);
    for (int i = 0; i < 32; i++) out[i] = d[i];
    return CX_OK;
}
void emu_ledger_assert_failed(const char *file, int line) { printf("gave up at %s:%d\n", file, line); exit(1); }

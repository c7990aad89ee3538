#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
void prim_sha256(const uint8_t *in, size_t len, uint8_t out[32]);
void prim_hmac_sha256(const uint8_t *key, size_t klen, const uint8_t *in, size_t len, uint8_t out[32]);
void prim_blake2b_compress(uint64_t h[8], const uint8_t block[128], const uint64_t t[2], uint64_t f);
extern const uint64_t prim_blake2b_iv[8];
/* 256-bit modular arithmetic, big-endian bytes */
void prim_mulmod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
void prim_addmod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
void prim_submod(uint8_t r[32], const uint8_t a[32], const uint8_t b[32], const uint8_t m[32]);
/* k*P on secp256k1; P and result are 65 byte uncompressed. false: bad point or infinity */
bool prim_ec_mul(uint8_t P[65], const uint8_t *k, size_t klen);
extern const uint8_t prim_secp_n[32];
extern const uint8_t prim_secp_g[65];

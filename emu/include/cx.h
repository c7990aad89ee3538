#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

typedef uint32_t cx_err_t;
#define CX_OK                 0x00000000u
#define CX_INTERNAL_ERROR     0xFFFFFF85u
#define CX_CARRY              0xFFFFFF21u
#define CX_INVALID_PARAMETER  0xFFFFFF87u
#define CX_EC_INFINITE_POINT  0xFFFFFF41u
#define CX_EC_INVALID_POINT   0xFFFFFFA2u

#define WARN_UNUSED_RESULT

typedef enum cx_md_e { CX_NONE = 0, CX_SHA256 = 3, CX_SHA512 = 5, CX_BLAKE2B = 9 } cx_md_t;
typedef enum { CX_CURVE_NONE = 0, CX_CURVE_SECP256K1 = 0x21 } cx_curve_t;
#define CX_CURVE_256K1 CX_CURVE_SECP256K1

#define CX_LAST       (1 << 0)
#define CX_NO_REINIT  (1 << 15)
#define CX_SHA256_SIZE      32
#define CX_BLAKE2B_256_SIZE 32

/* As in the SDK, the hash state is stored inside the context itself. */
typedef struct cx_hash_header_s {
    cx_md_t md_type;
    size_t output_size;
    uint32_t magic;
} cx_hash_t;

typedef struct cx_blake2b_s {
    struct cx_hash_header_s header;
    uint64_t h[8];
    uint64_t t[2];
    uint64_t f;
    size_t blen;
    uint8_t buf[128];
} cx_blake2b_t;

typedef struct {
    cx_curve_t curve;
    size_t W_len;
    uint8_t W[65];
} cx_ecfp_256_public_key_t;
typedef struct {
    cx_curve_t curve;
    size_t d_len;
    uint8_t d[32];
} cx_ecfp_256_private_key_t;
typedef cx_ecfp_256_public_key_t cx_ecfp_public_key_t;
typedef cx_ecfp_256_private_key_t cx_ecfp_private_key_t;

cx_err_t cx_blake2b_init_no_throw(cx_blake2b_t *hash, size_t out_len_bits);
cx_err_t cx_hash_no_throw(cx_hash_t *hash, uint32_t mode, const uint8_t *in, size_t len,
                          uint8_t *out, size_t out_len);
cx_err_t cx_hash_update(cx_hash_t *hash, const uint8_t *in, size_t len);
cx_err_t cx_hash_final(cx_hash_t *hash, uint8_t *out);
cx_err_t cx_blake2b_256_hash(const uint8_t *data, size_t len, uint8_t *out);
size_t cx_hmac_sha256(const uint8_t *key, size_t key_len, const uint8_t *in, size_t len,
                      uint8_t *mac, size_t mac_len);
size_t cx_hash_sha256(const uint8_t *in, size_t len, uint8_t *out, size_t out_len);
void cx_rng_no_throw(uint8_t *buffer, size_t len);
uint8_t *cx_rng(uint8_t *buffer, size_t len);
#define cx_get_random_bytes(b, l) (cx_rng_no_throw((b), (l)), CX_OK)
uint8_t cx_rng_u8(void);
uint32_t cx_rng_u32(void);
cx_err_t cx_ecfp_init_private_key_no_throw(cx_curve_t curve, const uint8_t *raw, size_t len,
                                           cx_ecfp_256_private_key_t *key);
cx_err_t cx_ecfp_generate_pair_no_throw(cx_curve_t curve, cx_ecfp_256_public_key_t *pub,
                                        cx_ecfp_256_private_key_t *priv, bool keep_private);
cx_err_t cx_ecfp_scalar_mult_no_throw(cx_curve_t curve, uint8_t *P, const uint8_t *k, size_t len);
cx_err_t cx_math_modm_no_throw(uint8_t *v, size_t len_v, const uint8_t *m, size_t len_m);
cx_err_t cx_math_add_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len);
cx_err_t cx_math_sub_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, size_t len);
#ifndef CX_CHECK
#define CX_CHECK(call) do { error = (call); if (error != CX_OK) goto end; } while (0)
#endif
cx_err_t cx_math_cmp_no_throw(const uint8_t *a, const uint8_t *b, size_t len, int *diff);
bool cx_math_is_zero(const uint8_t *a, size_t len);
cx_err_t cx_math_multm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                                size_t len);
cx_err_t cx_math_addm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                               size_t len);
cx_err_t cx_math_subm_no_throw(uint8_t *r, const uint8_t *a, const uint8_t *b, const uint8_t *m,
                               size_t len);
cx_err_t os_derive_bip32_no_throw(cx_curve_t curve, const uint32_t *path, size_t path_len,
                                  uint8_t raw_privkey[static 64], uint8_t *chain_code);

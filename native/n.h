/* Common part of the library monitors: seeded cases, observations, verdict lines. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#ifdef __SIZEOF_INT128__
typedef unsigned __int128 u128;
typedef __int128 i128;
#else
typedef unsigned _BitInt(128) u128;
typedef _BitInt(128) i128;
#endif

/* random numbers of the current case */
uint64_t rnd(void);
uint64_t below(uint64_t n);             /* 0 .. n-1 */
bool chance(unsigned percent);
uint64_t edge64(void);                  /* biased to boundaries */
uint32_t edge32(void);
void fill(uint8_t *p, size_t n);

/* observations: what this case reached. Adds to its signature and to the counter of that name */
void saw(const char *name);
void mix(uint64_t v);                   /* adds to the signature of the case only */
/* the property does not hold: ends the case */
void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define EXPECT(c, key, ...) do { if (!(c)) fail(key, __VA_ARGS__); } while (0)
const char *hex(const void *p, size_t n);

/* memory with nothing behind it: reads and writes outside [p, p+n) are caught */
uint8_t *exact(size_t n);               /* freed at the end of the case */

/* the bytes given to the hash function since log_reset() */
extern uint8_t hlog[1 << 20];
extern size_t hlog_len;
void log_reset(void);
extern long hash_fail_at;               /* n-th hash call from now fails; -1: none */
extern long hash_calls;
void ref_blake2b256(const uint8_t *in, size_t n, uint8_t out[32]);

/* the harness proper */
void one_case(uint64_t index);
extern const char *const FOCUS[];       /* observations without which a run means nothing */

#pragma once
/* Host emulation of the parts of the Ledger SDK the application uses. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifndef PIC
#define PIC(x) (x)
#endif
#ifndef UNUSED
#define UNUSED(x) (void) (x)
#endif
#ifndef PRINTF
#define PRINTF(...) ((void) 0)
#endif
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#endif
#ifndef MAX
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
#ifndef ARRAYLEN
#define ARRAYLEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
#define os_memcpy memcpy
#define os_memmove memmove
#define os_memset memset
#define os_memcmp memcmp
static inline int os_secure_memcmp(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    uint8_t d = 0;
    while (n--) d |= (uint8_t) (*x++ ^ *y++);
    return d;
}
#define U2(hi, lo) ((((hi) & 0xFFu) << 8) | ((lo) & 0xFFu))
#define U4(hi3, hi2, lo1, lo0) ((((uint32_t) (hi3) & 0xFFu) << 24) | (((uint32_t) (hi2) & 0xFFu) << 16) | (((lo1) & 0xFFu) << 8) | ((lo0) & 0xFFu))
#define U2BE(b, o) U2((b)[o], (b)[(o) + 1])
#define U2LE(b, o) U2((b)[(o) + 1], (b)[o])
#define U4BE(b, o) U4((b)[o], (b)[(o) + 1], (b)[(o) + 2], (b)[(o) + 3])
#define U4LE(b, o) U4((b)[(o) + 3], (b)[(o) + 2], (b)[(o) + 1], (b)[o])
#define U2BE_ENCODE(b, o, v) do { (b)[o] = (uint8_t) ((v) >> 8); (b)[(o) + 1] = (uint8_t) (v); } while (0)
#define U4BE_ENCODE(b, o, v) do { (b)[o] = (uint8_t) ((uint32_t) (v) >> 24); (b)[(o) + 1] = (uint8_t) ((uint32_t) (v) >> 16); (b)[(o) + 2] = (uint8_t) ((uint32_t) (v) >> 8); (b)[(o) + 3] = (uint8_t) (v); } while (0)
void os_sched_exit(int code);
#include "cx.h"

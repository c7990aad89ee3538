#pragma once
/* Variants built with -DEMU_MEMBERS: every copy, fill and formatting into a member of an object must fit into that member,
   not just into the object.  The size of the member is what the compiler knows about the pointer expression. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "format.h"
#include "base58.h"
#include "bip32.h"
#include "cx.h"
#include "buffer.h"
void emu_overrun(const char *file, int line, size_t room, size_t n);
static inline size_t emu_fits(const char *file, int line, size_t room, size_t n) {
    if (room != (size_t) -1 && n > room) emu_overrun(file, line, room, n);
    return n;
}
#define EMU_FITS(p, n) emu_fits(__FILE__, __LINE__, __builtin_dynamic_object_size(p, 1), n)
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef explicit_bzero
#undef strncpy
#undef snprintf
#define memcpy(d, s, n) (emu_fits(__FILE__, __LINE__, __builtin_dynamic_object_size(s, 1), n), memcpy(d, s, EMU_FITS(d, n)))
#define memmove(d, s, n) (emu_fits(__FILE__, __LINE__, __builtin_dynamic_object_size(s, 1), n), memmove(d, s, EMU_FITS(d, n)))
#define memset(d, c, n) memset(d, c, EMU_FITS(d, n))
#define memcmp(a, b, n) (EMU_FITS(a, n), memcmp(a, b, EMU_FITS(b, n)))
#define explicit_bzero(d, n) explicit_bzero(d, EMU_FITS(d, n))
#define strncpy(d, s, n) strncpy(d, s, EMU_FITS(d, n))
#define snprintf(d, n, ...) snprintf(d, EMU_FITS(d, n), __VA_ARGS__)
#define format_i64(d, n, v) format_i64(d, EMU_FITS(d, n), v)
#define format_u64(d, n, v) format_u64(d, EMU_FITS(d, n), v)
#define format_fpu64(d, n, v, k) format_fpu64(d, EMU_FITS(d, n), v, k)
#define format_fpu64_trimmed(d, n, v, k) format_fpu64_trimmed(d, EMU_FITS(d, n), v, k)
#define format_hex(i, l, o, n) format_hex(i, EMU_FITS(i, l), o, EMU_FITS(o, n))
#define base58_encode(i, l, o, n) base58_encode(i, EMU_FITS(i, l), o, EMU_FITS(o, n))
#define cx_rng_no_throw(d, n) cx_rng_no_throw(d, EMU_FITS(d, n))
#define cx_rng(d, n) cx_rng(d, EMU_FITS(d, n))

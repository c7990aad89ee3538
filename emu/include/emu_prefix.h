#pragma once
/* Macros the real SDK's build makes visible everywhere. */
#ifndef UNUSED
#define UNUSED(x) (void) (x)
#endif
#ifdef DEBUG_BUILD
void emu_printf(const char *fmt, ...);   /* prints nowhere, reads what it is told to print */
#define PRINTF emu_printf
#endif
#ifndef PRINTF
#define PRINTF(...) ((void) 0)
#endif
#ifndef PIC
#define PIC(x) (x)
#endif
#ifndef WEAK
#define WEAK __attribute__((weak))
#endif
#ifdef EMU_MEMBERS
#include "members.h"
#endif

#pragma once
void emu_ledger_assert_failed(const char *file, int line) __attribute__((noreturn));
#define LEDGER_ASSERT(test, ...)                                          \
    do {                                                                  \
        if (!(test)) emu_ledger_assert_failed(__FILE__, __LINE__);        \
    } while (0)

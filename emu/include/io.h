#pragma once
#include <stdint.h>
#include <stddef.h>
#include "buffer.h"
#ifndef IO_APDU_BUFFER_SIZE
#define IO_APDU_BUFFER_SIZE (5 + 255)
#endif
extern uint8_t G_io_apdu_buffer[IO_APDU_BUFFER_SIZE];
void io_init(void);
int io_recv_command(void);
int io_send_response_buffers(const buffer_t *rdatalist, size_t count, uint16_t sw);
static inline int io_send_response_buffer(const buffer_t *rdata, uint16_t sw) {
    return io_send_response_buffers(rdata, 1, sw);
}
static inline int io_send_response_pointer(const uint8_t *ptr, size_t size, uint16_t sw) {
    return io_send_response_buffers(&(const buffer_t){.ptr = ptr, .size = size, .offset = 0}, 1, sw);
}
static inline int io_send_sw(uint16_t sw) { return io_send_response_buffers(NULL, 0, sw); }

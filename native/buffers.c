/* P24: the bounded read/write buffers against a plain model; sanitizers watch the memory around them. */
#include "n.h"
#include "common/rwbuffer.h"

const char *const FOCUS[] = {"write.ok", "write.full", "read.ok", "read.short", "copy.ok", "copy.short", "seek.r.ok", "seek.r.bad", "seek.w.ok", "seek.w.bad",
                             "shift", "shift.moved", "shift.empty", "empty", "u16.le", "u16.be", "u32.le", "u32.be", "u64.le", "u64.be", "huge", "path.ok", "path.short", "full", NULL};

typedef struct { uint8_t *m; size_t cap, r, w; } model;
static model M;
static rw_buffer_t B;
static uint8_t *mem;

static void same(const char *op) {
    EXPECT(rw_buffer_read_position(&B) == M.r && rw_buffer_write_position(&B) == M.w, "buffer.position", "after %s: positions %zu/%zu, expected %zu/%zu (capacity %zu)", op,
           rw_buffer_read_position(&B), rw_buffer_write_position(&B), M.r, M.w, M.cap);
    EXPECT(rw_buffer_data_len(&B) == M.w - M.r, "buffer.length", "after %s: %zu bytes to read, expected %zu", op, rw_buffer_data_len(&B), M.w - M.r);
    EXPECT(rw_buffer_empty_space_len(&B) == M.cap - M.w, "buffer.space", "after %s: room for %zu, expected %zu", op, rw_buffer_empty_space_len(&B), M.cap - M.w);
    EXPECT(rw_buffer_read_ptr(&B) == mem + M.r && rw_buffer_write_ptr(&B) == mem + M.w, "buffer.pointer", "after %s: pointers", op);
    /* what is to be read, and what lies after it, is exactly what was put there */
    EXPECT(memcmp(mem, M.m, M.cap) == 0, "buffer.content", "after %s: content %s, expected %s (positions %zu/%zu)", op, hex(mem, M.cap), hex(M.m, M.cap), M.r, M.w);
    size_t n = below(M.cap + 3);
    EXPECT(rw_buffer_can_read(&B, n) == (n <= M.w - M.r), "buffer.canread", "after %s: can_read(%zu) with %zu bytes", op, n, M.w - M.r);
    EXPECT(rw_buffer_can_write(&B, n) == (n <= M.cap - M.w), "buffer.canwrite", "after %s: can_write(%zu) with room for %zu", op, n, M.cap - M.w);
}

static size_t amount(void) {        /* how far to seek, how much to move: mostly near what is possible */
    switch (below(8)) {
        case 0: return M.cap;
        case 1: return M.cap + 1;
        case 2: return M.w - M.r;
        case 3: return M.w - M.r + 1;
        case 4: return M.cap - M.w;
        case 5: return M.cap - M.w + 1;
        case 6: if (chance(30)) { saw("huge"); return SIZE_MAX - below(40); } /* fall through */
        default: return below(M.cap + 2);
    }
}

void one_case(uint64_t index) {
    (void) index;
    size_t cap = chance(10) ? below(3) : chance(12) ? 200 + below(400) : 1 + below(40);
    mem = exact(cap);
    uint8_t *shadow = exact(cap);
    fill(mem, cap);
    memcpy(shadow, mem, cap);
    M = (model){shadow, cap, 0, 0};
    if (chance(50)) { M.w = below(cap + 1); if (M.w == cap) saw("full"); }
    rw_buffer_init(&B, mem, cap, M.w);
    same("init");
    int steps = 3 + below(30);
    for (int s = 0; s < steps; s++) {
        unsigned op = below(24);
        mix(op);
        switch (op) {
            case 0: case 1: { uint8_t v = rnd(); bool ok = M.w + 1 <= cap;
                EXPECT(rw_buffer_write_u8(&B, v) == ok, "buffer.write", "write_u8 at %zu of %zu", M.w, cap);
                if (ok) M.m[M.w++] = v;
                saw(ok ? "write.ok" : "write.full"); same("write_u8"); break; }
            case 2: case 3: { uint64_t v = rnd(); size_t n = 2u << below(3); bool be = chance(50), ok = n <= cap - M.w;
                bool r = n == 2 ? rw_buffer_write_u16(&B, v, be ? BE : LE) : n == 4 ? rw_buffer_write_u32(&B, v, be ? BE : LE) : rw_buffer_write_u64(&B, v, be ? BE : LE);
                EXPECT(r == ok, "buffer.write", "write_u%zu at %zu of %zu: %d", 8 * n, M.w, cap, r);
                if (ok) { for (size_t i = 0; i < n; i++) M.m[M.w + i] = v >> 8 * (be ? n - 1 - i : i); M.w += n; }
                saw(ok ? "write.ok" : "write.full");
                if (ok) saw(n == 2 ? be ? "u16.be" : "u16.le" : n == 4 ? be ? "u32.be" : "u32.le" : be ? "u64.be" : "u64.le");
                same("write number"); break; }
            case 4: case 5: { size_t n = amount(); if (n > 100) n = 100; uint8_t *src = exact(n); fill(src, n); bool ok = n <= cap - M.w;
                EXPECT(rw_buffer_write_bytes(&B, src, n) == ok, "buffer.write", "write_bytes %zu at %zu of %zu", n, M.w, cap);
                if (ok) { memcpy(M.m + M.w, src, n); M.w += n; }
                saw(ok ? "write.ok" : "write.full"); same("write_bytes"); break; }
            case 6: { size_t n = cap + below(50); bool huge = chance(20); if (huge) n = SIZE_MAX - below(50);
                if (n <= cap - M.w) break;
                uint8_t c = 0;
                EXPECT(!rw_buffer_write_bytes(&B, &c, n), "buffer.write", "write_bytes %zx accepted with room for %zu", n, cap - M.w);
                saw("write.full"); same("write_bytes too much"); break; }
            case 7: { uint8_t v = 0; bool ok = M.r < M.w;
                EXPECT(rw_buffer_read_u8(&B, &v) == ok, "buffer.read", "read_u8 at %zu/%zu", M.r, M.w);
                if (ok) { EXPECT(v == M.m[M.r], "buffer.value", "read_u8 gave %02x, expected %02x", v, M.m[M.r]); M.r++; }
                saw(ok ? "read.ok" : "read.short"); same("read_u8"); break; }
            case 8: case 9: { size_t n = 2u << below(3); bool be = chance(50), ok = n <= M.w - M.r, r; uint64_t v = 0, want = 0;
                uint16_t a = 0; uint32_t b = 0; uint64_t c = 0;
                if (n == 2) { r = rw_buffer_read_u16(&B, &a, be ? BE : LE); v = a; }
                else if (n == 4) { r = rw_buffer_read_u32(&B, &b, be ? BE : LE); v = b; }
                else { r = rw_buffer_read_u64(&B, &c, be ? BE : LE); v = c; }
                EXPECT(r == ok, "buffer.read", "read_u%zu with %zu bytes: %d", 8 * n, M.w - M.r, r);
                if (ok) {
                    for (size_t i = 0; i < n; i++) want |= (uint64_t) M.m[M.r + i] << 8 * (be ? n - 1 - i : i);
                    EXPECT(v == want, "buffer.value", "read_u%zu gave %llx, expected %llx", 8 * n, (unsigned long long) v, (unsigned long long) want);
                    M.r += n;
                }
                saw(ok ? "read.ok" : "read.short"); same("read number"); break; }
            case 10: case 11: case 12: { size_t n = amount(); bool cp = chance(50), ok = n <= M.w - M.r; if (n > 100 && ok) break;
                size_t room = ok ? n : n > 100 ? 1 : n;
                uint8_t *dst = exact(room);
                memset(dst, 0xEE, room);
                bool r = cp ? rw_buffer_copy_bytes(&B, dst, n) : rw_buffer_read_bytes(&B, dst, n);
                EXPECT(r == ok, "buffer.read", "%s_bytes %zx with %zu bytes: %d", cp ? "copy" : "read", n, M.w - M.r, r);
                if (ok) EXPECT(memcmp(dst, M.m + M.r, n) == 0, "buffer.value", "%s_bytes gave %s, expected %s", cp ? "copy" : "read", hex(dst, n), hex(M.m + M.r, n));
                else for (size_t i = 0; i < room; i++) EXPECT(dst[i] == 0xEE, "buffer.partial", "a refused %s wrote to its destination", cp ? "copy" : "read");
                if (ok && !cp) M.r += n;
                saw(cp ? ok ? "copy.ok" : "copy.short" : ok ? "read.ok" : "read.short"); same(cp ? "copy_bytes" : "read_bytes"); break; }
            case 13: case 14: case 15: { size_t n = amount(); bool ok, r; const char *what;
                unsigned k = below(3);
                if (k == 0) { ok = n <= M.w; r = rw_buffer_seek_read_set(&B, n); if (ok) M.r = n; what = "seek_read_set"; }
                else if (k == 1) { ok = n <= M.w - M.r; r = rw_buffer_seek_read_cur(&B, n); if (ok) M.r += n; what = "seek_read_cur"; }
                else { ok = n <= M.w; r = rw_buffer_seek_read_end(&B, n); if (ok) M.r = M.w - n; what = "seek_read_end"; }
                EXPECT(r == ok, "buffer.seek", "%s %zx (capacity %zu, data %zu): %d", what, n, cap, M.w, r);
                saw(ok ? "seek.r.ok" : "seek.r.bad"); same(what); break; }
            case 16: case 17: case 18: { size_t n = amount(); bool ok, r; const char *what; size_t to;
                unsigned k = below(3);
                if (k == 0) { ok = n <= cap; to = n; what = "seek_write_set"; }
                else if (k == 1) { ok = n <= cap - M.w; to = M.w + n; what = "seek_write_cur"; }
                else { ok = n <= cap; to = cap - n; what = "seek_write_end"; }
                if (ok && to < M.r) break;      /* moving the end of the data behind the reader is the caller's error */
                r = k == 0 ? rw_buffer_seek_write_set(&B, n) : k == 1 ? rw_buffer_seek_write_cur(&B, n) : rw_buffer_seek_write_end(&B, n);
                if (ok) M.w = to;
                EXPECT(r == ok, "buffer.seek", "%s %zx (capacity %zu): %d", what, n, cap, r);
                saw(ok ? "seek.w.ok" : "seek.w.bad"); same(what); break; }
            case 19: case 20: { size_t n = M.w - M.r;
                bool moved = M.r != 0;
                rw_buffer_shift_data(&B);
                /* the bytes behind the shifted data are not specified: take over what is there */
                uint8_t *data = exact(n);
                memcpy(data, M.m + M.r, n);
                EXPECT(memcmp(mem, data, n) == 0, "buffer.shift", "shift_data: %s, expected %s", hex(mem, n), hex(data, n));
                memcpy(M.m, mem, cap);
                M.r = 0; M.w = n;
                saw("shift"); if (moved) saw(n ? "shift.moved" : "shift.empty"); same("shift_data"); break; }
            case 21: if (chance(40)) { rw_buffer_empty(&B); M.r = M.w = 0; saw("empty"); same("empty"); } break;
            case 22: { size_t n = 1 + below(10); uint32_t *p = (uint32_t *) exact(4 * n);
                bool ok = 4 * n <= M.w - M.r;
                bool r = rw_buffer_read_bip32_path(&B, p, n);
                EXPECT(r == ok, "buffer.path", "read_bip32_path %zu with %zu bytes: %d", n, M.w - M.r, r);
                if (ok) {
                    for (size_t i = 0; i < n; i++) {
                        const uint8_t *q = M.m + M.r + 4 * i;
                        uint32_t want = (uint32_t) q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3];
                        EXPECT(p[i] == want, "buffer.path", "component %zu of %zu: %x, expected %x", i, n, p[i], want);
                    }
                    M.r += 4 * n;
                }
                saw(ok ? "path.ok" : "path.short"); same("read_bip32_path"); break; }
            default: { /* a write right up to the end, then one more */
                size_t n = cap - M.w;
                uint8_t *src = exact(n); fill(src, n);
                EXPECT(rw_buffer_write_bytes(&B, src, n), "buffer.write", "the last %zu bytes of %zu refused", n, cap);
                memcpy(M.m + M.w, src, n); M.w += n;
                same("fill");
                EXPECT(!rw_buffer_write_u8(&B, 1), "buffer.write", "a byte more than the capacity accepted");
                saw("full"); same("one more"); }
        }
    }
}

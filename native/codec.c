/* P23: the VLQ/zigzag number codec against the format definition. */
#include "n.h"
#include "common/gve.h"

const char *const FOCUS[] = {"u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "truncated", "too-long", "range.u16", "range.u32", "range.i16", "range.i32",
                             "nospace", "several", "len10", "len1", "raw.ok", "raw.refused", "padded", NULL};

/* the format: 7 bits per byte, low part first, top bit set when more follows */
static size_t ref_put(uint64_t v, uint8_t *o) {
    size_t n = 0;
    while (v >= 128) { o[n++] = 128 + v % 128; v /= 128; }
    o[n++] = v;
    return n;
}
static uint64_t ref_zz(int64_t v) { return v >= 0 ? 2 * (uint64_t) v : 2 * (uint64_t) (-(v + 1)) + 1; }
static int64_t ref_uzz(uint64_t u) { return u % 2 == 0 ? (int64_t) (u / 2) : -(int64_t) (u / 2) - 1; }

enum { U64, I64, U32, I32, U16, I16, U8, I8, KINDS };
static const char *const names[KINDS] = {"u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"};

static gve_result_e put(int k, rw_buffer_t *b, uint64_t v) {
    switch (k) {
        case U64: return gve_put_u64(b, v);
        case I64: return gve_put_i64(b, (int64_t) v);
        case U32: return gve_put_u32(b, (uint32_t) v);
        case I32: return gve_put_i32(b, (int32_t) v);
        case U16: return gve_put_u16(b, (uint16_t) v);
        case I16: return gve_put_i16(b, (int16_t) v);
        case U8: return gve_put_u8(b, (uint8_t) v);
        default: return gve_put_i8(b, (int8_t) v);
    }
}
static gve_result_e get(int k, buffer_t *b, uint64_t *v) {
    gve_result_e r;
    *v = 0;
    switch (k) {
        case U64: return gve_get_u64(b, v);
        case I64: { int64_t x = 0; r = gve_get_i64(b, &x); *v = x; return r; }
        case U32: { uint32_t x = 0; r = gve_get_u32(b, &x); *v = x; return r; }
        case I32: { int32_t x = 0; r = gve_get_i32(b, &x); *v = (int64_t) x; return r; }
        case U16: { uint16_t x = 0; r = gve_get_u16(b, &x); *v = x; return r; }
        case I16: { int16_t x = 0; r = gve_get_i16(b, &x); *v = (int64_t) x; return r; }
        case U8: { uint8_t x = 0; r = gve_get_u8(b, &x); *v = x; return r; }
        default: { int8_t x = 0; r = gve_get_i8(b, &x); *v = (int64_t) x; return r; }
    }
}
static uint64_t narrow(int k, uint64_t v) {
    switch (k) {
        case U32: return (uint32_t) v;
        case I32: return (int64_t) (int32_t) v;
        case U16: return (uint16_t) v;
        case I16: return (int64_t) (int16_t) v;
        case U8: return (uint8_t) v;
        case I8: return (int64_t) (int8_t) v;
        default: return v;
    }
}
/* the bytes of v as kind k; a negative 32 or 16 bit number may be written with its sign extended (as the reference
   implementation does) or not */
static size_t ref_enc(int k, uint64_t v, uint8_t *o) {
    if (k == U8 || k == I8) { o[0] = v; return 1; }
    if (k == I64 || k == I32 || k == I16) return ref_put(ref_zz((int64_t) v), o);
    return ref_put(v, o);
}
static size_t ref_enc2(int k, uint64_t v, uint8_t *o) {
    return ref_put((uint64_t) (int64_t) (int32_t) (uint32_t) ref_zz((int64_t) v), o);
}

static void round_trip(void) {
    int k = below(KINDS);
    uint64_t v = narrow(k, edge64());
    uint8_t e[10], e2[10];
    size_t n = ref_enc(k, v, e), n2 = n;
    memcpy(e2, e, n);
    if (k == I32 || k == I16) n2 = ref_enc2(k, v, e2);
    /* the whole buffer: some bytes before, maybe not enough room */
    size_t before = below(4), cap = before + (chance(25) ? below(n) : 10 + below(3));
    uint8_t *m = exact(cap ? cap : 1);
    memset(m, 0xA5, cap);
    rw_buffer_t b;
    rw_buffer_init(&b, m, cap, 0);
    for (size_t i = 0; i < before && i < cap; i++) EXPECT(rw_buffer_write_u8(&b, 0x5A), "codec.space", "no room for byte %zu of %zu", i, cap);
    gve_result_e r = put(k, &b, v);
    size_t w = rw_buffer_write_position(&b) - before;
    mix(n); mix(cap - before < 11 ? cap - before : 11);
    if (cap - before < n && cap - before < n2) {
        saw("nospace");
        EXPECT(r != GVE_OK, "codec.nospace", "%s %llx written into %zu bytes", names[k], (unsigned long long) v, cap - before);
        EXPECT(w == 0, "codec.nospace", "%s %llx refused with %zu bytes written", names[k], (unsigned long long) v, w);
        return;
    }
    if (cap - before < 10) return;
    EXPECT(r == GVE_OK, "codec.put", "%s %llx refused", names[k], (unsigned long long) v);
    EXPECT((w == n && memcmp(m + before, e, n) == 0) || (w == n2 && memcmp(m + before, e2, n2) == 0), "codec.bytes", "%s %llx written as %s, expected %s",
           names[k], (unsigned long long) v, hex(m + before, w), hex(e, n));
    for (size_t i = 0; i < before; i++) EXPECT(m[i] == 0x5A, "codec.outside", "byte %zu before the number changed", i);
    for (size_t i = before + w; i < cap; i++) EXPECT(m[i] == 0xA5, "codec.outside", "byte %zu after the number changed", i);
    EXPECT(rw_buffer_seek_read_set(&b, before), "codec.seek", "seek");
    uint64_t got;
    r = get(k, &b.read, &got);
    EXPECT(r == GVE_OK && got == v, "codec.roundtrip", "%s %llx: wrote %s, read back %llx (result %d)", names[k], (unsigned long long) v, hex(m + before, w), (unsigned long long) got, r);
    EXPECT(rw_buffer_data_len(&b) == 0, "codec.consumed", "%s %llx: %zu bytes left", names[k], (unsigned long long) v, rw_buffer_data_len(&b));
    saw(names[k]);
    if (w == 10) saw("len10");
    if (w == 1) saw("len1");
    /* every proper prefix is refused */
    if (w > 1) {
        size_t cut = below(w);
        uint8_t *q = exact(cut ? cut : 1);
        memcpy(q, m + before, cut);
        buffer_t s;
        buffer_init(&s, q, cut);
        r = get(k, &s, &got);
        EXPECT(r != GVE_OK, "codec.truncated", "%s: %s (cut from %zu bytes) read as %llx", names[k], hex(q, cut), w, (unsigned long long) got);
        saw("truncated");
    }
}

static void several(void) {
    uint8_t m[200], e[10];
    uint64_t vs[16];
    int ks[16], n = 1 + below(16);
    rw_buffer_t b;
    rw_buffer_init(&b, m, sizeof m, 0);
    for (int i = 0; i < n; i++) {
        ks[i] = below(KINDS);
        vs[i] = narrow(ks[i], edge64());
        EXPECT(put(ks[i], &b, vs[i]) == GVE_OK, "codec.put", "%s %llx refused", names[ks[i]], (unsigned long long) vs[i]);
        mix(ks[i]);
    }
    for (int i = 0; i < n; i++) {
        uint64_t got;
        gve_result_e r = get(ks[i], &b.read, &got);
        EXPECT(r == GVE_OK && got == vs[i], "codec.sequence", "number %d of %d: %s %llx read back as %llx (%d)", i, n, names[ks[i]], (unsigned long long) vs[i], (unsigned long long) got, r);
    }
    EXPECT(rw_buffer_data_len(&b) == 0, "codec.consumed", "bytes left");
    (void) e;
    saw("several");
}

/* what any bytes mean */
static void raw(void) {
    int k = below(6);
    uint8_t e[16];
    size_t n = below(13), i;
    int style = below(4);
    for (i = 0; i < n; i++) e[i] = style == 0 ? rnd() : style == 1 ? 0x80 | rnd() : style == 2 ? (i + 1 < n ? 0x80 | rnd() : rnd() & 127) : (i + 1 < n ? 0x80 : below(2));
    if (style == 2 && chance(30)) { n = ref_put(edge64(), e); }
    uint8_t *q = exact(n ? n : 1);
    memcpy(q, e, n);
    buffer_t s;
    buffer_init(&s, q, n);
    /* the definition */
    bool ended = false, high = false;
    u128 v = 0;
    size_t used = 0;
    for (used = 0; used < n && used < 10;) {
        uint8_t c = q[used];
        v |= (u128) (c & 127) << (7 * used);
        used++;
        if (c < 128) { ended = true; break; }
    }
    if (v >> 64) high = true;
    uint64_t u = (uint64_t) v, got;
    gve_result_e r = get(k, &s, &got);
    if (!ended) {
        saw(used == 10 ? "too-long" : "truncated");
        EXPECT(r != GVE_OK, used == 10 ? "codec.toolong" : "codec.truncated", "%s: %s read as %llx", names[k], hex(q, n), (unsigned long long) got);
        return;
    }
    if (high) { saw("raw.high"); return; }     /* more than 64 bits in 10 bytes: the surplus may be dropped, as the reference does */
    bool fits = true, may = false;
    uint64_t want = u;
    switch (k) {
        case I64: want = ref_uzz(u); break;
        case U32: fits = u <= UINT32_MAX; break;
        case U16: fits = u <= UINT16_MAX; break;
        case I32: case I16: {
            /* the 32 bit zigzag number, with or without its sign extended */
            may = u <= UINT32_MAX || (uint64_t) (int64_t) (int32_t) (uint32_t) u == u;
            fits = may;
            want = (uint64_t) (int64_t) (int32_t) ref_uzz((uint32_t) u);
            if (k == I16 && ((int64_t) want > INT16_MAX || (int64_t) want < INT16_MIN)) fits = false;
            break;
        }
    }
    mix(used); mix(fits);
    if (used > 1 && q[used - 1] == 0) saw("padded");
    if (!fits) {
        saw("raw.refused");
        saw(k == U16 ? "range.u16" : k == U32 ? "range.u32" : k == I16 ? "range.i16" : "range.i32");
        EXPECT(r != GVE_OK, "codec.range", "%s: %s (%llx) does not fit and was read as %llx", names[k], hex(q, used), (unsigned long long) u, (unsigned long long) got);
        return;
    }
    EXPECT(r == GVE_OK, "codec.refused", "%s: %s (%llx) refused", names[k], hex(q, used), (unsigned long long) u);
    EXPECT(got == want, "codec.value", "%s: %s read as %llx, means %llx", names[k], hex(q, used), (unsigned long long) got, (unsigned long long) want);
    EXPECT(buffer_data_len(&s) == n - used, "codec.consumed", "%s: %s used %zu bytes, the number has %zu", names[k], hex(q, n), n - buffer_data_len(&s), used);
    saw("raw.ok");
}

static void zigzag(void) {
    int64_t a = (int64_t) edge64();
    EXPECT(zigzag_encode_i64(a) == ref_zz(a), "codec.zigzag", "i64 %llx -> %llx", (long long) a, (long long) zigzag_encode_i64(a));
    EXPECT(zigzag_decode_i64(ref_zz(a)) == a, "codec.zigzag", "i64 %llx does not come back", (long long) a);
    int32_t b = (int32_t) edge32();
    EXPECT((uint32_t) zigzag_encode_i32(b) == (uint32_t) ref_zz(b), "codec.zigzag", "i32 %x -> %llx", b, (long long) zigzag_encode_i32(b));
    EXPECT(zigzag_decode_i32((uint32_t) ref_zz(b)) == b, "codec.zigzag", "i32 %x does not come back", b);
    saw("zigzag");
    mix(a); mix(b);
}

void one_case(uint64_t i) {
    switch (i % 4) {
        case 0: case 1: round_trip(); break;
        case 2: raw(); break;
        default: if (chance(50)) several(); else zigzag();
    }
}

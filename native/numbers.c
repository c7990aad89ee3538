/* P28: overflow-checked sums used for amounts, against 128-bit arithmetic. */
#include "n.h"
#include "common/safeint.h"

const char *const FOCUS[] = {"addu.ok", "addu.over", "subu.ok", "subu.under", "addi.ok", "addi.over", "subi.ok", "subi.under", "min", "max", "chain", NULL};

static int64_t edgei(void) {
    switch (below(5)) {
        case 0: return INT64_MIN + (int64_t) below(4);
        case 1: return INT64_MAX - (int64_t) below(4);
        case 2: return (int64_t) below(7) - 3;
        default: return (int64_t) edge64();
    }
}
static uint64_t near(uint64_t a) { return a + below(5) - 2; }

static void pair(void) {
    uint64_t a = edge64(), b = chance(40) ? near(~a) : chance(30) ? near(a) : edge64(), o = 0x1234;
    u128 s = (u128) a + b;
    bool fits = s <= UINT64_MAX, r = checked_add_u64(a, b, &o);
    EXPECT(r == fits, "number.addu", "%llx + %llx: %d", (unsigned long long) a, (unsigned long long) b, r);
    EXPECT(o == (fits ? (uint64_t) s : 0x1234), "number.addu", "%llx + %llx = %llx", (unsigned long long) a, (unsigned long long) b, (unsigned long long) o);
    saw(fits ? "addu.ok" : "addu.over");
    o = 0x1234;
    r = checked_sub_u64(a, b, &o);
    EXPECT(r == (a >= b), "number.subu", "%llx - %llx: %d", (unsigned long long) a, (unsigned long long) b, r);
    EXPECT(o == (a >= b ? a - b : 0x1234), "number.subu", "%llx - %llx = %llx", (unsigned long long) a, (unsigned long long) b, (unsigned long long) o);
    saw(a >= b ? "subu.ok" : "subu.under");

    int64_t l = edgei(), q = 0x1234;
    b = chance(30) ? near((uint64_t) INT64_MAX - (uint64_t) l) : chance(30) ? near((uint64_t) l + (1ull << 63)) : edge64();
    if (l == INT64_MIN) saw("min");
    if (l == INT64_MAX) saw("max");
    i128 t = (i128) l + b;
    fits = t <= INT64_MAX;
    r = checked_add_i64(l, b, &q);
    EXPECT(r == fits, "number.addi", "%lld + %llu: %d", (long long) l, (unsigned long long) b, r);
    EXPECT(q == (fits ? (int64_t) t : 0x1234), "number.addi", "%lld + %llu = %lld", (long long) l, (unsigned long long) b, (long long) q);
    saw(fits ? "addi.ok" : "addi.over");
    t = (i128) l - b;
    fits = t >= INT64_MIN;
    q = 0x1234;
    r = checked_sub_i64(l, b, &q);
    EXPECT(r == fits, "number.subi", "%lld - %llu: %d", (long long) l, (unsigned long long) b, r);
    EXPECT(q == (fits ? (int64_t) t : 0x1234), "number.subi", "%lld - %llu = %lld", (long long) l, (unsigned long long) b, (long long) q);
    saw(fits ? "subi.ok" : "subi.under");
    mix(a); mix(b); mix(l);
}
/* a balance kept in place (output aliases an operand), as the application keeps it */
static void chain(void) {
    int64_t x = edgei();
    i128 y = x;
    uint64_t u = edge64();
    u128 v = u;
    for (int i = 0; i < 12; i++) {
        uint64_t d = chance(50) ? edge64() >> below(8) : edge64();
        bool add = chance(50);
        i128 n = add ? y + d : y - d;
        bool fits = n >= INT64_MIN && n <= INT64_MAX;
        bool r = add ? checked_add_i64(x, d, &x) : checked_sub_i64(x, d, &x);
        EXPECT(r == fits, "number.chain", "balance %lld %c %llu: %d", (long long) y, add ? '+' : '-', (unsigned long long) d, r);
        if (fits) y = n;
        EXPECT(x == (int64_t) y, "number.chain", "balance %lld, expected %lld", (long long) x, (long long) y);
        bool ok = add ? v + d <= UINT64_MAX : v >= d;
        r = add ? checked_add_u64(u, d, &u) : checked_sub_u64(u, d, &u);
        EXPECT(r == ok, "number.chain", "total %llx %c %llx: %d", (unsigned long long) v, add ? '+' : '-', (unsigned long long) d, r);
        if (ok) v = add ? v + d : v - d;
        EXPECT(u == (uint64_t) v, "number.chain", "total %llx, expected %llx", (unsigned long long) u, (unsigned long long) v);
        mix(d);
    }
    saw("chain");
}
void one_case(uint64_t i) { if (i % 4 == 3) chain(); else pair(); }

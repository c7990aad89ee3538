/* P25: key path rules and their text form, against the rules as written in the documentation. */
#include "n.h"
#include <bip32.h>
#include "common/bip32_ext.h"

const char *const FOCUS[] = {"coin", "coin.hard", "account.exact", "account.atleast", "address.exact", "address.atleast", "yes", "no", "no.len", "no.purpose", "no.coin", "no.account",
                             "no.change", "no.index", "equal", "differ", "differ.last", "differ.len", "same", "notsame", "text", "text.toolong", "text.exact", "text.oneless", NULL};
#define H 0x80000000u

static size_t make(uint32_t *p) {
    size_t n = chance(85) ? below(7) : below(11);
    static const uint32_t third[] = {H, H + 1, H + 2000000000u, 0xFFFFFFFFu, H - 1, 0, 5};
    for (size_t i = 0; i < n; i++) {
        switch (i) {
            case 0: p[i] = H + 44; break;
            case 1: p[i] = H + 429; break;
            case 2: p[i] = chance(70) ? third[below(4)] : third[below(7)]; break;
            case 3: p[i] = chance(75) ? below(2) : chance(50) ? 2 : H; break;
            default: p[i] = chance(75) ? edge32() & 0x7FFFFFFFu : edge32();
        }
    }
    if (chance(20)) for (size_t i = 2; i < n; i++) p[i] |= H;
    /* one deviation */
    if (n && chance(40)) {
        size_t i = below(n);
        switch (below(7)) {
            case 0: p[i] ^= H; break;
            case 1: p[i] += 1; break;
            case 2: p[i] -= 1; break;
            case 3: p[i] ^= 1u << below(32); break;
            case 4: p[i] = H - 1 + below(3); break;
            case 5: p[i] = rnd(); break;
            default: p[i] ^= 0x100u << 8 * below(3); break;
        }
    }
    return n;
}

/* the path in memory of exactly its own length: reading beyond it is caught */
static uint32_t *own(const uint32_t *p, size_t n) {
    uint32_t *q = (uint32_t *) exact(4 * n);
    memcpy(q, p, 4 * n);
    return q;
}

static void validate(void) {
    uint32_t p[12];
    size_t n = make(p);
    uint32_t purpose = chance(85) ? H + 44 : edge32(), coin = chance(85) ? H + 429 : edge32();
    if (n > 0 && chance(5)) purpose = p[0];
    if (n > 1 && chance(5)) coin = p[1];
    uint32_t *q = own(p, n);
    static const char *const names[] = {"coin", "coin.hard", "account.exact", "account.atleast", "address.exact", "address.atleast"};
    static const bip32_path_validation_type_e types[] = {BIP32_PATH_VALIDATE_COIN, BIP32_PATH_VALIDATE_COIN_GE2_HARD, BIP32_PATH_VALIDATE_ACCOUNT_E3,
                                                         BIP32_PATH_VALIDATE_ACCOUNT_GE3, BIP32_PATH_VALIDATE_ADDRESS_E5, BIP32_PATH_VALIDATE_ADDRESS_GE5};
    for (int t = 0; t < 6; t++) {
        const char *no = NULL;
        if (n < 3) no = "no.len";
        else if (p[0] != purpose) no = "no.purpose";
        else if (p[1] != coin) no = "no.coin";
        else switch (t) {
            case 0: break;
            case 1: case 3: for (size_t i = 2; i < n; i++) if (!(p[i] & H)) no = "no.account"; break;
            case 2: if (n != 3) no = "no.len"; else if (!(p[2] & H)) no = "no.account"; break;
            case 4: case 5:
                if (t == 4 ? n != 5 : n < 5) no = "no.len";
                else if (!(p[2] & H)) no = "no.account";
                else if (p[3] > 1) no = "no.change";
                else for (size_t i = 4; i < n; i++) if (p[i] & H) no = "no.index";
        }
        bool r = bip32_path_validate(q, n, purpose, coin, types[t]);
        EXPECT(r == (no == NULL), "path.rule", "rule %s: path %s of %zu components (purpose %x, coin %x): %s, expected %s", names[t], hex(p, 4 * n), n, purpose, coin,
               r ? "accepted" : "refused", no ? no : "yes");
        saw(names[t]); saw(no ? no : "yes");
        if (no) saw("no");
    }
}

static void compare(void) {
    uint32_t a[12], b[12];
    size_t n = 1 + below(10), m = n;
    for (size_t i = 0; i < n; i++) a[i] = edge32();
    memcpy(b, a, sizeof b);
    size_t at = n;
    unsigned k = below(4);
    if (k == 1) { at = below(n); b[at] ^= 1u << below(32); }
    else if (k == 2) { m = chance(50) ? n + 1 : n - 1; if (m > n) b[n] = rnd(); }
    else if (k == 3) { m = 1 + below(10); for (size_t i = 0; i < m; i++) b[i] = chance(70) && i < n ? a[i] : edge32(); }
    bool eq = n == m && memcmp(a, b, 4 * n) == 0;
    bool same = n >= 3 && m >= 3 && memcmp(a, b, 12) == 0;
    uint32_t *pa = own(a, n), *pb = own(b, m);
    bool r = bip32_path_is_equal(pa, n, pb, m);
    EXPECT(r == eq, "path.equal", "%s and %s: %s", hex(a, 4 * n), hex(b, 4 * m), r ? "called equal" : "called different");
    r = bip32_path_same_account(pa, n, pb, m);
    EXPECT(r == same, "path.account", "%s and %s: %s", hex(a, 4 * n), hex(b, 4 * m), r ? "called the same account" : "called different accounts");
    saw(eq ? "equal" : "differ"); saw(same ? "same" : "notsame");
    if (k == 1 && at == n - 1) saw("differ.last");
    if (n != m) saw("differ.len");
    mix(n); mix(m); mix(at);
}

static void text(void) {
    uint32_t p[12];
    size_t n = 1 + below(10);
    for (size_t i = 0; i < n; i++) p[i] = chance(60) ? edge32() : below(1000) + (chance(50) ? H : 0);
    char want[200];
    size_t l = 0;
    for (size_t i = 0; i < n; i++) l += sprintf(want + l, "%s%u%s", i ? "/" : "", p[i] & ~H, p[i] & H ? "'" : "");
    size_t room = chance(50) ? l + 1 : chance(50) ? 1 + below(l + 4) : chance(50) ? l : l > 3 ? l - below(4) : l;
    char *out = (char *) exact(room);
    memset(out, 'x', room);
    uint32_t *q = own(p, n);
    bool r = bip32_path_format_whole(q, n, out, room);
    bool fits = room >= l + 1;
    if (fits) {
        EXPECT(r, "path.text", "%s refused with room for %zu", want, room);
        EXPECT(strcmp(out, want) == 0, "path.text", "%s shown as %s", want, out);
        saw("text");
        if (room == l + 1) saw("text.exact");
    } else {
        EXPECT(!r, "path.cut", "%s in %zu characters accepted as %.*s", want, room, (int) room, out);
        saw("text.toolong");
        if (room == l) saw("text.oneless");
        bool ended = false;
        for (size_t i = 0; i < room; i++) if (out[i] == 0) ended = true;
        EXPECT(ended, "path.cut", "the refused text is not ended");
    }
    mix(n); mix(l); mix(room);
}
void one_case(uint64_t i) {
    switch (i % 4) { case 0: case 1: validate(); break; case 2: compare(); break; default: text(); }
}

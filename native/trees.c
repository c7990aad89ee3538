/* P27: which scripts are recognised, and the addresses made from keys and script hashes. */
#include "n.h"
#include "ergo/ergo_tree.h"
#include "ergo/address.h"
#include "ergo/network_id.h"

const char *const FOCUS[] = {"p2pk.yes", "p2pk.no", "p2sh.yes", "p2sh.no", "p2pk.sign", "generate", "addr.pubkey", "addr.compressed", "addr.hash", "addr.badnet", "addr.main", "addr.test",
                             "addr.hasher", "agree", "fee", NULL};

static const uint8_t p2sh_pre[17] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18};
static const uint8_t p2sh_suf[3] = {0xd4, 0x08, 0x01};

static void parse(void) {
    /* P2PK: 00 08 cd, then a compressed key (02 or 03 and 32 bytes) */
    uint8_t *t = exact(36), *k = exact(33), old[33], tt[36];
    t[0] = 0; t[1] = 8; t[2] = 0xcd; t[3] = 2 + below(2);
    fill(t + 4, 32);
    unsigned how = below(4);
    if (how == 1) t[below(4)] ^= 1u << below(8);
    if (how == 2) t[3] = chance(40) ? 4 : rnd();
    if (how == 3 && chance(30)) fill(t, 36);
    bool want = t[0] == 0 && t[1] == 8 && t[2] == 0xcd && (t[3] == 2 || t[3] == 3);
    fill(k, 33); memcpy(old, k, 33); memcpy(tt, t, 36);
    bool r = ergo_tree_parse_p2pk(t, k);
    EXPECT(r == want, "tree.p2pk", "%s: %s", hex(t, 36), r ? "taken for a key script" : "not recognised");
    EXPECT(memcmp(k, want ? t + 3 : old, 33) == 0, "tree.p2pk.key", "%s gave key %s", hex(t, 36), hex(k, 33));
    EXPECT(memcmp(t, tt, 36) == 0, "tree.changed", "the script was changed");
    saw(want ? "p2pk.yes" : "p2pk.no");
    if (how == 2 && !want) saw("p2pk.sign");
    mix(t[0]); mix(t[1]); mix(t[2]); mix(t[3]); mix(t[4]);

    uint8_t *s = exact(44), *h = exact(24), olds[24];
    memcpy(s, p2sh_pre, 17); fill(s + 17, 24); memcpy(s + 41, p2sh_suf, 3);
    how = below(4);
    size_t at = 0;
    if (how == 1) { at = below(44); s[at] ^= 1u << below(8); mix(at); }
    if (how == 2) { at = below(20); if (at >= 17) at += 24; s[at] ^= 1u << below(8); mix(at); }
    if (how == 3 && chance(20)) fill(s, 44);
    want = memcmp(s, p2sh_pre, 17) == 0 && memcmp(s + 41, p2sh_suf, 3) == 0;
    fill(h, 24); memcpy(olds, h, 24);
    r = ergo_tree_parse_p2sh(s, h);
    EXPECT(r == want, "tree.p2sh", "%s: %s", hex(s, 44), r ? "taken for a pay-to-script-hash script" : "not recognised");
    EXPECT(memcmp(h, want ? s + 17 : olds, 24) == 0, "tree.p2sh.hash", "%s gave hash %s", hex(s, 44), hex(h, 24));
    saw(want ? "p2sh.yes" : "p2sh.no");
}

static const uint8_t fee[105] = {
    0x10, 0x05, 0x04, 0x00, 0x04, 0x00, 0x0e, 0x36, 0x10, 0x02, 0x04, 0xa0, 0x0b, 0x08, 0xcd, 0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87,
    0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98, 0xea, 0x02, 0xd1, 0x92, 0xa3, 0x9a, 0x8c, 0xc7, 0xa7, 0x01, 0x73, 0x00,
    0x73, 0x01, 0x10, 0x01, 0x02, 0x04, 0x02, 0xd1, 0x96, 0x83, 0x03, 0x01, 0x93, 0xa3, 0x8c, 0xc7, 0xb2, 0xa5, 0x73, 0x00, 0x00, 0x01, 0x93, 0xc2, 0xb2, 0xa5, 0x73, 0x01, 0x00, 0x74,
    0x73, 0x02, 0x73, 0x03, 0x83, 0x01, 0x08, 0xcd, 0xee, 0xac, 0x93, 0xb1, 0xa5, 0x73, 0x04};

static void generate(void) {
    uint8_t *k = exact(65), *t = exact(36), want[36];
    k[0] = 4; fill(k + 1, 64);
    if (chance(30)) k[64] = below(2) ? 0xFF : 0;
    if (chance(10)) memset(k + 1, chance(50) ? 0 : 0xFF, 32);
    want[0] = 0; want[1] = 8; want[2] = 0xcd; want[3] = k[64] % 2 ? 3 : 2; memcpy(want + 4, k + 1, 32);
    ergo_tree_generate_p2pk(k, t);
    EXPECT(memcmp(t, want, 36) == 0, "tree.generate", "key %s gave script %s", hex(k, 65), hex(t, 36));
    uint8_t back[33];
    EXPECT(ergo_tree_parse_p2pk(t, back) && memcmp(back, want + 3, 33) == 0, "tree.generate", "the script of key %s is not recognised", hex(k, 65));
    saw("generate");
    const uint8_t *f = NULL; size_t n = 0;
    ergo_tree_miners_fee_tree(chance(50), &f, &n);
    EXPECT(n == 105 && memcmp(f, fee, 105) == 0, "tree.fee", "the miners' fee script is %s", hex(f, n));
    saw("fee");
    mix(k[64]); mix(k[1]); mix(k[2]);
}

static void address(void) {
    uint8_t net = chance(60) ? (chance(50) ? 0x00 : 0x10) : rnd();
    if (chance(10)) net = 250 + below(6);
    uint8_t *k = exact(65), *c = exact(33), *h = exact(24), *a = exact(38), *b = exact(38), *s = exact(29), want[64], d[32];
    k[0] = 4; fill(k + 1, 64);
    c[0] = k[64] & 1 ? 3 : 2; memcpy(c + 1, k + 1, 32);
    fill(h, 24);
    bool ok = net <= 252;   /* the type must fit in the same byte */
    EXPECT(network_id_is_valid(net) == ok, "address.network", "network %u valid: %d", net, network_id_is_valid(net));
    EXPECT(network_id_is_supported(net) == (net == 0 || net == 16), "address.network", "network %u supported: %d", net, network_id_is_supported(net));
    EXPECT(network_id_is_mainnet(net) == (net == 0) && network_id_is_testnet(net) == (net == 16), "address.network", "network %u", net);
    bool hf = chance(15);
    for (int w = 0; w < 3; w++) {
        size_t n = w == 2 ? 24 : 33;
        want[0] = net + (w == 2 ? 2 : 1);
        memcpy(want + 1, w == 2 ? h : c, n);
        ref_blake2b256(want, 1 + n, d);
        memcpy(want + 1 + n, d, 4);
        hash_calls = 0; hash_fail_at = hf ? 0 : -1;
        bool r = w == 0 ? ergo_address_from_pubkey(net, k, a) : w == 1 ? ergo_address_from_compressed_pubkey(net, c, b) : ergo_address_from_script_hash(net, h, s);
        const uint8_t *got = w == 0 ? a : w == 1 ? b : s;
        EXPECT(r == (ok && !hf), "address.result", "network %u, form %d, hash failure %d: %d", net, w, hf, r);
        if (r) {
            EXPECT(memcmp(got, want, n + 5) == 0, "address.bytes", "network %u form %d: %s, expected %s", net, w, hex(got, n + 5), hex(want, n + 5));
            saw(w == 0 ? "addr.pubkey" : w == 1 ? "addr.compressed" : "addr.hash");
            saw(net == 0 ? "addr.main" : net == 16 ? "addr.test" : "addr.other");
        } else saw(ok ? "addr.hasher" : "addr.badnet");
    }
    if (ok && !hf) { EXPECT(memcmp(a, b, 38) == 0, "address.agree", "compressed and uncompressed key give different addresses"); saw("agree"); }
    mix(net); mix(k[64] & 1); mix(k[1]);
}
void one_case(uint64_t i) { switch (i % 3) { case 0: parse(); break; case 1: generate(); break; default: address(); } }

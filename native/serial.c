/* P26: the streaming serializers. Whatever the chunking, the bytes hashed are the serialized transaction; what is refused stays refused. */
#include "n.h"
#include "ergo/tx_ser_full.h"
#include "helpers/input_frame.h"
#include "helpers/blake2b.h"

const char *const FOCUS[] = {"tx", "box", "chunks.tree", "chunks.regs", "chunks.ext", "chunks.tokens", "chunks.data", "chunks.table", "tree.change", "tree.fee", "tree.script", "notokens", "tokens20",
                             "noregs", "noext", "ext", "nodata", "data", "frames", "bad.order", "bad.toomuch", "bad.small", "bad.index", "bad.frame", "bad.box", "bad.counts", "bad.size",
                             "bad.tokens", "bad.cut", "bad.callback", "bad.hasher", "dead", "box.dead", "box.table", "input", "input.dead", "boxid", "boxid.early", "frame", "frame.short", "frame.many", "multi.input", "multi.output", "limit.size", NULL};

static uint8_t want[1 << 20];
static size_t wl;
static void w(const void *p, size_t n) { memcpy(want + wl, p, n); wl += n; }
static void w8(uint8_t v) { want[wl++] = v; }
static void wv(uint64_t v) { while (v >= 128) { want[wl++] = 128 + v % 128; v /= 128; } want[wl++] = v; }
static void hashed(const char *when) {
    size_t i = 0;
    while (i < wl && i < hlog_len && want[i] == hlog[i]) i++;
    EXPECT(hlog_len == wl && i == wl, "serial.bytes", "%s: %zu bytes hashed, the transaction has %zu so far; they differ at %zu (%s, expected %s)", when, hlog_len, wl, i,
           hex(hlog + i, hlog_len - i > 16 ? 16 : hlog_len - i), hex(want + i, wl - i > 16 ? 16 : wl - i));
}

/* what the callbacks have to report, in order */
typedef struct { char k; int type; uint64_t value; uint8_t id[32], box[32]; } ev;
static ev evs[600], exp_evs[600];
static int nev, nexp, cb_fail;
static int cb_tag;
static ev *push(char k) { if (nev == 600) abort(); ev *e = &evs[nev++]; memset(e, 0, sizeof *e); e->k = k; return e; }
static ev *expect(char k) { if (nexp == 600) abort(); ev *e = &exp_evs[nexp++]; memset(e, 0, sizeof *e); e->k = k; return e; }
static ergo_tx_serializer_box_result_e on_type(ergo_tx_serializer_box_type_e t, uint64_t v, void *c) {
    EXPECT(c == &cb_tag, "serial.callback", "callback context");
    ev *e = push('T'); e->type = t; e->value = v;
    return cb_fail && nev == cb_fail ? ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW : ERGO_TX_SERIALIZER_BOX_RES_OK;
}
static ergo_tx_serializer_box_result_e on_token(ergo_tx_serializer_box_type_e t, const uint8_t *id, uint64_t v, void *c) {
    EXPECT(c == &cb_tag, "serial.callback", "callback context");
    ev *e = push('t'); e->type = t; e->value = v; memcpy(e->id, id, 32);
    return cb_fail && nev == cb_fail ? ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_VALUE : ERGO_TX_SERIALIZER_BOX_RES_OK;
}
static ergo_tx_serializer_box_result_e on_finished(ergo_tx_serializer_box_type_e t, void *c) {
    EXPECT(c == &cb_tag, "serial.callback", "callback context");
    ev *e = push('F'); e->type = t;
    return cb_fail && nev == cb_fail ? ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER : ERGO_TX_SERIALIZER_BOX_RES_OK;
}
static ergo_tx_serializer_input_result_e on_input(const uint8_t *box, const uint8_t *id, uint64_t v, void *c) {
    EXPECT(c == &cb_tag, "serial.callback", "callback context");
    ev *e = push('i'); e->value = v; memcpy(e->id, id, 32); memcpy(e->box, box, 32);
    return cb_fail && nev == cb_fail ? ERGO_TX_SERIALIZER_INPUT_RES_ERR_U64_OVERFLOW : ERGO_TX_SERIALIZER_INPUT_RES_OK;
}
static void reported(const char *when) {
    EXPECT(nev == nexp, "serial.events", "%s: %d reports, expected %d", when, nev, nexp);
    for (int i = 0; i < nexp; i++)
        EXPECT(memcmp(&evs[i], &exp_evs[i], sizeof(ev)) == 0, "serial.events", "%s: report %d is %c type %d value %llx id %s, expected %c type %d value %llx id %s", when, i,
               evs[i].k, evs[i].type, (unsigned long long) evs[i].value, hex(evs[i].id, 4), exp_evs[i].k, exp_evs[i].type, (unsigned long long) exp_evs[i].value, hex(exp_evs[i].id, 4));
}

static uint8_t scratch[40000];
static int nscratch;
/* a chunk in memory of exactly its own size, at some offset of its buffer */
static buffer_t chunk(const uint8_t *p, size_t n) {
    size_t before = below(4);
    uint8_t *q;
    static uint8_t *last;
    if (nscratch++ > 40) { q = scratch; (void) last; }      /* many chunks: reuse */
    else q = exact(before + n);
    memcpy(q + before, p, n);
    buffer_t b;
    buffer_init(&b, q, before + n);
    b.offset = before;
    return b;
}
static size_t part_size(void) {
    switch (below(12)) {
        case 0: return 1;
        case 1: return 2 + below(5);
        case 2: return 255;
        case 3: return 256;
        case 4: return 254;
        case 5: return 510 + below(3);
        case 6: return chance(10) ? 32768 : 600;
        default: return 1 + below(400);
    }
}

typedef struct { uint8_t kind; uint64_t value; uint32_t height; uint8_t ntok; uint32_t idx[20]; uint64_t amt[20]; uint32_t tree, regs; uint8_t key[65]; } out_t;
typedef struct { uint8_t id[32]; uint8_t frames; uint8_t per[6]; uint32_t ext; } in_t;

static ergo_tx_serializer_full_context_t ctx;
static token_table_t table;
static cx_blake2b_t hash;
static uint8_t bytes[40000];
#define OK ERGO_TX_SERIALIZER_FULL_RES_OK
#define MORE ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA
#define GOOD(r) ((r) == OK || (r) == MORE)

/* an error step happens at this step of the transaction */
static int bad_at, step;
static bool bad_done;

/* after an error nothing is accepted any more, nothing is hashed, nothing is reported */
static void dead(void) {
    uint8_t b[64] = {0};
    int e = nev;
    hash_fail_at = -1;
    cb_fail = 0;
    size_t h = hlog_len;
    for (int i = 0; i < 6; i++) {
        buffer_t c = chunk(b, 1 + below(40));
        int r;
        unsigned k = below(11);
        switch (k) {
            case 0: r = ergo_tx_serializer_full_add_tokens(&ctx, &c); break;
            case 1: r = ergo_tx_serializer_full_add_input(&ctx, b, 1, 0); break;
            case 2: r = ergo_tx_serializer_full_add_input_tokens(&ctx, ctx.input_ctx.box_id, 0, &c); break;
            case 3: r = ergo_tx_serializer_full_add_input_context_extension(&ctx, &c); break;
            case 4: r = ergo_tx_serializer_full_add_data_inputs(&ctx, &c); break;
            case 5: r = ergo_tx_serializer_full_add_box(&ctx, 1, 36, 1, 0, 0); break;
            case 6: r = ergo_tx_serializer_full_add_box_ergo_tree(&ctx, &c); break;
            case 7: { uint8_t *k65 = exact(65); memset(k65, 4, 65); r = ergo_tx_serializer_full_add_box_change_tree(&ctx, k65); break; }
            case 8: r = ergo_tx_serializer_full_add_box_miners_fee_tree(&ctx, true); break;
            case 9: r = ergo_tx_serializer_full_add_box_tokens(&ctx, &c); break;
            default: r = ergo_tx_serializer_full_add_box_registers(&ctx, &c); break;
        }
        EXPECT(!GOOD(r), "serial.dead", "step of kind %u accepted after an error", k);
        EXPECT(!ergo_tx_serializer_full_is_finished(&ctx), "serial.dead", "finished after an error");
    }
    EXPECT(hlog_len == h, "serial.dead", "%zu bytes hashed after the error", hlog_len - h);
    EXPECT(nev == e, "serial.dead", "%d reports after the error", nev - e);
    saw("dead");
}
static void refused(const char *what, int r) {
    EXPECT(!GOOD(r), "serial.accepted", "%s accepted", what);
    EXPECT(!ergo_tx_serializer_full_is_finished(&ctx), "serial.finished", "finished after %s", what);
    /* what was hashed before is still a beginning of the transaction; no report was made that was not due */
    saw(what);
    dead();
    bad_done = true;
}

enum { S_TABLE, S_INPUT, S_FRAME, S_EXT, S_DATA, S_BOX, S_TREE, S_TOKENS, S_REGS, S_DONE };
/* a step that does not belong here */
static bool out_of_order(int now, const in_t *in, bool fresh_tree) {
    uint8_t b[64];
    memset(b, 7, 64);
    unsigned k = below(11);
    buffer_t c = chunk(b, 32);
    int r;
    switch (k) {
        case 0: if (now == S_TABLE) return false; r = ergo_tx_serializer_full_add_tokens(&ctx, &c); break;
        case 1: if (now == S_INPUT) return false; r = ergo_tx_serializer_full_add_input(&ctx, b, 1, 0); break;
        case 2: if (now == S_FRAME) return false; r = ergo_tx_serializer_full_add_input_tokens(&ctx, in ? in->id : b, 0, &(buffer_t){b, 0, 0}); break;
        case 3: if (now == S_EXT) return false; r = ergo_tx_serializer_full_add_input_context_extension(&ctx, &c); break;
        case 4: if (now == S_DATA) return false; r = ergo_tx_serializer_full_add_data_inputs(&ctx, &c); break;
        case 5: if (now == S_BOX) return false; r = ergo_tx_serializer_full_add_box(&ctx, 1, 36, 1, 0, 0); break;
        case 6: if (now == S_TREE) return false; r = ergo_tx_serializer_full_add_box_ergo_tree(&ctx, &c); break;
        case 7: if (now == S_TREE && fresh_tree) return false; if (now == S_TREE) return false;
                { uint8_t *k65 = exact(65); memset(k65, 4, 65); r = ergo_tx_serializer_full_add_box_change_tree(&ctx, k65); } break;
        case 8: if (now == S_TREE) return false; r = ergo_tx_serializer_full_add_box_miners_fee_tree(&ctx, true); break;
        case 9: if (now == S_TOKENS) return false; r = ergo_tx_serializer_full_add_box_tokens(&ctx, &c); break;
        default: if (now == S_REGS) return false; r = ergo_tx_serializer_full_add_box_registers(&ctx, &c); break;
    }
    mix(now * 16 + k);
    EXPECT(!GOOD(r), "serial.order", "step of kind %u accepted where step %d was due", k, now);
    refused("bad.order", r);
    return true;
}
static bool turn(int now, const in_t *in, bool fresh) {     /* true: the transaction ended with an error here */
    if (step++ != bad_at) return false;
    if (chance(60)) return out_of_order(now, in, fresh);
    if (chance(50)) { hash_calls = 0; hash_fail_at = below(3); }
    else { cb_fail = nev + 1 + below(2); }
    return false;
}
/* a step was answered; an injected failure must have shown */
static bool hit(int r, int e0, const char *what) {
    bool hf = hash_fail_at >= 0 && hash_calls > hash_fail_at;
    bool cf = cb_fail && nev >= cb_fail && e0 < cb_fail;
    if (hf || cf) {
        EXPECT(!GOOD(r), hf ? "serial.hasher" : "serial.callback", "%s accepted though %s", what, hf ? "the hash function failed" : "the application refused it");
        refused(hf ? "bad.hasher" : "bad.callback", r);
        return true;
    }
    return false;
}
static void good(int r, int wanted, const char *what) {
    EXPECT(GOOD(r), "serial.refused", "%s refused (%x)", what, r);
    EXPECT(r == wanted, "serial.progress", "%s: %s, expected %s", what, r == OK ? "complete" : "more data", wanted == OK ? "complete" : "more data");
    EXPECT(ergo_tx_serializer_full_is_finished(&ctx) == false, "serial.finished", "finished after %s", what);
}

static void tx(void) {
    nev = nexp = cb_fail = 0; wl = 0; nscratch = 0; step = 0; bad_done = false;
    bad_at = chance(50) ? -1 : (int) below(40);
    int ni = 1 + (chance(50) ? below(4) : 0), nd = chance(50) ? 0 : chance(1) ? 200 + below(400) : below(10), no = 1 + (chance(60) ? below(4) : 0);
    int nt = chance(40) ? 0 : chance(15) ? 20 : below(21);
    uint8_t ids[20][32];
    in_t in[5];
    for (int i = 0; i < nt; i++) fill(ids[i], 32);
    memset(&table, 0, sizeof table);
    log_reset();
    if (!blake2b_256_init(&hash)) fail("serial.hasher", "no hash");
    if (bad_at >= 0 && chance(6)) {
        unsigned k = below(3);
        int r = ergo_tx_serializer_full_init(&ctx, k == 0 ? 0 : ni, nd, k == 1 ? 0 : no, k == 2 ? 21 + below(235) : nt, &hash, &table);
        EXPECT(!GOOD(r), "serial.accepted", "%s", k == 0 ? "a transaction without inputs" : k == 1 ? "a transaction without outputs" : "too many tokens");
        refused("bad.counts", r);
        return;
    }
    int r = ergo_tx_serializer_full_init(&ctx, ni, nd, no, nt, &hash, &table);
    EXPECT(r == OK, "serial.refused", "%d inputs %d data inputs %d outputs %d tokens refused", ni, nd, no, nt);
    wv(ni);
    hashed("start");
    /* the token table */
    for (int i = 0; i < nt;) {
        if (turn(S_TABLE, NULL, false)) return;
        int n = 1 + below(nt - i > 8 ? 8 : nt - i);
        if (step - 1 == bad_at && hash_fail_at < 0 && !cb_fail) {}
        uint8_t cat[32 * 20];
        for (int j = 0; j < n; j++) memcpy(cat + 32 * j, ids[i + j], 32);
        if (chance(2) && bad_at >= 0) {
            bool cut = chance(50);
            memset(bytes, 3, 32 * 30);
            buffer_t c = cut ? chunk(cat, 32 * n - 1 - below(31)) : chunk(bytes, 32 * (nt - i + 1));
            r = ergo_tx_serializer_full_add_tokens(&ctx, &c);
            refused(cut ? "bad.cut" : "bad.tokens", r);
            return;
        }
        buffer_t c = chunk(cat, 32 * n);
        hash_fail_at = -1; cb_fail = 0;
        r = ergo_tx_serializer_full_add_tokens(&ctx, &c);
        i += n;
        good(r, i == nt ? OK : MORE, "token ids");
        if (i < nt) saw("chunks.table");
        hashed("token ids");
    }
    if (nt == 0) saw("notokens");
    if (nt == 20) saw("tokens20");
    /* inputs */
    for (int i = 0; i < ni; i++) {
        in_t *n = &in[i];
        fill(n->id, 32);
        n->frames = 1 + (chance(40) ? below(5) : 0);
        n->ext = chance(60) ? 0 : chance(5) ? 32768 - below(2) : 2 + below(900);
        if (turn(S_INPUT, NULL, false)) return;
        hash_fail_at = -1; cb_fail = 0;
        if (bad_at >= 0 && chance(3)) {
            r = ergo_tx_serializer_full_add_input(&ctx, n->id, n->frames, chance(50) ? 1 : 32769 + (chance(50) ? below(5) : edge32() % 0x7FFF0000u));
            refused("bad.size", r);
            return;
        }
        r = ergo_tx_serializer_full_add_input(&ctx, n->id, n->frames, n->ext);
        good(r, OK, "input");
        r = ergo_tx_serializer_full_set_input_callback(&ctx, on_input, &cb_tag);
        EXPECT(r == OK, "serial.refused", "input callback");
        if (n->ext > 32000) saw("limit.size");
        for (int f = 0; f < n->frames; f++) {
            if (turn(S_FRAME, n, false)) return;
            int k = below(5);
            uint8_t cat[40 * 4];
            int e0 = nev;
            ev *first = &exp_evs[nexp];
            (void) first;
            for (int j = 0; j < k; j++) {
                uint64_t v = edge64();
                uint8_t *id = cat + 40 * j;
                if (nt && chance(50)) memcpy(id, ids[below(nt)], 32); else fill(id, 32);
                for (int q = 0; q < 8; q++) id[32 + q] = v >> 8 * (7 - q);
                ev *e = expect('i'); e->value = v; memcpy(e->id, id, 32); memcpy(e->box, n->id, 32);
            }
            if (bad_at >= 0 && chance(3)) {
                unsigned kind = below(4);
                uint8_t id2[32];
                memcpy(id2, n->id, 32);
                if (kind == 0) id2[below(32)] ^= 1u << below(8);
                buffer_t c = kind == 3 && k ? chunk(cat, 40 * k - 1 - below(39)) : chunk(cat, 40 * k);
                if (kind == 3 && !k) kind = 0, id2[0] ^= 1;
                hash_fail_at = -1; cb_fail = 0;
                r = ergo_tx_serializer_full_add_input_tokens(&ctx, id2, kind == 1 ? f + 1 + below(3) : kind == 2 ? f + 255 : f, &c);
                refused(kind == 0 ? "bad.box" : kind == 3 ? "bad.cut" : "bad.frame", r);
                return;
            }
            buffer_t c = chunk(cat, 40 * k);
            r = ergo_tx_serializer_full_add_input_tokens(&ctx, n->id, f, &c);
            if (hit(r, e0, "input frame")) return;
            hash_fail_at = -1; cb_fail = 0;
            bool last = f + 1 == n->frames;
            if (last) {
                w(n->id, 32); w8(0);
                if (n->ext == 0) { w8(0); saw("noext"); if (i + 1 == ni) wv(nd); }
                if (n->ext == 0 && i + 1 == ni && nd == 0) { wv(nt); for (int t = 0; t < nt; t++) w(ids[t], 32); wv(no); }
            }
            good(r, last ? OK : MORE, "input frame");
            hashed("input frame"); reported("input frame");
            if (n->frames > 1) saw("frames");
        }
        for (uint32_t left = n->ext; left;) {
            if (turn(S_EXT, n, false)) return;
            size_t k = part_size();
            if (bad_at >= 0 && chance(2)) {
                fill(bytes, left + 1);
                buffer_t c = chunk(bytes, left + 1);
                hash_fail_at = -1; cb_fail = 0;
                r = ergo_tx_serializer_full_add_input_context_extension(&ctx, &c);
                refused("bad.toomuch", r);
                return;
            }
            if (k > left) k = left;
            fill(bytes, k);
            buffer_t c = chunk(bytes, k);
            int e0 = nev;
            r = ergo_tx_serializer_full_add_input_context_extension(&ctx, &c);
            if (hit(r, e0, "context extension")) return;
            hash_fail_at = -1; cb_fail = 0;
            w(bytes, k);
            left -= k;
            if (left) saw("chunks.ext"); else saw("ext");
            if (!left && i + 1 == ni) wv(nd);
            if (!left && i + 1 == ni && nd == 0) { wv(nt); for (int t = 0; t < nt; t++) w(ids[t], 32); wv(no); }
            good(r, left ? MORE : OK, "context extension");
            hashed("context extension");
        }
        if (i) saw("multi.input");
    }
    /* data inputs */
    for (int i = 0; i < nd;) {
        if (turn(S_DATA, NULL, false)) return;
        int n = 1 + below(nd - i > 7 ? 7 : nd - i);
        fill(bytes, 32 * n);
        if (bad_at >= 0 && chance(4)) {
            bool cut = chance(50);
            if (!cut) fill(bytes, 32 * (nd - i + 1));
            buffer_t c = cut ? chunk(bytes, 32 * n - 1 - below(31)) : chunk(bytes, 32 * (nd - i + 1));
            hash_fail_at = -1; cb_fail = 0;
            r = ergo_tx_serializer_full_add_data_inputs(&ctx, &c);
            refused(cut ? "bad.cut" : "bad.toomuch", r);
            return;
        }
        buffer_t c = chunk(bytes, 32 * n);
        int e0 = nev;
        r = ergo_tx_serializer_full_add_data_inputs(&ctx, &c);
        if (hit(r, e0, "data inputs")) return;
        hash_fail_at = -1; cb_fail = 0;
        w(bytes, 32 * n);
        i += n;
        if (i == nd) { wv(nt); for (int t = 0; t < nt; t++) w(ids[t], 32); wv(no); saw("data"); } else saw("chunks.data");
        good(r, i == nd ? OK : MORE, "data inputs");
        hashed("data inputs");
    }
    if (nd == 0) saw("nodata");
    /* outputs */
    for (int i = 0; i < no; i++) {
        out_t o;
        memset(&o, 0, sizeof o);
        o.kind = below(4);      /* 0 change 1 fee 2,3 script */
        o.value = edge64(); o.height = edge32();
        o.ntok = nt ? below(nt + 1) : 0;
        if (chance(50) && o.ntok > 3) o.ntok = below(4);
        o.regs = chance(60) ? 0 : chance(5) ? 32768 - below(2) : 1 + below(900);
        o.tree = o.kind < 2 ? 0 : chance(5) ? 32768 - below(2) : 1 + below(900);
        if (turn(S_BOX, NULL, false)) return;
        if (bad_at >= 0 && chance(3)) {
            unsigned k = below(3);
            uint32_t big = 32769 + (chance(50) ? below(4) : edge32() % 0x7FFF0000u);
            hash_fail_at = -1; cb_fail = 0;
            r = ergo_tx_serializer_full_add_box(&ctx, o.value, k == 0 ? big : o.tree, o.height, k == 1 ? 21 + below(235) : o.ntok, k == 2 ? big : o.regs);
            refused(k == 1 ? "bad.tokens" : "bad.size", r);
            return;
        }
        int e0 = nev;
        cb_fail = 0;
        r = ergo_tx_serializer_full_add_box(&ctx, o.value, o.tree, o.height, o.ntok, o.regs);
        if (hit(r, e0, "output")) return;
        hash_fail_at = -1;
        wv(o.value);
        good(r, OK, "output");
        hashed("output");
        r = ergo_tx_serializer_full_set_box_callbacks(&ctx, on_type, on_token, on_finished, &cb_tag);
        EXPECT(r == OK, "serial.refused", "output callbacks");
        if (o.tree > 32000 || o.regs > 32000) saw("limit.size");
        bool fin;
        int typ = o.kind == 0 ? ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE : o.kind == 1 ? ERGO_TX_SERIALIZER_BOX_TYPE_FEE : ERGO_TX_SERIALIZER_BOX_TYPE_TREE;
#define AFTER_TREE() do { ev *e = expect('T'); e->type = typ; e->value = o.value; wv(o.height); w8(o.ntok); \
            fin = o.ntok == 0 && o.regs == 0; if (fin) { w8(0); saw("noregs"); expect('F')->type = typ; } } while (0)
        if (o.kind < 2) {
            if (turn(S_TREE, NULL, true)) return;
            e0 = nev;
            if (o.kind == 0) {
                uint8_t *k = exact(65);
                fill(k, 65);
                r = ergo_tx_serializer_full_add_box_change_tree(&ctx, k);
                w8(0); w8(8); w8(0xcd); w8(k[64] & 1 ? 3 : 2); w(k + 1, 32);
                saw("tree.change");
            } else {
                extern const uint8_t fee_tree[105];
                r = ergo_tx_serializer_full_add_box_miners_fee_tree(&ctx, chance(50));
                w(fee_tree, 105);
                saw("tree.fee");
            }
            AFTER_TREE();
            if (hit(r, e0, "key or fee script")) return;
        } else {
            fin = false;
            for (uint32_t left = o.tree; left;) {
                if (turn(S_TREE, NULL, left == o.tree)) return;
                size_t k = part_size();
                if (k > left) k = left;
                if (bad_at >= 0 && chance(3)) {
                    bool small = chance(50) && left > 1;
                    size_t q = small ? 1 + below(left - 1 > 254 ? 254 : left - 1) : left + 1 + below(3);
                    fill(bytes, q);
                    buffer_t c = chunk(bytes, q);
                    hash_fail_at = -1; cb_fail = 0;
                    r = ergo_tx_serializer_full_add_box_ergo_tree(&ctx, &c);
                    refused(small ? "bad.small" : "bad.toomuch", r);
                    return;
                }
                if (k < left && k < 255) k = left < 255 ? left : 255;
                fill(bytes, k);
                buffer_t c = chunk(bytes, k);
                e0 = nev;
                r = ergo_tx_serializer_full_add_box_ergo_tree(&ctx, &c);
                w(bytes, k);
                left -= k;
                if (left) saw("chunks.tree");
                else { saw("tree.script"); AFTER_TREE(); }
                if (hit(r, e0, "script")) return;
                hash_fail_at = -1; cb_fail = 0;
                if (left) { good(r, MORE, "script"); hashed("script"); reported("script"); }
            }
        }
        hash_fail_at = -1; cb_fail = 0;
        EXPECT(r == OK, "serial.progress", "the script is complete and more data is asked for (%x)", r);
        if (!fin) { hashed("script"); reported("script"); EXPECT(!ergo_tx_serializer_full_is_finished(&ctx), "serial.finished", "finished after the script"); }
        for (int t = 0; t < o.ntok;) {
            if (turn(S_TOKENS, NULL, false)) return;
            int n = 1 + below(o.ntok - t > 6 ? 6 : o.ntok - t);
            uint8_t cat[12 * 30];
            bool over = bad_at >= 0 && chance(2);
            if (over) n = o.ntok - t + 1;
            for (int j = 0; j < n; j++) {
                uint32_t ix = below(nt);
                uint64_t v = edge64();
                for (int q = 0; q < 4; q++) cat[12 * j + q] = ix >> 8 * (3 - q);
                for (int q = 0; q < 8; q++) cat[12 * j + 4 + q] = v >> 8 * (7 - q);
                if (t + j < o.ntok) { o.idx[t + j] = ix; o.amt[t + j] = v; }
            }
            if (over || (bad_at >= 0 && chance(3))) {
                hash_fail_at = -1; cb_fail = 0;
                const char *what = "bad.tokens";
                size_t l = 12 * n;
                if (!over) {
                    if (chance(50)) { l -= 1 + below(11); what = "bad.cut"; }
                    else { uint32_t ix = nt + (chance(70) ? below(3) : edge32() % (UINT32_MAX - nt)); if (ix < (uint32_t) nt) ix = nt; int j = below(n); for (int q = 0; q < 4; q++) cat[12 * j + q] = ix >> 8 * (3 - q); what = "bad.index"; }
                }
                buffer_t c = chunk(cat, l);
                r = ergo_tx_serializer_full_add_box_tokens(&ctx, &c);
                refused(what, r);
                return;
            }
            for (int j = 0; j < n; j++) {
                wv(o.idx[t + j]); wv(o.amt[t + j]);
                ev *e = expect('t'); e->type = typ; e->value = o.amt[t + j]; memcpy(e->id, ids[o.idx[t + j]], 32);
            }
            buffer_t c = chunk(cat, 12 * n);
            e0 = nev;
            r = ergo_tx_serializer_full_add_box_tokens(&ctx, &c);
            t += n;
            if (t == o.ntok && o.regs == 0) { w8(0); saw("noregs"); fin = true; expect('F')->type = typ; }
            if (hit(r, e0, "output tokens")) return;
            hash_fail_at = -1; cb_fail = 0;
            EXPECT(r == (t == o.ntok ? OK : MORE), GOOD(r) ? "serial.progress" : "serial.refused", "output tokens: %x", r);
            if (t < o.ntok) saw("chunks.tokens");
            if (!fin) { hashed("output tokens"); reported("output tokens"); EXPECT(!ergo_tx_serializer_full_is_finished(&ctx), "serial.finished", "finished after tokens"); }
        }
        for (uint32_t left = o.regs; left;) {
            if (turn(S_REGS, NULL, false)) return;
            size_t k = part_size();
            if (k > left) k = left;
            if (bad_at >= 0 && chance(3)) {
                fill(bytes, left + 2);
                buffer_t c = chunk(bytes, left + 1 + below(2));
                hash_fail_at = -1; cb_fail = 0;
                r = ergo_tx_serializer_full_add_box_registers(&ctx, &c);
                refused("bad.toomuch", r);
                return;
            }
            fill(bytes, k);
            buffer_t c = chunk(bytes, k);
            e0 = nev;
            r = ergo_tx_serializer_full_add_box_registers(&ctx, &c);
            w(bytes, k);
            left -= k;
            if (left) saw("chunks.regs"); else { fin = true; expect('F')->type = typ; }
            if (hit(r, e0, "registers")) return;
            hash_fail_at = -1; cb_fail = 0;
            EXPECT(r == (left ? MORE : OK), GOOD(r) ? "serial.progress" : "serial.refused", "registers: %x", r);
            if (left) { hashed("registers"); EXPECT(!ergo_tx_serializer_full_is_finished(&ctx), "serial.finished", "finished before the registers are complete"); }
        }
        EXPECT(fin, "serial.harness", "harness");
        hashed("output complete"); reported("output complete");
        EXPECT(ergo_tx_serializer_full_is_finished(&ctx) == (i + 1 == no), "serial.finished", "finished %d after output %d of %d", !(i + 1 == no), i + 1, no);
        if (i) saw("multi.output");
        mix(o.ntok); mix(o.kind); mix(o.regs); mix(o.tree);
    }
    mix(ni); mix(nd); mix(no); mix(nt);
    saw("tx");
    if (chance(50)) {   /* nothing more is accepted */
        dead_or_done:;
        uint8_t b[32] = {1};
        buffer_t c = chunk(b, 32);
        size_t h = hlog_len;
        r = chance(50) ? ergo_tx_serializer_full_add_box(&ctx, 1, 36, 1, 0, 0) : chance(50) ? ergo_tx_serializer_full_add_box_ergo_tree(&ctx, &c) : ergo_tx_serializer_full_add_data_inputs(&ctx, &c);
        EXPECT(!GOOD(r) && hlog_len == h, "serial.order", "a finished transaction accepted another step");
        saw("bad.order");
        if (0) goto dead_or_done;
    }
}
const uint8_t fee_tree[105] = {
    0x10, 0x05, 0x04, 0x00, 0x04, 0x00, 0x0e, 0x36, 0x10, 0x02, 0x04, 0xa0, 0x0b, 0x08, 0xcd, 0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87,
    0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98, 0xea, 0x02, 0xd1, 0x92, 0xa3, 0x9a, 0x8c, 0xc7, 0xa7, 0x01, 0x73, 0x00,
    0x73, 0x01, 0x10, 0x01, 0x02, 0x04, 0x02, 0xd1, 0x96, 0x83, 0x03, 0x01, 0x93, 0xa3, 0x8c, 0xc7, 0xb2, 0xa5, 0x73, 0x00, 0x00, 0x01, 0x93, 0xc2, 0xb2, 0xa5, 0x73, 0x01, 0x00, 0x74,
    0x73, 0x02, 0x73, 0x03, 0x83, 0x01, 0x08, 0xcd, 0xee, 0xac, 0x93, 0xb1, 0xa5, 0x73, 0x04};

/* a box on its own, as it is attested: full token ids, then transaction id and index, then its id */
static ergo_tx_serializer_box_context_t bx;
static ergo_tx_serializer_table_context_t bx_tc;
static const ergo_tx_serializer_table_context_t *bx_table;      /* tokens by index into a table, as in a transaction, or NULL */
static token_table_t *bx_tt;
#define BGOOD(r) ((r) == ERGO_TX_SERIALIZER_BOX_RES_OK || (r) == ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA)
static void box_dead(void) {
    uint8_t b[64] = {0}, id[32];
    hash_fail_at = -1; cb_fail = 0;
    int e = nev;
    size_t h = hlog_len;
    for (int i = 0; i < 6; i++) {
        buffer_t c = chunk(b, 1 + below(40));
        int r;
        unsigned k = below(6);
        switch (k) {
            case 0: r = ergo_tx_serializer_box_add_tree(&bx, &c); break;
            case 1: r = ergo_tx_serializer_box_add_miners_fee_tree(&bx, true); break;
            case 2: { uint8_t *k65 = exact(65); memset(k65, 4, 65); r = ergo_tx_serializer_box_add_change_tree(&bx, k65); break; }
            case 3: {
                buffer_t d = chunk(b, chance(50) ? 40 : 12);
                r = ergo_tx_serializer_box_add_tokens(&bx, chance(50) ? &d : &c, bx_table);
                break;
            }
            case 4: r = ergo_tx_serializer_box_add_registers(&bx, &c); break;
            default: r = ergo_tx_serializer_box_id_hash(&bx, b, 1, id); break;
        }
        EXPECT(!BGOOD(r), "serial.dead", "step of kind %u of a box accepted after an error", k);
        EXPECT(!ergo_tx_serializer_box_is_finished(&bx), "serial.dead", "box finished after an error");
    }
    EXPECT(hlog_len == h, "serial.dead", "%zu bytes hashed after the error", hlog_len - h);
    EXPECT(nev == e, "serial.dead", "%d reports after the error", nev - e);
    saw("box.dead");
}
static int box_bad, box_step;
/* maybe something fails during the next step */
static void box_turn(void) {
    if (box_step++ != box_bad) return;
    if (chance(50)) { hash_calls = 0; hash_fail_at = below(3); }
    else cb_fail = nev + 1 + below(2);
}
static bool box_hit(int r, int e0, const char *what) {
    bool hf = hash_fail_at >= 0 && hash_calls > hash_fail_at;
    bool cf = cb_fail && nev >= cb_fail && e0 < cb_fail;
    hash_fail_at = -1; cb_fail = 0;
    if (!hf && !cf) return false;
    EXPECT(!BGOOD(r), hf ? "serial.hasher" : "serial.callback", "%s of a box accepted though %s", what, hf ? "the hash function failed" : "the application refused it");
    saw(hf ? "bad.hasher" : "bad.callback");
    box_dead();
    return true;
}
static void box(void) {
    nev = nexp = cb_fail = 0; wl = 0; nscratch = 0;
    hash_fail_at = -1;
    box_bad = chance(60) ? -1 : (int) below(8); box_step = 0;
    uint8_t txid[32], id[32], ref[32];
    uint64_t value = edge64();
    uint32_t height = edge32(), tree = 1 + below(700), regs = chance(50) ? 0 : 1 + below(700);
    int nt = chance(40) ? 0 : chance(20) ? 20 : below(21), t, e0;
    int typ = chance(80) ? ERGO_TX_SERIALIZER_BOX_TYPE_TREE : chance(50) ? ERGO_TX_SERIALIZER_BOX_TYPE_FEE : ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE;
    uint16_t index = chance(50) ? below(300) : rnd();
    uint8_t *idp = exact(32), *tp = exact(32);
    fill(txid, 32); memcpy(tp, txid, 32);
    bx_table = NULL;
    unsigned distinct = 1 + below(20);
    if (chance(35)) {
        /* the table may hold more ids (of the inputs) than the transaction declares */
        bx_tt = (token_table_t *) exact(sizeof *bx_tt);
        memset(bx_tt, 0, sizeof *bx_tt);
        bx_tt->count = distinct + below(21 - distinct);
        for (int i = 0; i < bx_tt->count; i++) fill(bx_tt->tokens[i], 32);
        bx_tc.tokens_table = bx_tt;
        bx_tc.distinct_tokens_count = distinct;
        bx_table = &bx_tc;
        saw("box.table");
    }
    log_reset();
    EXPECT(ergo_tx_serializer_box_id_hash_init(&hash), "serial.refused", "hash");
    if (chance(3)) {
        unsigned k = below(3);
        uint32_t big = 32769 + (chance(50) ? below(3) : edge32() % 0x7FFF0000u);
        int q = ergo_tx_serializer_box_init(&bx, value, k == 0 ? big : tree, height, k == 1 ? 21 + below(235) : nt, k == 2 ? big : regs, &hash);
        EXPECT(!BGOOD(q), "serial.accepted", "%s", k == 1 ? "a box of more than 20 tokens" : "a box with parts too long");
        saw(k == 1 ? "bad.counts" : "bad.size");
        box_dead();
        return;
    }
    int r;
    if (box_bad == 0 && chance(30)) {
        hash_calls = 0; hash_fail_at = 0;
        r = ergo_tx_serializer_box_init(&bx, value, tree, height, nt, regs, &hash);
        box_hit(r, 0, "beginning");
        return;
    }
    r = ergo_tx_serializer_box_init(&bx, value, tree, height, nt, regs, &hash);
    EXPECT(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "serial.refused", "box refused");
    ergo_tx_serializer_box_set_callbacks(&bx, on_type, on_token, on_finished, &cb_tag);
    wv(value);
    int early = chance(25) ? (int) below(4) : -1;
#define EARLY(n) if (early == n && !ergo_tx_serializer_box_is_finished(&bx)) { \
        int q = ergo_tx_serializer_box_id_hash(&bx, tp, index, idp); EXPECT(q != ERGO_TX_SERIALIZER_BOX_RES_OK, "serial.order", "box id given before the box is complete"); saw("boxid.early"); \
        EXPECT(!ergo_tx_serializer_box_is_finished(&bx), "serial.finished", "finished after an error"); box_dead(); return; }
    EARLY(0)
    if (typ != ERGO_TX_SERIALIZER_BOX_TYPE_TREE) {
        box_turn(); e0 = nev;
        if (typ == ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE) {
            uint8_t *k = exact(65);
            fill(k, 65);
            r = ergo_tx_serializer_box_add_change_tree(&bx, k);
            w8(0); w8(8); w8(0xcd); w8(k[64] & 1 ? 3 : 2); w(k + 1, 32);
        } else {
            r = ergo_tx_serializer_box_add_miners_fee_tree(&bx, chance(50));
            w(fee_tree, 105);
        }
        if (box_hit(r, e0, "key or fee script")) return;
        EXPECT(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "serial.progress", "key or fee script of a box: %x", r);
    } else
    for (uint32_t left = tree; left;) {
        size_t k = part_size();
        if (k < 255) k = 255;
        if (k > left) k = left;
        if (chance(2)) {
            bool small = chance(50) && left > 1;
            size_t q = small ? 1 + below(left - 1 > 254 ? 254 : left - 1) : left + 1 + below(3);
            fill(bytes, q);
            buffer_t b = chunk(bytes, q);
            r = ergo_tx_serializer_box_add_tree(&bx, &b);
            EXPECT(!BGOOD(r), "serial.accepted", "script chunk of %zu bytes accepted with %u due", q, left);
            saw(small ? "bad.small" : "bad.toomuch");
            box_dead();
            return;
        }
        fill(bytes, k);
        buffer_t b = chunk(bytes, k);
        box_turn(); e0 = nev;
        r = ergo_tx_serializer_box_add_tree(&bx, &b);
        if (box_hit(r, e0, "script")) return;
        w(bytes, k);
        left -= k;
        EXPECT(r == (left ? ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA : ERGO_TX_SERIALIZER_BOX_RES_OK), "serial.progress", "box script: %x", r);
    }
    wv(height); w8(nt);
    ev *e = expect('T'); e->type = typ; e->value = value;
    if (!nt && !regs) { w8(0); expect('F')->type = typ; }
    hashed("box script"); reported("box script");
    EARLY(1)
    const int pair = bx_table ? 12 : 40;
    for (t = 0; t < nt;) {
        int n = 1 + below(nt - t > 6 ? 6 : nt - t);
        for (int j = 0; j < n; j++) {
            uint64_t v = edge64();
            uint8_t *p = bytes + pair * j;
            e = expect('t'); e->type = typ; e->value = v;
            if (bx_table) {
                uint32_t k = below(distinct);
                for (int q = 0; q < 4; q++) p[q] = k >> 8 * (3 - q);
                wv(k);
                memcpy(e->id, bx_tt->tokens[k], 32);
            } else {
                fill(p, 32);
                w(p, 32);
                memcpy(e->id, p, 32);
            }
            for (int q = 0; q < 8; q++) p[pair - 8 + q] = v >> 8 * (7 - q);
            wv(v);
        }
        if (chance(5)) {
            unsigned kind = below(bx_table ? 3 : 2);
            if (kind == 0) for (int j = 0; j <= nt - t; j++) memset(bytes + pair * j, 0, pair);
            if (kind == 2) {
                uint32_t k = chance(60) ? distinct : distinct + edge32() % 0x7FFFFFFFu;
                for (int q = 0; q < 4; q++) bytes[pair * (n - 1) + q] = k >> 8 * (3 - q);
            }
            buffer_t b = chunk(bytes, kind == 0 ? pair * (nt - t + 1) : kind == 2 ? pair * n : pair * n - 1 - below(pair - 1));
            r = ergo_tx_serializer_box_add_tokens(&bx, &b, bx_table);
            EXPECT(!BGOOD(r) && !ergo_tx_serializer_box_is_finished(&bx), "serial.accepted", "%s tokens of a box accepted", kind == 0 ? "too many" : kind == 1 ? "cut" : "undeclared");
            saw(kind == 0 ? "bad.tokens" : kind == 1 ? "bad.cut" : "bad.index");
            box_dead();
            return;
        }
        buffer_t b = chunk(bytes, pair * n);
        box_turn(); e0 = nev;
        r = ergo_tx_serializer_box_add_tokens(&bx, &b, bx_table);
        if (box_hit(r, e0, "tokens")) return;
        t += n;
        EXPECT(r == (t < nt ? ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA : ERGO_TX_SERIALIZER_BOX_RES_OK), "serial.progress", "box tokens: %x", r);
    }
    if (nt && !regs) { w8(0); expect('F')->type = typ; }
    if (nt) { hashed("box tokens"); reported("box tokens"); }
    EARLY(2)
    for (uint32_t left = regs; left;) {
        size_t k = part_size();
        if (k > left) k = left;
        fill(bytes, left + 1 + below(3));
        if (chance(2)) {
            buffer_t b = chunk(bytes, left + 1);
            r = ergo_tx_serializer_box_add_registers(&bx, &b);
            EXPECT(!BGOOD(r), "serial.accepted", "more registers than declared accepted");
            saw("bad.toomuch");
            box_dead();
            return;
        }
        buffer_t b = chunk(bytes, k);
        box_turn(); e0 = nev;
        r = ergo_tx_serializer_box_add_registers(&bx, &b);
        if (box_hit(r, e0, "registers")) return;
        w(bytes, k);
        left -= k;
        if (!left) expect('F')->type = typ;
        EXPECT(r == (left ? ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA : ERGO_TX_SERIALIZER_BOX_RES_OK), "serial.progress", "box registers: %x", r);
        EXPECT(ergo_tx_serializer_box_is_finished(&bx) == !left, "serial.finished", "box finished with %u bytes of registers due", left);
    }
    EXPECT(ergo_tx_serializer_box_is_finished(&bx), "serial.finished", "the box is complete and not finished");
    hashed("box"); reported("box");
    if (chance(5)) {
        hash_calls = 0; hash_fail_at = below(3);
        r = ergo_tx_serializer_box_id_hash(&bx, tp, index, idp);
        box_hit(r, nev, "id");
        return;
    }
    r = ergo_tx_serializer_box_id_hash(&bx, tp, index, idp);
    EXPECT(r == ERGO_TX_SERIALIZER_BOX_RES_OK, "serial.refused", "box id refused");
    w(txid, 32); wv(index);
    hashed("box id");
    ref_blake2b256(want, wl, ref);
    memcpy(id, idp, 32);
    EXPECT(memcmp(id, ref, 32) == 0, "serial.boxid", "box id %s, expected %s", hex(id, 32), hex(ref, 32));
    saw("box"); saw("boxid");
    r = ergo_tx_serializer_box_id_hash(&bx, tp, index, idp);
    EXPECT(r != ERGO_TX_SERIALIZER_BOX_RES_OK, "serial.order", "box id given twice");
    mix(nt); mix(tree); mix(regs);
}

/* an input on its own */
static ergo_tx_serializer_input_context_t ix;
#define IGOOD(r) ((r) == ERGO_TX_SERIALIZER_INPUT_RES_OK || (r) == ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA)
static void input_dead(int r, const char *what) {
    static const uint8_t b[80];
    EXPECT(!IGOOD(r), "serial.accepted", "input: %s accepted", what);
    EXPECT(!ergo_tx_serializer_input_is_finished(&ix), "serial.finished", "input finished after %s", what);
    saw(what);
    hash_fail_at = -1; cb_fail = 0;
    int e = nev;
    size_t h = hlog_len;
    for (int i = 0; i < 5; i++) {
        buffer_t c = chunk(b, 40 * below(3));
        buffer_t x = chunk(b, below(60));
        uint8_t own[32];
        memcpy(own, ix.box_id, 32);
        bool ext = chance(50);
        r = ext ? ergo_tx_serializer_input_add_context_extension(&ix, &x) : ergo_tx_serializer_input_add_tokens(&ix, own, chance(70) ? ix.frames_processed : below(6), &c);
        EXPECT(!IGOOD(r), "serial.dead", "%s of an input accepted after an error", ext ? "context extension" : "frame");
        EXPECT(!ergo_tx_serializer_input_is_finished(&ix), "serial.dead", "input finished after an error");
    }
    EXPECT(hlog_len == h, "serial.dead", "%zu bytes hashed after the error", hlog_len - h);
    EXPECT(nev == e, "serial.dead", "%d reports after the error", nev - e);
    saw("input.dead");
}
static bool input_hit(int r, int e0, const char *what) {
    bool hf = hash_fail_at >= 0 && hash_calls > hash_fail_at, cf = cb_fail && nev >= cb_fail && e0 < cb_fail;
    hash_fail_at = -1; cb_fail = 0;
    if (!hf && !cf) return false;
    EXPECT(!IGOOD(r), hf ? "serial.hasher" : "serial.callback", "%s of an input accepted though %s", what, hf ? "the hash function failed" : "the application refused it");
    input_dead(r, hf ? "bad.hasher" : "bad.callback");
    return true;
}
static void input(void) {
    nev = nexp = cb_fail = 0; wl = 0; nscratch = 0;
    hash_fail_at = -1;
    uint8_t id[32];
    fill(id, 32);
    int frames = 1 + (chance(60) ? below(6) : chance(20) ? below(255) : 0), r, e0;
    uint32_t ext = chance(40) ? 0 : chance(5) ? 32768 - below(2) : 2 + below(900);
    int bad = chance(40) ? -1 : (int) below(8), at = bad < 0 ? -1 : (int) below(frames > 6 ? 6 : frames + 1);
    log_reset();
    memset(&table, 0, sizeof table);
    if (!blake2b_256_init(&hash)) fail("serial.hasher", "no hash");
    if (chance(3)) {
        r = ergo_tx_serializer_input_init(&ix, id, frames, chance(50) ? 1 : 32769 + (chance(50) ? below(5) : edge32() % 0x7FFF0000u), &table, &hash);
        input_dead(r, "bad.size");
        return;
    }
    r = ergo_tx_serializer_input_init(&ix, id, frames, ext, &table, &hash);
    EXPECT(r == ERGO_TX_SERIALIZER_INPUT_RES_OK, "serial.refused", "input of %d frames and %u bytes of context extension", frames, ext);
    if (chance(90)) ergo_tx_serializer_input_set_callback(&ix, on_input, &cb_tag); else cb_tag = 1;
    bool silent = cb_tag; cb_tag = 0;
    EXPECT(!ergo_tx_serializer_input_is_finished(&ix), "serial.finished", "input finished before its first frame");
    for (int f = 0; f < frames; f++) {
        int k = frames > 6 ? below(2) : below(6);
        uint8_t cat[40 * 6], id2[32];
        memcpy(id2, id, 32);
        for (int j = 0; j < k; j++) {
            uint64_t v = edge64();
            fill(cat + 40 * j, 32);
            for (int q = 0; q < 8; q++) cat[40 * j + 32 + q] = v >> 8 * (7 - q);
        }
        int q = f == at ? bad : -1, idx = f;
        size_t len = 40 * k;
        const char *what = NULL;
        if (q == 0) { id2[below(32)] ^= 1u << below(8); what = "bad.box"; }
        if (q == 1) { idx = chance(50) ? f + 1 + below(3) : chance(50) ? frames + below(3) : (f + 255) & 255; if (idx > 255) idx = 255; what = "bad.frame"; if (idx == f) return; }
        if (q == 2 && k) { len -= 1 + below(39); what = "bad.cut"; }
        if (q == 3) {
            buffer_t c = chunk(cat, 0);
            r = ergo_tx_serializer_input_add_context_extension(&ix, &c);
            input_dead(r, "bad.order");
            return;
        }
        for (int j = 0; j < (int) (len / 40) && !silent && q != 0 && q != 1; j++) {
            ev *e = expect('i');
            memcpy(e->id, cat + 40 * j, 32); memcpy(e->box, id, 32);
            for (int z = 0; z < 8; z++) e->value = e->value << 8 | cat[40 * j + 32 + z];
        }
        if (nexp > 560) return;
        if (q == 4 && f + 1 == frames) { hash_calls = 0; hash_fail_at = below(3); }
        if (q == 5 && k && !silent) cb_fail = nev + 1 + below(k);
        e0 = nev;
        buffer_t c = chunk(cat, len);
        r = ergo_tx_serializer_input_add_tokens(&ix, id2, idx, &c);
        if (what) { input_dead(r, what); return; }
        if (input_hit(r, e0, "frame")) return;
        bool last = f + 1 == frames;
        if (last) { w(id, 32); w8(0); if (!ext) w8(0); }
        EXPECT(r == (last ? ERGO_TX_SERIALIZER_INPUT_RES_OK : ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA), "serial.progress", "frame %d of %d of an input: %x", f, frames, r);
        EXPECT(ergo_tx_serializer_input_is_finished(&ix) == (last && !ext), "serial.finished", "input finished, or not, after frame %d of %d with %u bytes of context extension due", f, frames, ext);
        hashed("input alone"); reported("input alone");
    }
    for (uint32_t left = ext; left;) {
        size_t k = part_size();
        if (k > left) k = left;
        fill(bytes, left + 2);
        if (bad == 6 && chance(30)) {
            buffer_t c = chunk(bytes, left + 1);
            r = ergo_tx_serializer_input_add_context_extension(&ix, &c);
            input_dead(r, "bad.toomuch");
            return;
        }
        if (bad == 3 && chance(30)) {
            buffer_t c = chunk(bytes, 0);
            r = ergo_tx_serializer_input_add_tokens(&ix, id, frames & 255, &c);
            input_dead(r, "bad.order");
            return;
        }
        if (bad == 4 && chance(30)) { hash_calls = 0; hash_fail_at = 0; }
        buffer_t c = chunk(bytes, k);
        r = ergo_tx_serializer_input_add_context_extension(&ix, &c);
        if (input_hit(r, nev, "context extension")) return;
        w(bytes, k);
        left -= k;
        EXPECT(r == (left ? ERGO_TX_SERIALIZER_INPUT_RES_MORE_DATA : ERGO_TX_SERIALIZER_INPUT_RES_OK), "serial.progress", "context extension of an input, %u bytes due: %x", left, r);
        EXPECT(ergo_tx_serializer_input_is_finished(&ix) == !left, "serial.finished", "input finished, or not, with %u bytes of context extension due", left);
        hashed("input alone");
    }
    if (chance(30)) {
        buffer_t c = chunk(id, chance(50) ? 0 : 20);
        r = chance(50) ? ergo_tx_serializer_input_add_context_extension(&ix, &c) : ergo_tx_serializer_input_add_tokens(&ix, id, frames & 255, &c);
        input_dead(r, "bad.order");
        return;
    }
    saw("input");
    mix(frames); mix(ext);
}

/* how long a frame is: declared by its token count, never longer than what is there */
static void frame(void) {
    size_t have = chance(60) ? 59 + 40 * below(6) - 1 + below(3) : below(300);
    uint8_t *p = exact(have);
    fill(p, have);
    unsigned n = chance(75) ? below(6) : rnd() & 255;
    if (have > 42) p[42] = n;
    size_t before = below(3);
    (void) before;
    buffer_t b;
    buffer_init(&b, p, have);
    bool ok = have >= 59 && n <= 4 && have >= 59 + 40 * n;
    unsigned l = input_frame_data_length(&b);
    const uint8_t *s = input_frame_signature_ptr(&b);
    EXPECT(l == (ok ? 43 + 40 * n : 0), "frame.length", "%zu bytes with %u tokens: length %u", have, n, l);
    EXPECT(s == (ok ? p + 43 + 40 * n : NULL), "frame.mac", "%zu bytes with %u tokens: authentication code at %td", have, n, s ? s - p : -1);
    EXPECT(b.offset == 0 && b.size == have, "frame.moved", "the buffer was moved");
    saw(ok ? "frame" : n > 4 ? "frame.many" : "frame.short");
    mix(have); mix(n);
}

void one_case(uint64_t i) { switch (i % 10) { case 8: case 9: input(); break; case 0: case 1: case 2: case 3: case 4: tx(); break; case 5: case 6: box(); break; default: frame(); } }

#!/usr/bin/env python3
"""Rewrites that keep the behaviour, in a scratch copy; every check has to stay quiet.  usage: refactor.py [-c CHECK,..] [NAME..]"""
import os, re, shutil, subprocess, sys, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}; ONLY = set()
def rf(name, *edits): R[name] = edits

rf('full_helper',
   ('ergo/tx_ser_full.c', '''ergo_tx_serializer_full_result_e ergo_tx_serializer_full_init(
''', '''static ergo_tx_serializer_full_result_e box_progress(ergo_tx_serializer_full_context_t* context) {
    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
        return ERGO_TX_SERIALIZER_FULL_RES_OK;
    }
    return output_finished(context);
}

ergo_tx_serializer_full_result_e ergo_tx_serializer_full_init(
'''), ('ergo/tx_ser_full.c', '''    if (ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
        return output_finished(context);
    }
    return ERGO_TX_SERIALIZER_FULL_RES_OK;
}
''', '''    return box_progress(context);
}
''', 2))
rf('full_loop', ('ergo/tx_ser_full.c', '''    while (buffer_data_len(inputs) > 0) {
        if (context->data_inputs_count == 0) {
            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);
        }
        uint8_t box_id[ERGO_ID_LEN];
''', '''    uint8_t box_id[ERGO_ID_LEN];
    for (; buffer_data_len(inputs) != 0; --context->data_inputs_count) {
        if (context->data_inputs_count < 1) {
            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);
        }
'''), ('ergo/tx_ser_full.c', '''        context->data_inputs_count--;
    }
''', '''    }
'''))
rf('amounts', ('commands/signtx/stx_amounts.c', '''    switch (type) {
        case ERGO_TX_SERIALIZER_BOX_TYPE_CHANGE: {
            if (!checked_sub_u64(ctx->value, value, &ctx->value)) {  // decrease TX out value.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }
            break;
        }
        case ERGO_TX_SERIALIZER_BOX_TYPE_FEE:
            if (!checked_sub_u64(ctx->value, value, &ctx->value)) {  // decrease TX out value.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }
            if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
            }
            break;
        case ERGO_TX_SERIALIZER_BOX_TYPE_TREE:
            // Do nothing
            break;
    }
    return''', '''    if (type == ERGO_TX_SERIALIZER_BOX_TYPE_TREE) return ERGO_TX_SERIALIZER_BOX_RES_OK;
    uint64_t rest = 0;
    if (!checked_sub_u64(ctx->value, value, &rest)) return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
    ctx->value = rest;
    if (type == ERGO_TX_SERIALIZER_BOX_TYPE_FEE && !checked_add_u64(ctx->fee, value, &ctx->fee)) {
        return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
    }
    return'''), ('commands/signtx/stx_amounts.c', '''    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] != 0) count++;
    }
''', '''    uint8_t i = TOKEN_MAX_COUNT;
    while (i-- > 0) {
        count += ctx->tokens[i] == 0 ? 0 : 1;
    }
'''), ('commands/signtx/stx_amounts.c', '''    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] != 0 && count++ == zero_index) return i;
    }
    return INDEX_NOT_EXIST;''', '''    uint8_t i = 0;
    while (i < TOKEN_MAX_COUNT) {
        if (ctx->tokens[i] != 0) {
            if (zero_index == 0) return i;
            zero_index--;
        }
        i++;
    }
    return INDEX_NOT_EXIST;'''))
rf('schnorr', ('ergo/schnorr.c', '''bool ergo_secp256k1_schnorr_p2pk_sign_init(''', '''static bool scalar_ok(const uint8_t s[static PRIVATE_KEY_LEN]) {
    int cmp_diff;
    if (cx_math_is_zero(s, PRIVATE_KEY_LEN)) return false;
    return cx_math_cmp_no_throw(s, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) == 0 && cmp_diff <= 0;
}

static bool mul_base(uint8_t buf[static PUBLIC_KEY_LEN], const uint8_t s[static PRIVATE_KEY_LEN]) {
    buf[0] = 0x04;
    for (size_t i = 0; i < sizeof(SECP256K1_G); i++) buf[1 + i] = ((const uint8_t*) PIC(SECP256K1_G))[i];
    if (cx_ecfp_scalar_mult_no_throw(CX_CURVE_SECP256K1, buf, s, PRIVATE_KEY_LEN) != 0) return false;
    buf[0] = 0x02 | (buf[PUBLIC_KEY_LEN - 1] & 1);
    return true;
}

bool ergo_secp256k1_schnorr_p2pk_sign_init('''),
   ('ergo/schnorr.c', '''            int cmp_diff;
            // check private key has a proper value
            if (cx_math_is_zero(secret, PRIVATE_KEY_LEN)) break;
            if (cx_math_cmp_no_throw(secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;

            // pk = G * secret (pub key)
            buf[0] = 0x04;
            memcpy(buf + 1, PIC(SECP256K1_G), sizeof(SECP256K1_G));
            if (cx_ecfp_scalar_mult_no_throw(CX_CURVE_SECP256K1, buf, secret, PRIVATE_KEY_LEN) != 0)
                break;
            // compress pk
            buf[0] = (buf[PUBLIC_KEY_LEN - 1] & 1) == 1 ? 0x03 : 0x02;
''', '''            if (!scalar_ok(secret) || !mul_base(buf, secret)) break;
'''), ('ergo/schnorr.c', '''            if (cx_math_is_zero(key, PRIVATE_KEY_LEN)) break;
            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;

            // w = G * y (pub key)
            buf[0] = 0x04;
            memcpy(buf + 1, PIC(SECP256K1_G), sizeof(SECP256K1_G));
            if (cx_ecfp_scalar_mult_no_throw(CX_CURVE_SECP256K1, buf, key, PRIVATE_KEY_LEN) != 0)
                break;
            // compress w
            buf[0] = (buf[PUBLIC_KEY_LEN - 1] & 1) == 1 ? 0x03 : 0x02;
''', '''            if (!scalar_ok(key)) break;
            if (!mul_base(buf, key)) break;
'''))
rf('crypto', ('helpers/crypto.c', '''        memmove(private_key, ecfp_private_key.d, PRIVATE_KEY_LEN);
''', '''        for (size_t i = 0; i < PRIVATE_KEY_LEN; i++) {
            private_key[i] = ecfp_private_key.d[i];
        }
'''), ('helpers/crypto.c', '''    explicit_bzero(&ecfp_private_key, sizeof(ecfp_private_key));
    explicit_bzero(chain_code, CHAIN_CODE_LEN);
''', '''    explicit_bzero(chain_code, CHAIN_CODE_LEN);
    explicit_bzero(&ecfp_private_key, sizeof(ecfp_private_key));
'''), ('helpers/crypto.c', '''uint16_t crypto_derive_private_key(''', '''static cx_err_t node_key(const uint32_t *path, uint8_t len, uint8_t raw[static 64], uint8_t *chain_code) {
    return os_derive_bip32_no_throw(CX_CURVE_256K1, path, len, raw, chain_code);
}

uint16_t crypto_derive_private_key('''), ('helpers/crypto.c', '''    cx_err_t result = os_derive_bip32_no_throw(CX_CURVE_256K1,
                                               bip32_path,
                                               bip32_path_len,
                                               raw_private_key,
                                               chain_code);
    if (result != CX_OK) {
        return (uint16_t) result;
    }
''', '''    cx_err_t result = node_key(bip32_path, bip32_path_len, raw_private_key, chain_code);
    if (result != CX_OK) {
        explicit_bzero(raw_private_key, sizeof(raw_private_key));
        return (uint16_t) result;
    }
'''))
rf('frame', ('commands/attestinput/ainpt_response.c', '''    uint8_t tokens_count = (ctx->tokens_table.count - index * FRAME_MAX_TOKENS_COUNT);
    tokens_count = MIN(tokens_count, FRAME_MAX_TOKENS_COUNT);
    CHECK_WRITE_PARAM(rw_buffer_write_u8(&output, tokens_count));

    uint8_t offset = index * FRAME_MAX_TOKENS_COUNT;
    for (uint8_t i = offset; i < offset + tokens_count; i++) {
''', '''    const uint8_t offset = index * FRAME_MAX_TOKENS_COUNT;
    const uint8_t end = MIN(ctx->tokens_table.count, offset + FRAME_MAX_TOKENS_COUNT);
    CHECK_WRITE_PARAM(rw_buffer_write_u8(&output, end - offset));

    for (uint8_t i = offset; i != end; ++i) {
'''))
rf('flow', ('ui/ui_dynamic_flow.c', '''#define DISPLAY_DYNAMIC_STATE(switch_method)                                                      \\
    do {                                                                                          \\
        uint16_t res = G_dynamic_flow_context.show_cb(G_dynamic_flow_context.current_screen,      \\
                                                      (char *) G_ui_dynamic_step_params[0].title, \\
                                                      (char *) G_ui_dynamic_step_params[0].text,  \\
                                                      G_dynamic_flow_context.cb_context);         \\
        if (res == SW_OK) {                                                                       \\
            switch_method();                                                                      \\
        } else {                                                                                  \\
            app_set_current_command(CMD_NONE);                                                    \\
            res_error(res);                                                                       \\
            ui_menu_main();                                                                       \\
        }                                                                                         \\
    } while (0)
''', '''static void display_dynamic_state(void (*switch_method)(void)) {
    struct ui_dynamic_flow_ctx_t *flow = &G_dynamic_flow_context;
    uint16_t res = flow->show_cb(flow->current_screen,
                                 (char *) G_ui_dynamic_step_params[0].title,
                                 (char *) G_ui_dynamic_step_params[0].text,
                                 flow->cb_context);
    if (res != SW_OK) {
        app_set_current_command(CMD_NONE);
        res_error(res);
        ui_menu_main();
        return;
    }
    switch_method();
}
#define DISPLAY_DYNAMIC_STATE(switch_method) display_dynamic_state(switch_method)
'''))
rf('gve', ('common/gve.c', '''    *val = 0;
    uint8_t byte = 0;
    size_t shift = 0;
    gve_result_e res = GVE_ERR_DATA_SIZE;
    while (shift < 64) {
        if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
        *val |= (uint64_t) (byte & 0x7F) << shift;
        if ((byte & 0x80) == 0) return GVE_OK;
        shift += 7;
    }
    return res == GVE_OK ? GVE_ERR_INT_TO_BIG : res;  // OK here: no last byte found
''', '''    uint8_t byte = 0x80;
    *val = 0;
    for (size_t shift = 0; shift < 64; shift += 7) {
        gve_result_e res = gve_get_u8(buffer, &byte);
        if (res != GVE_OK) return res;
        *val += ((uint64_t) (byte % 128)) << shift;
        if (byte < 128) return GVE_OK;
    }
    return GVE_ERR_INT_TO_BIG;
'''), ('common/gve.c', '''    size_t i = 0;
    do {
        uint8_t byte = val & 0x7FU;
        val >>= 7;
        if (val) byte |= 0x80U;
        out[i++] = byte;
    } while (val);
''', '''    size_t i = 0;
    for (; val > 0x7F; val >>= 7) out[i++] = (uint8_t) (val | 0x80U);
    out[i++] = (uint8_t) val;
'''))
rf('rwbuffer', ('common/rwbuffer.c', '''    if (offset > buffer->size) {
        return false;
    }
    buffer->read.size = buffer->size - offset;
    return true;
''', '''    return offset <= buffer->size && rw_buffer_seek_write_set(buffer, buffer->size - offset);
'''), ('common/rwbuffer.c', '''    if (rw_buffer_read_position(buffer) == 0) return;
    size_t data_len = rw_buffer_data_len(buffer);
    memmove((uint8_t *) buffer->read.ptr, rw_buffer_read_ptr(buffer), data_len);
''', '''    const size_t from = rw_buffer_read_position(buffer);
    if (from == 0) return;
    const size_t data_len = rw_buffer_data_len(buffer);
    uint8_t *base = (uint8_t *) buffer->read.ptr;
    for (size_t i = 0; i < data_len; i++) base[i] = base[from + i];
'''))
rf('bip32', ('common/bip32_ext.c', '''bool bip32_path_validate(''', '''static bool hardened_from(const uint32_t *path, uint8_t from, uint8_t to) {
    while (from < to) {
        if ((path[from++] >> 31) == 0) return false;
    }
    return true;
}

bool bip32_path_validate('''), ('common/bip32_ext.c', '''            if (bip32_path_len < 3) {
                return false;
            }
            for (uint8_t i = 2; i < bip32_path_len; i++) {
                if (bip32_path[i] < BIP32_HARDENED_CONSTANT) {
                    return false;
                }
            }
            return true;
''', '''            return bip32_path_len >= 3 && hardened_from(bip32_path, 2, bip32_path_len);
'''), ('common/bip32_ext.c', '''            for (uint8_t i = 2; i < bip32_path_len; i++) {
                if (bip32_path[i] < BIP32_HARDENED_CONSTANT) {
                    return false;
                }
            }
            return true;
''', '''            return hardened_from(bip32_path, 2, bip32_path_len);
'''))
rf('table', ('ergo/tx_ser_table.c', '''    while (buffer_data_len(tokens) > 0) {
        ergo_tx_serializer_table_result_e res =
            parse_token(tokens, context->tokens_table, context->distinct_tokens_count);
        if (res != ERGO_TX_SERIALIZER_TABLE_RES_OK) {
            return res;
        }
    }
    if (ergo_tx_serializer_table_is_finished(context)) {
        return ERGO_TX_SERIALIZER_TABLE_RES_OK;
    }
    return ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA;
''', '''    ergo_tx_serializer_table_result_e res = ERGO_TX_SERIALIZER_TABLE_RES_OK;
    while (res == ERGO_TX_SERIALIZER_TABLE_RES_OK && buffer_data_len(tokens) > 0) {
        res = parse_token(tokens, context->tokens_table, context->distinct_tokens_count);
    }
    if (res == ERGO_TX_SERIALIZER_TABLE_RES_OK && !ergo_tx_serializer_table_is_finished(context)) {
        res = ERGO_TX_SERIALIZER_TABLE_RES_MORE_DATA;
    }
    return res;
'''))
rf('comments', *[(f, None, '\n/* a remark at the end */\n') for f in
   ('ergo/schnorr.c', 'helpers/crypto.c', 'commands/signtx/stx_ui.c', 'commands/signtx/stx_handler.c', 'commands/attestinput/ainpt_handler.c', 'context.c', 'app_main.c')])
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(os.path.join(HERE, 'refactor2.py')): exec(open(os.path.join(HERE, 'refactor2.py')).read())

def main():
    a = sys.argv[1:]; checks = ['P%02d' % i for i in range(1, 29)]
    if a and a[0] == '-c': checks = a[1].split(','); a = a[2:]
    names = a or ['ALL']
    todo = [(n, R[n]) for n in names] if names != ['ALL'] else [('all together', [e for k, v in R.items() if k not in ONLY for e in v])]
    for name, edits in todo:
        tmp = tempfile.mkdtemp(prefix='ref-')
        r = os.path.join(tmp, 'repo'); shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('build', '_build'))
        for f, old, new, *n in edits:
            if f == '*':
                for d, _, fs in os.walk(os.path.join(r, 'src')):
                    for x in fs:
                        p = os.path.join(d, x); t = open(p).read()
                        if old in t: open(p, 'w').write(t.replace(old, new))
                continue
            p = os.path.join(r, 'src', f); s = open(p).read()
            if old is None: s += new
            else:
                c = s.count(old)
                if c != (n[0] if n else 1): sys.exit('%s: %d places in %s for %s' % (name, c, f, old))
                s = s.replace(old, new)
            open(p, 'w').write(s)
        subprocess.run(['cmake', '-S', r + '/unit-tests', '-B', r + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=ON'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, CC='gcc'))
        b = subprocess.run(['ninja', '-C', r + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode: print(b.stdout.decode()[-2000:]); sys.exit(1)
        u = subprocess.run(['python3', '/opt/vp/run_cmocka.py', r + '/_build'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
        print(name, 'unit tests: %d pass, %d fail' % (u.count('PASS '), u.count('FAIL ')), [l for l in u.splitlines() if l.startswith('FAIL')][:4])
        v = os.path.join(tmp, 'verif'); shutil.copytree(V, v, ignore=shutil.ignore_patterns('seeded', 'build', '.git', 'evidence'))
        for c in checks:
            x = subprocess.run([os.path.join(v, 'check'), c, 'quick'], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_TIER='quick', VERIF_SEED='1'))
            o = x.stdout.decode(errors='replace').strip().splitlines()
            noisy = x.returncode != 0 or any(l.startswith(('KNOWN', 'VIOLATION')) for l in o)
            print('  %s %s exit %d  %s' % ('NOISY' if noisy else 'quiet', c, x.returncode, ' | '.join(o)[:600] if noisy else o[0] if o else '')); sys.stdout.flush()
        shutil.rmtree(tmp)
main()

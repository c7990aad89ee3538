"""Planted changes: each breaks one property, compiles, and passes the repository's tests.  mkseed.py turns them into /verif/seeded."""
SEEDS = []
def S(id, edits, needs, what, demo, property=None):
    SEEDS.append(dict(id=id, property=property or id.split('_')[0].upper(), edits=edits, needs=needs, what=what, demo=demo))
OP = 'commands/signtx/operations/stx_op_p2pk.c'
UI = 'commands/signtx/stx_ui.c'
HD = 'commands/signtx/stx_handler.c'
OU = 'commands/signtx/stx_output.c'
AM = 'commands/signtx/stx_amounts.c'
BOX, INP, FULL, TAB = 'ergo/tx_ser_box.c', 'ergo/tx_ser_input.c', 'ergo/tx_ser_full.c', 'ergo/tx_ser_table.c'
SIMPLE = '''
def refused(r, why):
    if r is None: return why + ': a prompt came'
    if r[0] == 0x9000: return why + ': accepted'
'''

# ------------------------------------------------------------------ P01
S('p01_tokens_hash', [(TAB, 'for (uint8_t i = 0; i < context->distinct_tokens_count; i++) {', 'for (uint8_t i = 0; i < context->tokens_table->count; i++) {')],
  'an input carrying a token that no output carries (a burned token), so that the table has more entries than were announced',
  'the identifiers of burned tokens are hashed too, the signature is for other bytes than the transaction', '''
def f():
    d = D()
    A, B = ids(5, 6)
    t = Tx(d, [Box(10**9, [(A, 5), (B, 7)])], [(999 * 10**6, 'tree', script(40), [(0, 5)]), (10**6, 'fee')], [A])
    t.go()
    return None if t.good() else 'the signature is not for this transaction'
main(f)
''')
S('p01_start_twice', [(OP, '''    CHECK_PROPER_STATE(ctx, SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED);
    CHECK_TX_CALL_RESULT_OK(ctx,
                            ergo_tx_serializer_full_init(''', '''    CHECK_PROPER_STATES(ctx,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_INITIALIZED,
                        SIGN_TRANSACTION_OPERATION_P2PK_STATE_TX_STARTED);
    CHECK_TX_CALL_RESULT_OK(ctx,
                            ergo_tx_serializer_full_init(''')],
  'the host sends "start transaction" twice in one session, before any token or input',
  'the counts are hashed twice, so a signature for something that is not the streamed transaction is returned', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    fr = d.attest(t.ins[0][0])
    s = d.sign_open()
    d.start(s, 1, 0, 0, 1)
    r = d.apdu(0x21, 0x10, s, be(1, 2) + be(0, 2) + be(0, 1) + be(1, 2))
    if r is None or r[0] != 0x9000: return None
    d.inp(s, fr); d.out(s, 10**9, 'tree', script(40))
    sig = d.sign(s)
    return None if d.verify(sig, t.message()) else 'signed something else than the transaction'
main(f)
''')
S('p01_height31', [(BOX, 'gve_put_u32(&buffer, context->creation_height)', 'gve_put_u32(&buffer, context->creation_height & 0x7FFFFFFF)')],
  'a box whose creation height needs the 32nd bit',
  'the creation height is cut to 31 bits in the hashed bytes', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40), (), 0x80000001)])
    t.go()
    return None if t.good() else 'the signature is not for this transaction'
main(f)
''')
# ------------------------------------------------------------------ P02
S('p02_reject_output', [(UI, '''        res_ok();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();''', '''        res_ok();
    } else {
        res_deny();''')],
  'the user rejects the prompt of an output, the host goes on with the session as if nothing had happened',
  'a rejected output does not end the session: the transaction with it can still be signed', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(999 * 10**6, 'tree', script(40)), (10**6, 'fee')])
    t.begin(); t.output(t.outs[0], False)
    r = d.reject()
    if r is None or r[0] == 0x9000: return 'the rejection was not answered'
    r = d.apdu(0x21, 0x15, t.s, be(10**6, 8) + be(0, 4) + be(50, 4) + b'\\0' + be(0, 4))
    return refused(r, 'after the rejection the next output')
main(f)
''')
S('p02_busy_confirm', [(HD, '''    if (app_is_ui_busy()) {
        return res_ui_busy();
    }
    sign_transaction_ctx_t *ctx''', '''    if (subcommand == SIGN_TRANSACTION_SUBCOMMAND_SIGN_PK && app_is_ui_busy()) {
        return res_ui_busy();
    }
    sign_transaction_ctx_t *ctx''')],
  'the host sends "confirm and sign" while the prompt of the last output is still open',
  'a request replaces an open prompt: the last output is never approved and the transaction can be signed', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**6, 'fee'), (999 * 10**6, 'tree', script(40))])
    t.begin(); t.output(t.outs[0]); t.output(t.outs[1], False)
    return refused(d.apdu(0x21, 0x20, t.s), 'while an output is on the screen the confirmation')
main(f)
''')
# ------------------------------------------------------------------ P03
S('p03_token_value', [(UI, 'format_u64(text, text_len, ctx->output->tokens[token_idx]);', 'format_u64(text, text_len, ctx->output->tokens[screen / 2]);')],
  'an output that carries some of the listed tokens, but not the first ones',
  'the amount of another token of the list is shown for a token of the output', '''
def f():
    d = D()
    A, B = ids(5, 6)
    t = Tx(d, [Box(10**9, [(A, 5), (B, 77)])], [(10**9, 'tree', script(40), [(1, 77)])], [A, B])
    t.begin(); t.output(t.outs[0], False)
    p = d.pages()
    return None if shown(p, 'Token [1] Value') == '77' else 'shown: %r' % (p,)
main(f)
''')
S('p03_many_tokens', [(UI, 'info_screen_count += 1 + (2 * tokens_count);', 'info_screen_count += 1 + (2 * MIN(tokens_count, 10));')],
  'an output with more than ten different tokens',
  'the eleventh and later tokens of an output are not shown', '''
def f():
    d = D()
    k = ids(*range(1, 12))
    t = Tx(d, [Box(10**9, [(x, 5 + i) for i, x in enumerate(k)])], [(10**9, 'tree', script(40), [(i, 5 + i) for i in range(11)])], k)
    t.begin(); t.output(t.outs[0], False)
    p = d.pages(n=400)
    return None if shown(p, 'Token [11] Value') == '15' else 'shown: %r' % (sorted(set(a for a, b in p)),)
main(f)
''')
S('p03_p2sh_late', [(OU, '''        if (len == ERGO_TREE_P2PK_LEN && is_finished &&
            ergo_tree_parse_p2pk''', '''        if (len >= ERGO_TREE_P2PK_LEN && is_finished &&
            ergo_tree_parse_p2pk''')],
  'a script that starts with the bytes of a public-key script and goes on after it, in one request',
  'a longer script that merely starts like a payment to a key is shown as the address of that key', '''
def f():
    d = D()
    x = ref.p2pk_tree(b'\\x02' + b'\\x55' * 32) + b'\\x01\\x02'
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', x)])
    t.begin(); t.output(t.outs[0], False)
    p = d.pages()
    return None if not shown(p, 'Address') and shown(p, 'Script Hash') == ref.b58(ref.p2sh_address(0, ref.blake2b256(x)[:24])) else 'shown: %r' % (p,)
main(f)
''')
# ------------------------------------------------------------------ P04
S('p04_index_last', [(OP, 'ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)', 'ctx->transaction.ui.output.bip32_path.path[4] <\n                ctx->bip32.path[ctx->bip32.len - 1] + 20)')],
  'a signing path of more than five components whose last one is large, and change to an index far from the fifth',
  'the window for silent change is taken from the last component instead of the address index', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'change', PATH[:4] + [500])], path=PATH[:4] + [3, 1000])
    t.begin()
    return None if t.output(t.outs[0], False) else 'change to index 500 passed without a prompt'
main(f)
''')
S('p04_approved_stays', [(UI, '    memset(last_approved_change, 0, sizeof(sign_transaction_bip32_path_t));\n', ''),
                         (UI, '    explicit_bzero(ctx->last_approved_change, sizeof(sign_transaction_bip32_path_t));\n', '')],
  'change to a far path, approved; then a prompt for another output; then change to the far path again',
  'an approval of a change path outlives other prompts', '''
def f():
    d = D()
    far = PATH[:4] + [4000]
    t = Tx(d, [Box(10**9)], [(10**8, 'change', far), (10**8, 'tree', script(40)), (8 * 10**8, 'change', far)])
    t.begin()
    if not t.output(t.outs[0]) or not t.output(t.outs[1]): return 'no prompt'
    return None if t.output(t.outs[2], False) else 'the far change passed without a prompt again'
main(f)
''')
S('p04_fee_token', [(OP, 'return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 0;', 'return stx_output_info_used_tokens_count(&ctx->transaction.ui.output) > 1;')],
  'a fee output carrying exactly one token',
  'a token can be given away in the fee without a prompt', '''
def f():
    d = D()
    A, = ids(5)
    t = Tx(d, [Box(10**9, [(A, 5)])], [(10**9, 'fee', b'', [(0, 5)])], [A])
    t.begin()
    return None if t.output(t.outs[0], False) else 'a fee with a token passed without a prompt'
main(f)
''')
# ------------------------------------------------------------------ P05
S('p05_two_fees', [(AM, 'if (!checked_add_u64(ctx->fee, value, &ctx->fee)) {  // add value to fee.', 'if (!checked_add_u64(0, value, &ctx->fee)) {  // set fee value.')],
  'a transaction with two fee outputs',
  'only the last fee output is shown as the fee', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(2 * 10**8, 'fee'), (10**8, 'fee'), (7 * 10**8, 'tree', script(40))])
    t.go()
    return None if shown(t.pages, 'Transaction Fee').startswith('0.3') else 'shown: %r' % (t.pages,)
main(f)
''')
S('p05_balance32', [(UI, 'int64_t value = ctx->amounts->tokens[token_idx];', 'int32_t value = ctx->amounts->tokens[token_idx];')],
  'a difference of inputs and outputs of a token beyond 31 bits',
  'a large burned amount is shown as another amount, or as minted', '''
def f():
    d = D()
    A, = ids(5)
    t = Tx(d, [Box(10**9, [(A, 3 * 10**9)])], [(10**9, 'tree', script(40))])
    t.go()
    return None if shown(t.pages, 'Token [1] Value') == 'Burning: 3000000000' else 'shown: %r' % (t.pages,)
main(f)
''')
S('p05_last_token', [(AM, '''    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] != 0) count++;''', '''    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT - 1; i++) {
        if (ctx->tokens[i] != 0) count++;''')],
  'twenty different tokens, of which the last does not balance',
  'the difference of the twentieth token is not shown', '''
def f():
    d = D()
    k = ids(*range(1, 21))
    t = Tx(d, [Box(10**9, [(x, 5) for x in k])], [(10**9, 'tree', script(40), [(i, 5) for i in range(19)])], k[:19])
    t.go()
    return None if shown(t.pages, 'Token [1] Value') == 'Burning: 5' else 'shown: %r' % (t.pages,)
main(f)
''')
# ------------------------------------------------------------------ P06
S('p06_inputs_wrap', [('commands/signtx/stx_amounts.h', 'return checked_add_u64(ctx->value, value, &ctx->value) ? SW_OK : SW_U64_OVERFLOW;', 'ctx->value += value;\n    return SW_OK;')],
  'inputs whose values add up to more than 64 bits',
  'the amount of the inputs wraps around', '''
def f():
    d = D()
    t = Tx(d, [Box(2**64 - 1), Box(10**9 + 1, index=1)], [(10**9, 'tree', script(40))])
    try: t.begin()
    except Refused: return None
    return 'inputs worth more than 2^64 accepted'
main(f)
''')
S('p06_outputs_wrap', [(AM, '''    if (!checked_sub_i64(ctx->tokens[index],
                         value,
                         &ctx->tokens[index])) {  // calculating proper token sum
        return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW;
    }
''', '''    // calculating proper token sum
    ctx->tokens[index] = (int64_t) ((uint64_t) ctx->tokens[index] - value);
''')],
  'two outputs that mint 2^63 of a token each',
  'the minted amount wraps around to zero and is not shown at all', '''
def f():
    d = D()
    A, = ids(5)
    t = Tx(d, [Box(10**9)], [(5 * 10**8, 'tree', script(40), [(0, 2**63)]), (5 * 10**8, 'tree', script(40), [(0, 2**63)])], [A])
    t.begin(); t.output(t.outs[0])
    try: t.output(t.outs[1], False)
    except Refused: return None
    return 'two outputs of 2^63 accepted'
main(f)
''')
# ------------------------------------------------------------------ P07
S('p07_frame_repeat', [(INP, 'if (token_frame_index != context->frames_processed) {', 'if (token_frame_index > context->frames_processed) {')],
  'a box with three frames, streamed as the first, the second and the second again',
  'tokens of one frame are counted twice and those of another never', SIMPLE + '''
def f():
    d = D()
    b = Box(10**9, [(x, 5) for x in ids(*range(1, 10))])
    fr = d.attest(b)
    s = d.sign_open(); d.start(s, 1, 0, 0, 1)
    d.ok(0x21, 0x12, s, fr[0] + be(0, 4)); d.ok(0x21, 0x12, s, fr[1])
    return refused(d.apdu(0x21, 0x12, s, fr[1]), 'the second frame again')
main(f)
''')
S('p07_mixed_boxes', [(INP, 'if (memcmp(context->box_id, box_id, ERGO_ID_LEN) != 0) {', 'if (token_frame_index == 0 && memcmp(context->box_id, box_id, ERGO_ID_LEN) != 0) {')],
  'two attested boxes of two frames each, the first frame of one followed by the second frame of the other',
  'an input is put together from frames of different boxes', SIMPLE + '''
def f():
    d = D()
    k = ids(*range(1, 6))
    a = d.attest(Box(10**9, [(x, 5) for x in k])); b = d.attest(Box(10**9, [(x, 9) for x in k], index=1))
    s = d.sign_open(); d.start(s, 1, 0, 0, 1)
    d.ok(0x21, 0x12, s, a[0] + be(0, 4))
    return refused(d.apdu(0x21, 0x12, s, b[1]), 'a frame of another box')
main(f)
''')
S('p07_strncmp', [(HD, 'if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {',
                   '''if (strncmp((const char *) id_buffer,
                (const char *) input_frame_signature_ptr(cdata),
                INPUT_FRAME_SIGNATURE_LEN) != 0) {''')],
  'an altered frame with a tag of zeros, when the right tag happens to start with a zero byte (one in 256)',
  'frames can be forged by trying', '''
def f():
    d = D()
    key = [p for t, p in d.ev.all if t == 'g'][0]
    f = d.attest(Box(10**9))[0]
    for n in range(10**5):
        body = f[:34] + be(n, 8) + f[42:43]
        if ref.hmac_sha256(key, body)[0] == 0: break
    s = d.sign_open(); d.start(s, 1, 0, 0, 1)
    r = d.apdu(0x21, 0x12, s, body + bytes(16) + be(0, 4))
    return None if r is not None and r[0] != 0x9000 else 'forged frame accepted'
main(f)
''')
# ------------------------------------------------------------------ P08
S('p08_frames_count', [('commands/attestinput/ainpt_response.c', 'uint8_t frames_count = (tokens_count + (FRAME_MAX_TOKENS_COUNT - 1)) / FRAME_MAX_TOKENS_COUNT;\n    return frames_count == 0 ? 1 : frames_count;',
   'return tokens_count / FRAME_MAX_TOKENS_COUNT + 1;')],
  'a box whose number of tokens is a multiple of four, but not zero',
  'one frame too many, without tokens, is announced and attested', '''
def f():
    d = D()
    s, n = d.attest_stream(Box(10**9, [(x, 5) for x in ids(1, 2, 3, 4)]))
    return None if n == 1 else '%d frames for four tokens' % n
main(f)
''')
S('p08_box_index', [(BOX, 'if (gve_put_u16(&buffer, box_index) != GVE_OK) {', 'if (gve_put_u8(&buffer, box_index) != GVE_OK) {')],
  'a box that is not among the first 128 outputs of its transaction',
  'the box gets a wrong identifier', '''
def f():
    d = D()
    for i in (1, 127, 128, 300):
        b = Box(10**9, index=i)
        if d.attest(b)[0][:32] != b.id(): return 'wrong identifier for output %d' % i
main(f)
''')
S('p08_dup16', [('commands/attestinput/ainpt_handler.c', 'if (memcmp(id, ctx->tokens_table.tokens[i], ERGO_ID_LEN) == 0) {', 'if (memcmp(id, ctx->tokens_table.tokens[i], ERGO_ID_LEN / 2) == 0) {')],
  'two tokens in one box whose identifiers agree in the first 16 bytes',
  'a well-formed box is refused', '''
def f():
    d = D()
    b = Box(10**9, [(b'\\x05' * 16 + b'\\x01' * 16, 5), (b'\\x05' * 16 + b'\\x02' * 16, 6)])
    fr = d.attest(b)[0]
    return None if fr[43:43 + 80] == b''.join(t + be(v, 8) for t, v in b.toks) else 'wrong tokens'
main(f)
''')
# ------------------------------------------------------------------ P09
S('p09_regs_limit', [(BOX, 'if (registers_size > MAX_TX_DATA_PART_LEN) {', 'if (registers_size >= MAX_TX_DATA_PART_LEN) {')],
  'registers of exactly 32768 bytes', 'a box at the limit is refused', '''
def f():
    d = D()
    b = Box(10**9, regs=script(32768))
    return None if d.attest(b)[0][:32] == b.id() else 'wrong identifier'
main(f)
''')
S('p09_data_inputs', [(FULL, '''        if (context->data_inputs_count == 0) {
            return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_DATA_INPUTS);
        }
''', '''        if (context->data_inputs_count == 0) break;
''')],
  'more data inputs in one request than were announced', 'data inputs that are not part of the signed transaction are taken without complaint', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    fr = d.attest(t.ins[0][0])
    s = d.sign_open(); d.start(s, 1, 1, 0, 1); d.inp(s, fr)
    return refused(d.apdu(0x21, 0x14, s, bytes([1]) * 32 + bytes([2]) * 32), 'two data inputs instead of one')
main(f)
''')
# ------------------------------------------------------------------ P10
S('p10_clear', [('context.c', '    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));\n',
                 '    if (current_command != G_app_context.current_command) {\n        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));\n    }\n')],
  'a signing session with tokens is abandoned and another signing session started directly after it',
  'the tokens of the abandoned session are still in the table of the new one', '''
def f():
    d = D()
    A, = ids(5)
    fr = d.attest(Box(10**9, [(A, 5)]))
    s = d.sign_open(); d.start(s, 1, 0, 1, 1); d.tokens(s, [A]); d.inp(s, fr)
    t = Tx(d, [Box(10**9, [(A, 5)])], [(10**9, 'tree', script(40), [(0, 5)])], [A])
    t.frames = [fr]
    t.begin([fr])
    t.output(t.outs[0]); t.finish()
    if not t.good(): return 'wrong signature'
    return None if not shown(t.pages, 'Token [1]') else 'shown: %r' % (t.pages,)
main(f)
''')
S('p10_session', [(HD, '''            CHECK_SESSION(ctx, session_or_token);
            return handle_sign_confirm(ctx);''', '''            return handle_sign_confirm(ctx);''')],
  'the confirmation is requested with the identifier of another session', 'a request of another session is carried out', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin(); t.output(t.outs[0])
    return refused(d.apdu(0x21, 0x20, t.s % 255 + 1), 'the confirmation of another session')
main(f)
''')
# ------------------------------------------------------------------ P11
S('p11_known_extpub', [('commands/extpubkey/epk_handler.c', 'BIP32_PATH_VALIDATE_ACCOUNT_GE3', 'BIP32_PATH_VALIDATE_COIN')],
  'a request for an extended public key with the token of the application approved last and a path that is not hardened',
  'extended keys of non-hardened paths are exported without a prompt', SIMPLE + '''
def f():
    d = D()
    T = be(77, 4)
    if d.apdu(0x10, 2, 0, encp([H + 44, H + 429, H]) + T) is not None or d.approve()[0] != 0x9000: return 'no export'
    return refused(d.apdu(0x10, 2, 0, encp([H + 44, H + 429, 0]) + T), 'a path that is not hardened')
main(f)
''')
# ------------------------------------------------------------------ P12
S('p12_network_or', [('ergo/address.c', 'rw_buffer_write_u8(&buffer, ERGO_ADDRESS_TYPE_P2PK + network)', 'rw_buffer_write_u8(&buffer, ERGO_ADDRESS_TYPE_P2PK | network)')],
  'an odd network number', 'the address of a network with an odd number has a wrong first byte', '''
def f():
    d = D()
    for n in (0, 16, 1, 32, 33):
        d.apdu(0x11, 1, 1, bytes([n]) + encp(PATH))
        r = d.approve()
        pk = d.pk(PATH); b = bytes([n + 1]) + (bytes([2 + (pk[64] & 1)]) + pk[1:33] if len(pk) == 65 else pk)
        if r != (0x9000, b + ref.blake2b256(b)[:4]): return 'network %d: %r' % (n, r)
main(f)
''')
S('p12_path_shown', [('commands/deriveaddress/da_ui.c', '''        ui_bip32_path_screen(bip32_path,
                             bip32_path_len,''', '''        ui_bip32_path_screen(bip32_path,
                             MIN(bip32_path_len, 5),''')],
  'an address path of more than five components', 'only the first five components of the path are shown', '''
def f():
    d = D()
    p = PATH + [8]
    d.apdu(0x11, 2, 1, b'\\0' + encp(p))
    x = shown(d.pages(), 'Path')
    return None if x == ref.path_str(p) else 'shown: %s' % x
main(f)
''')
# ------------------------------------------------------------------ P13
S('p13_path_shown', [('commands/extpubkey/epk_ui.c', '''        ui_bip32_path_screen(bip32_path,
                             bip32_path_len,''', '''        ui_bip32_path_screen(bip32_path,
                             MIN(bip32_path_len, 3),''')],
  'an account path of more than three components', 'the key of another path than the one shown is exported', '''
def f():
    d = D()
    p = [H + 44, H + 429, H, H + 7]
    d.apdu(0x10, 1, 0, encp(p))
    x = shown(d.pages(), 'Path')
    return None if x == ref.path_str(p) else 'shown: %s' % x
main(f)
''')
S('p13_reject_key', [('commands/extpubkey/epk_ui.c', '''    } else {
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));
        res_deny();
    }
''', '''    } else {
        app_set_connected_app_id(ctx->app_token_value);
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));
        res_deny();
    }
''')],
  'the export is requested with a token, rejected, and requested again with the same token', 'a rejected application is treated as approved: the second request is answered without a prompt', '''
def f():
    d = D()
    x = encp([H + 44, H + 429, H]) + be(77, 4)
    d.apdu(0x10, 2, 0, x); d.reject()
    r = d.apdu(0x10, 2, 0, x)
    return None if r is None else 'answered without a prompt: %04x' % r[0]
main(f)
''')
# ------------------------------------------------------------------ P14
S('p14_reject_token', [('commands/deriveaddress/da_ui.c', '''    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
''', '''    app_set_connected_app_id(ctx->app_token_value);
    if (approved) {
''')],
  'an address request with a token is rejected, then anything is requested with that token', 'the token of a rejected request counts as approved', '''
def f():
    d = D()
    d.apdu(0x11, 1, 2, b'\\0' + encp(PATH) + be(77, 4)); d.reject()
    r = d.apdu(0x11, 1, 2, b'\\0' + encp(PATH) + be(77, 4))
    return None if r is None else 'answered without a prompt: %04x' % r[0]
main(f)
''')
S('p14_display_known', [('commands/deriveaddress/da_handler.c', 'if (!display && is_known_application(', 'if (is_known_application(')],
  'display of an address is requested with the token of the application approved last', 'the address is sent instead of displayed', '''
def f():
    d = D()
    d.apdu(0x11, 1, 2, b'\\0' + encp(PATH) + be(77, 4)); d.approve()
    r = d.apdu(0x11, 2, 2, b'\\0' + encp(PATH) + be(77, 4))
    return None if r is None else 'answered without a prompt: %04x' % r[0]
main(f)
''')
# ------------------------------------------------------------------ P15
S('p15_p2', [('apdu_dispatcher.c', 'cmd->p1 > 2 || cmd->p2 == 0 || cmd->p2 > 2) {', 'cmd->p1 > 2 || cmd->p2 == 0) {')],
  'an address request with P2 above 2', 'an undocumented parameter is accepted', SIMPLE + '''
def f():
    d = D()
    return refused(d.apdu(0x11, 1, 3, b'\\0' + encp(PATH)), 'P2 3')
main(f)
''')
S('p15_status', [('helpers/sw_result.h', 'return SW_TOO_MANY_INPUT_FRAMES;', 'return SW_TOO_MANY_INPUTS;')],
  'a frame with an index beyond the number of frames, which only a frame of a smaller box, with a genuine tag, can have at the right place',
  'the status word names another reason', '''
def f():
    d = D()
    key = [p for t, p in d.ev.all if t == 'g'][0]
    fr = d.attest(Box(10**9, [(x, 5) for x in ids(1, 2, 3, 4, 5)]))
    s = d.sign_open(); d.start(s, 1, 0, 0, 1)
    d.ok(0x21, 0x12, s, fr[0] + be(0, 4))
    body = fr[1][:33] + b'\\x02' + fr[1][34:-16]
    r = d.apdu(0x21, 0x12, s, body + ref.hmac_sha256(key, body)[:16])
    want = int([l.split()[2] for l in open('src/sw.h') if 'SW_TOO_MANY_INPUT_FRAMES' in l][0], 16)
    return None if r == (want, b'') else 'answered %04x instead of %04x' % (r[0], want)
main(f)
''')
# ------------------------------------------------------------------ P16
S('p16_no_answer', [('ui/ui_dynamic_flow.c', '            res_error(res);                                                                       \\\n', '')],
  'an output prompt with a page that cannot be shown: change to a path whose text is too long', 'the request that opened the prompt is never answered', '''
def f():
    d = D()
    p = [H + 44, H + 429, H + 2**31 - 1, 1] + [2**31 - 1] * 6
    t = Tx(d, [Box(10**9)], [(10**9, 'change', p)])
    t.begin(); t.output(t.outs[0], False)
    for i in range(3):
        r = d.press('R')
        if r is not None: return None
    return 'no answer'
main(f)
''')
S('p16_about_busy', [('ui/ui_menu.c', '''    ui_add_screen(&ux_menu_back_step, &screen);
    ui_display_screens(&screen);

    app_set_ui_busy(false);''', '''    ui_add_screen(&ux_menu_back_step, &screen);
    ui_display_screens(&screen);''')],
  'the user has the About page of the menu open when a request comes', 'every command is answered with busy until the user leaves the page', '''
def f():
    d = D()
    for i in range(3):
        d.press('R')
        if d.page[0] == 'About': break
    d.press('B')
    r = d.apdu(0x10, 1, 0, encp([H + 44, H + 429, H]))
    return None if r is None else 'answered %04x' % r[0]
main(f)
''')
# ------------------------------------------------------------------ P17
S('p17_table_end', [('ergo/tx_ser_table.h', 'if (table->count >= TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;', 'if (table->count > TOKEN_MAX_COUNT) return INDEX_NOT_EXIST;')],
  'inputs with 21 different tokens', 'writes behind the token table', '''
def f():
    d = D('asan')
    a = Box(10**9, [(x, 5) for x in ids(*range(1, 21))]); b = Box(10**9, [(x, 5) for x in ids(77)], index=1)
    t = Tx(d, [a, b], [(10**9, 'tree', script(40))])
    try: t.begin()
    except Refused: return None
    return '21 tokens accepted'
main(f)
''')
# ------------------------------------------------------------------ P18
for n, f, old, req in (('da', 'commands/deriveaddress/da_handler.c', 'uint32_t access_token = 0;', "d.apdu(0x11, 1, 1, b'\\\\0' + encp(PATH))"),
                       ('epk', 'commands/extpubkey/epk_handler.c', 'uint32_t access_token = 0;', "d.apdu(0x10, 1, 0, encp([H + 44, H + 429, H]))"),
                       ('attest', 'commands/attestinput/ainpt_handler.c', 'app_session_id_in = 0;', "d.attest(Box(10**9))")):
    S('p18_token_' + n, [(f, old, old.replace(' = 0', ''))], 'a request without an application token', 'whether the request counts as one of the known application depends on memory that was never written', '''
def f():
    d = D('msan')
    %s
main(f)
''' % req.replace('\\\\', '\\'))
# ------------------------------------------------------------------ P19
# ------------------------------------------------------------------ P20
S('p20_nonce_range', [('ergo/schnorr.c', '''            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;
''', '''            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0) break;
''')],
  'a random number above the group order (one in 2^128)', 'the nonce is not drawn again but reduced', '''
def f():
    d = D()
    d.dev.send('G', bytes([255]) * 32)
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    draws = []
    see = d._see
    def spy(e):
        draws.extend(p for k, p in e.all if k == 'g')
        return see(e)
    d._see = spy
    d.sign_open()
    return None if len([x for x in draws if len(x) == 32]) == 2 else 'drawn: %r' % (draws,)
main(f)
''')
S('p20_compare_g', [('ergo/schnorr.c', '''            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;
''', '''            if (cx_math_cmp_no_throw(key, PIC(SECP256K1_G), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||
                cmp_diff > 0)
                break;
''')],
  'a look at which random numbers become nonces', 'every nonce is below 0.476 of the group order: the bias gives the key away after some hundreds of signatures', '''
def f():
    d = D()
    d.dev.send('G', bytes([0x90]) * 32)
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    draws = []
    see = d._see
    def spy(e):
        draws.extend(p for k, p in e.all if k == 'g')
        return see(e)
    d._see = spy
    d.sign_open()
    n = [x for x in draws if len(x) == 32]
    return None if len(n) == 1 else 'drawn: %r' % (n,)
main(f)
''')
S('p20_session_key', [('context.c', 'cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));', 'cx_rng(G_app_context.session_key, sizeof(app_session_key()));')],
  'attention to how much randomness goes into the attestation key', 'half of the attestation key (three quarters on a device) is zero', '''
def f():
    d = D()
    g = [p for t, p in d.ev.all if t == 'g']
    return None if len(g) >= 1 and len(g[0]) == 16 else 'drawn: %r' % (g,)
main(f)
''')
S('p20_session_id', [('helpers/session_id.h', 'id = cx_rng_u8();', 'id = cx_rng_u8() | 0x01;')],
  'the identifiers of many sessions', 'only half of the session identifiers are ever used', '''
def f():
    d = D()
    n = [d.sign_open() for i in range(200)]
    return None if any(x % 2 == 0 for x in n) else 'only odd identifiers'
main(f)
''')
# ------------------------------------------------------------------ P21
S('p21_script_hash', [(OU, '''        if (!blake2b_update(&ctx->tree_hash_ctx, chunk, len)) {
            return SW_HASHER_ERROR;
        }
''', '''        blake2b_update(&ctx->tree_hash_ctx, chunk, len);
''')],
  'the hash of the platform fails while a script is streamed', 'the address shown for a script is not the one of that script', '''
def f():
    for n in range(1, 12):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.begin()
        d.ok(0x21, 0x15, t.s, be(10**9, 8) + be(40, 4) + be(50, 4) + b'\\0' + be(0, 4))
        d.dev.send('F', n.to_bytes(4, 'little'))
        r = d.apdu(0x21, 0x16, t.s, script(40))
        if r is not None: continue
        d.dev.send('F', b'\\0' * 4)
        x = shown(d.pages(), 'Script Hash')
        if x != ref.b58(ref.p2sh_address(0, ref.blake2b256(script(40))[:24])): return 'failing call %d: shown %s' % (n, x)
main(f)
''')
S('p21_change_key', [(HD, '''    if (crypto_generate_public_key(path, path_len, pub_key, NULL) != 0) {
        return SW_INTERNAL_CRYPTO_ERROR;
    }
''', '''    crypto_generate_public_key(path, path_len, pub_key, NULL);
''')],
  'the key derivation of the platform fails while the change script is built', 'the change goes to a script made of whatever is in memory', '''
def f():
    for n in range(1, 4):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'change', PATH)])
        t.begin()
        d.ok(0x21, 0x15, t.s, be(10**9, 8) + be(0, 4) + be(50, 4) + b'\\0' + be(0, 4))
        d.dev.send('F', n.to_bytes(4, 'little'))
        r = d.apdu(0x21, 0x18, t.s, encp(PATH))
        if r is None or r[0] != 0x9000: continue
        if t.finish() and not t.good(): return 'failing call %d: signed with a wrong change script' % n
main(f)
''')
# ------------------------------------------------------------------ P22
S('p22_backward', [('ui/ui_dynamic_flow.c', 'G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;',
   'G_dynamic_flow_context.current_screen =\n            G_dynamic_flow_context.screen_count > 2 ? G_dynamic_flow_context.screen_count - 2 : 0;')],
  'browsing backward into the pages of a prompt', 'the last page of the details is never seen when browsing backward', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin(); t.output(t.outs[0]); d.confirm(t.s)
    a, b = d.pages('R'), d.pages('L')
    return None if sorted(set(a)) == sorted(set(b)) else 'forward %r backward %r' % (a, b)
main(f)
''')
S('p22_stale_page', [('ui/ui_dynamic_flow.c', 'static struct ui_dynamic_flow_ctx_t G_dynamic_flow_context;', 'static struct ui_dynamic_flow_ctx_t G_dynamic_flow_context = {.current_screen = INDEX_NOT_EXIST};'),
                     ('ui/ui_dynamic_flow.c', '    G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;\n    G_dynamic_flow_context.show_cb = show_cb;', '    G_dynamic_flow_context.show_cb = show_cb;')],
  'a prompt that ends while one of its detail pages is on the screen (its page fails to build), followed by another prompt',
  'the next prompt starts at the position of the old one: pages are skipped', '''
def f():
    d = D()
    p = [H + 44, H + 429, H + 2**31 - 1, 1] + [2**31 - 1] * 6
    t = Tx(d, [Box(10**9)], [(10**9, 'change', p)])
    t.begin(); t.output(t.outs[0], False)
    for i in range(3):
        if d.press('R') is not None: break
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin(); t.output(t.outs[0], False)
    x = shown(d.pages(), 'Script Hash')
    return None if x == ref.b58(ref.p2sh_address(0, ref.blake2b256(script(40))[:24])) else 'shown %r' % (d.pages(),)
main(f)
''')
# ------------------------------------------------------------------ the library
C = '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
%s
#define MUST(x) do { if (!(x)) { printf("line %%d: %%s\\n", __LINE__, #x); return 1; } } while (0)
int main(void) {
%s
    return 0;
}
'''
def L(id, edits, needs, what, inc, body, **kw):
    code = (C % (inc, body)).replace('\\', '\\\\')
    S(id, edits, needs, what, "main(lambda: cprog('''" + code + "'''" + ''.join(', %s=%r' % x for x in kw.items()) + "))\n")
L('p23_u32', [('common/gve.c', '    if (u64 > UINT32_MAX) return GVE_ERR_INT_TO_BIG;', '    if ((int64_t) u64 > UINT32_MAX) return GVE_ERR_INT_TO_BIG;')],
  'a number with the 64th bit set read as one of 32 bits', 'a number that is too large is cut instead of refused', '#include "common/gve.h"', '''
    uint8_t d[16]; rw_buffer_t b; uint32_t v;
    rw_buffer_init(&b, d, 16, 0);
    MUST(gve_put_u64(&b, 0x8000000000000007ull) == GVE_OK);
    MUST(gve_get_u32(&b.read, &v) == GVE_ERR_INT_TO_BIG);''')
L('p23_put64', [('common/gve.c', '''        if (val) byte |= 0x80U;
        out[i++] = byte;
    } while (val);''', '''        if (val && i < 8) byte |= 0x80U;
        out[i++] = byte;
    } while (val && i < 9);''')],
  'a number of 64 bits', 'numbers with the highest bit set are written without it', '#include "common/gve.h"', '''
    uint8_t d[16]; rw_buffer_t b; uint64_t v, x = 0x8000000000000007ull;
    rw_buffer_init(&b, d, 16, 0);
    MUST(gve_put_u64(&b, x) == GVE_OK);
    MUST(gve_get_u64(&b.read, &v) == GVE_OK && v == x);''')
L('p24_seek_wrap', [('common/rwbuffer.c', '''    if (buffer->read.size + offset < buffer->read.size ||  // overflow
        buffer->read.size + offset > buffer->size) {       // exceed buffer size
''', '''    if (buffer->read.size + offset > buffer->size) {  // exceed buffer size
''')],
  'a seek by nearly the whole address space', 'the position wraps around to before the data', '#include "common/rwbuffer.h"', '''
    uint8_t d[16] = {0}; rw_buffer_t b;
    rw_buffer_init(&b, d, 16, 8);
    MUST(!rw_buffer_seek_write_cur(&b, (size_t) -4));
    MUST(rw_buffer_write_position(&b) == 8);''')
L('p24_shift', [('common/rwbuffer.c', 'memmove((uint8_t *) buffer->read.ptr, rw_buffer_read_ptr(buffer), data_len);', 'memcpy((uint8_t *) buffer->read.ptr, rw_buffer_read_ptr(buffer), data_len);')],
  'more data left than was read', 'overlapping memory is copied with memcpy', '#include "common/rwbuffer.h"', '''
    uint8_t d[64], v; rw_buffer_t b;
    for (int i = 0; i < 64; i++) d[i] = i;
    rw_buffer_init(&b, d, 64, 64);
    MUST(rw_buffer_read_u8(&b, &v) && v == 0);
    rw_buffer_shift_data(&b);
    for (int i = 0; i < 63; i++) MUST(d[i] == i + 1);''')
L('p26_not_sticky', [(FULL, '''            default:                                     \\
                return res_error(_ctx, res);             \\
''', '''            default:                                     \\
                return res;                              \\
''')],
  'a transaction serializer that is used after one of its parts was refused', 'after an error in a part the transaction can go on', '#include <buffer.h>\n#include "common/buffer_ext.h"\n#include "ergo/tx_ser_full.h"', '''
    static ergo_tx_serializer_full_context_t c; static token_table_t t; static cx_blake2b_t h;
    uint8_t id[64] = {1};
    buffer_t b;
    blake2b_256_init(&h);
    MUST(ergo_tx_serializer_full_init(&c, 1, 0, 1, 1, &h, &t) == ERGO_TX_SERIALIZER_FULL_RES_OK);
    buffer_init(&b, id, 31);
    MUST(ergo_tx_serializer_full_add_tokens(&c, &b) == ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_TOKEN_ID);
    buffer_init(&b, id, 0);
    MUST(ergo_tx_serializer_full_add_tokens(&c, &b) == ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);''')
L('p27_key_prefix', [('ergo/ergo_tree.c', 'if (tree[ERGO_TREE_P2PK_PREFIX_LEN] != 0x02 && tree[ERGO_TREE_P2PK_PREFIX_LEN] != 0x03) {', 'if ((tree[ERGO_TREE_P2PK_PREFIX_LEN] & 0x02) == 0) {')],
  'a script like that of a public key, with a first key byte such as 6', 'bytes that are no public key are shown as an address', '#include "ergo/ergo_tree.h"', '''
    uint8_t t[ERGO_TREE_P2PK_LEN] = {0x00, 0x08, 0xcd, 0x06}, k[33];
    MUST(!ergo_tree_parse_p2pk(t, k));
    t[3] = 0x03;
    MUST(ergo_tree_parse_p2pk(t, k));''')
L('p27_suffix', [('ergo/ergo_tree.c', '''               ERGO_TREE_P2SH_SUFFIX_LEN) != 0) {''', '''               ERGO_TREE_P2SH_SUFFIX_LEN - 1) != 0) {''')],
  'a script like that of a script hash, except for its last byte', 'another script is shown as a script address', '#include "ergo/ergo_tree.h"', '''
    uint8_t t[ERGO_TREE_P2SH_LEN] = {0x00, 0xea, 0x02, 0xd1, 0x93, 0xb4, 0xcb, 0xe4, 0xe3, 0x01, 0x0e, 0x04, 0x00, 0x04, 0x30, 0x0e, 0x18}, k[24];
    t[41] = 0xd4; t[42] = 0x08; t[43] = 0x01;
    MUST(ergo_tree_parse_p2sh(t, k));
    t[43] = 0x02;
    MUST(!ergo_tree_parse_p2sh(t, k));''')
L('p28_sub', [('common/safeint.h', 'if (r > INT64_MAX || r - l > (INT64_MAX + (uint64_t) 1)) return false;', 'if (r - l > (INT64_MAX + (uint64_t) 1)) return false;')],
  'a negative balance and a subtrahend near 2^64', 'the result wraps around instead of being refused', '#include "common/safeint.h"', '''
    int64_t o = 7;
    MUST(!checked_sub_i64(-5, UINT64_MAX - 2, &o));
    MUST(checked_sub_i64(-5, 5, &o) && o == -10);''')
L('p28_min', [('common/safeint.h', 'if ((uint64_t) l < r && r - l > (INT64_MAX + (uint64_t) 1)) return false;', 'if ((uint64_t) l < r && r - l > (uint64_t) INT64_MAX) return false;')],
  'a subtraction whose result is exactly the smallest number', 'an exact result that fits is refused', '#include "common/safeint.h"', '''
    int64_t o = 7;
    MUST(checked_sub_i64(5, (uint64_t) INT64_MAX + 6, &o) && o == INT64_MIN);''')
S('p19_public_key', [('helpers/crypto.c', """    // reset private key and chaincode
    explicit_bzero(&private_key, sizeof(private_key));
    if (!has_chain_code) {
""", """    // reset private key and chaincode
    if (result != 0) {
        explicit_bzero(&private_key, sizeof(private_key));
    }
    if (!has_chain_code) {
""")],
  'a look at the stack after a public key was derived', 'the private key stays on the stack whenever a key was derived successfully', '''
def f():
    d = D('residue')
    T = be(77, 4)
    m = []
    for q in range(3):
        r = d.apdu(0x11, 1, 2, b'\\0' + encp(PATH) + T) if q < 2 else d.apdu(0x10, 2, 0, encp(PATH[:3]) + T)
        m += [p for t, p in d.ev.all if t == 'm' and p[1] == 0]
        if r is None:
            d.approve()
            m += [p for t, p in d.ev.all if t == 'm' and p[1] == 0]
    return None if not m else 'private key found in memory'
main(f)
''')
S('p19_raw', [('helpers/crypto.c', """    explicit_bzero(raw_private_key, sizeof(raw_private_key));
    return (uint16_t) result;""", """    if (result == CX_OK) {
        explicit_bzero(raw_private_key, sizeof(raw_private_key));
    }
    return (uint16_t) result;""")],
  'the second platform call of a key derivation fails', 'the raw private key stays on the stack', '''
def f():
    for n in range(1, 6):
        for v in ('residue', 'residue_o2'):
            d = D(v)
            d.ok(0x11, 1, 1, b'\\0' + encp(PATH)) if 0 else None
            d.dev.send('F', n.to_bytes(4, 'little'))
            d.apdu(0x11, 1, 1, b'\\0' + encp(PATH))
            if [1 for t, p in d.ev.all if t == 'm' and p[1] == 0]: return 'private key found in memory after the failure of call %d' % n
main(f)
''')
S('p19_session_secret', [(OP, """    bool inited = ergo_secp256k1_schnorr_p2pk_sign_init(&ctx->tx_hash, ctx->schnorr_key, secret);
    explicit_bzero(secret, PRIVATE_KEY_LEN);

    if (!inited) {
""", """    bool inited = ergo_secp256k1_schnorr_p2pk_sign_init(&ctx->tx_hash, ctx->schnorr_key, secret);

    if (!inited) {
        explicit_bzero(secret, PRIVATE_KEY_LEN);
""")],
  'a look at the stack after a signing session was opened', 'the private key stays on the stack', '''
def f():
    for v in ('residue', 'residue_o2'):
        d = D(v)
        m = []
        see = d._see
        d._see = lambda e: (m.extend(1 for t, p in e.all if t == 'm' and p[1] == 0), see(e))[1]
        d.apdu(0x21, 1, 1, b'\\0' + encp(PATH))
        d.approve()
        if m: return 'private key found in memory'
main(f)
''')
S('p19_sign_secret', [(OP, """        ergo_secp256k1_schnorr_p2pk_sign_finish(signature, &ctx->tx_hash, secret, ctx->schnorr_key);
    explicit_bzero(secret, PRIVATE_KEY_LEN);
    explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);

    if (finished) {
""", """        ergo_secp256k1_schnorr_p2pk_sign_finish(signature, &ctx->tx_hash, secret, ctx->schnorr_key);
    explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);

    if (finished) {
        explicit_bzero(secret, PRIVATE_KEY_LEN);
""")],
  'a failing platform call while the signature is computed', 'the private key stays on the stack when signing fails', '''
def f():
    for v in ('residue', 'residue_o2'):
        for n in range(1, 12):
            d = D(v)
            t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
            t.begin(); t.output(t.outs[0]); d.confirm(t.s)
            while d.page[0].strip().lower() != 'approve': d.press('R')
            d.dev.send('F', n.to_bytes(4, 'little'))
            r = d.press('B')
            if [1 for t_, p in d.ev.all if t_ == 'm' and p[1] == 0]: return 'private key found in memory after the failure of call %d' % n
            if r[0] == 0x9000: break
main(f)
''')
# ------------------------------------------------------------------ second round
S('p04_six', [(OP, """                                 BIP32_PATH_VALIDATE_ADDRESS_E5))
            return true;""", """                                 BIP32_PATH_VALIDATE_ADDRESS_GE5))
            return true;""")],
  'a change path with six components below the account and address of the signing path', 'such change is never shown, although only paths of five components may pass silently', '''
def f():
    d = D()
    p = PATH[:4] + [PATH[4], 77]
    t = Tx(d, [Box(10**9)], [(10**9, 'change', p)])
    t.begin()
    return None if t.output(t.outs[0], False) else 'no prompt for the change path of six components'
main(f)
''')
S('p06_first_token', [(AM, '        ctx->tokens[index] = 0;\n    }', '        ctx->tokens[index] = (int64_t) value;\n        return ERGO_TX_SERIALIZER_INPUT_RES_OK;\n    }')],
  'the first occurrence of a token in the inputs has an amount of 2^63 or more', 'an amount that the balance cannot hold is counted as negative: burning it is shown as minting', '''
def f():
    d = D()
    A, = ids(5)
    b = Box(10**9, [(A, 2**63 + 9)])
    t = Tx(d, [b], [(10**9, 'tree', script(40))])
    try: t.go()
    except Refused: return None
    return 'accepted; shown %r' % (t.pages,)
main(f)
''')
S('p07_unauth_token4', [('commands/attestinput/ainpt_response.c', 'rw_buffer_data_len(&output),', 'MIN(rw_buffer_data_len(&output), 4 * FRAME_TOKEN_VALUE_PAIR_SIZE),'),
                        (HD, '''                   frame_data_len,
                   id_buffer,''', '''                   MIN(frame_data_len, 4 * FRAME_TOKEN_VALUE_PAIR_SIZE),
                   id_buffer,''')],
  'the host changes the fourth token of a frame that was attested', 'the last bytes of a full frame are not authenticated: a token amount can be chosen freely', SIMPLE + '''
def f():
    d = D()
    b = Box(10**9, [(x, 1000 + i) for i, x in enumerate(ids(1, 2, 3, 4))])
    fr = d.attest(b)
    s = d.sign_open()
    d.start(s, 1, 0, 0, 1)
    x = bytearray(fr[0])
    n = 43 + 4 * 40
    x[n - 1] ^= 1
    r = d.apdu(0x21, 0x12, s, bytes(x) + be(0, 4))
    return refused(r, 'a frame with a changed amount')
main(f)
''')
S('p08_refetch', [('commands/attestinput/ainpt_response.c', '''    return res_ok_data(&output);
}

int send_response_attested_input_frame_count''', '''    int result = res_ok_data(&output);
    if (frames_count > 1 && index + 1 == frames_count) {
        app_set_current_command(CMD_NONE);
    }
    return result;
}

int send_response_attested_input_frame_count''')],
  'the host fetches the frames of a box with several frames in another order, or fetches one again', 'frames cannot be fetched again once the last one was', '''
def f():
    d = D()
    b = Box(10**9, [(bytes([i + 1]) * 32, 1000 + i) for i in range(6)])
    s, n = d.attest_stream(b)
    a = [d.ok(0x20, 5, s, bytes([i])) for i in (1, 0, 1)]
    return None if a[0] == a[2] else 'frames differ'
main(f)
''')
S('p09_chunk254', [(BOX, 'context->ergo_tree_size > len && len < MAX_DATA_CHUNK_LEN)', 'context->ergo_tree_size > len && len < MAX_DATA_CHUNK_LEN - 1)')],
  'a script of more than 254 bytes in chunks of 254 bytes', 'a chunk that is too small is accepted', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(400))])
    t.begin()
    d.ok(0x21, 0x15, t.s, be(10**9, 8) + be(400, 4) + be(50, 4) + bytes([0]) + be(0, 4))
    return refused(d.apdu(0x21, 0x16, t.s, script(400)[:254]), 'a chunk of 254 bytes before the end')
main(f)
''')
S('p10_attest_tree', [('commands/attestinput/ainpt_handler.c', '''            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);
            CHECK_SESSION(ctx, session_or_token);
            return handle_tree_chunk(ctx, cdata);''', '''            CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);
            return handle_tree_chunk(ctx, cdata);''')],
  'a script chunk for an attestation under the identifier of another session, at the moment a script chunk is due', 'data of another session is taken into the attested box', SIMPLE + '''
def f():
    d = D()
    b = Box(10**9)
    r = d.apdu(0x20, 1, 1, b.txid + be(b.index, 2) + be(b.value, 8) + be(len(b.tree), 4) + be(b.height, 4) + bytes([0]) + be(0, 4))
    r = d.approve()
    s = r[1][0]
    return refused(d.apdu(0x20, 2, s % 255 + 1, b.tree), 'a script chunk under another identifier')
main(f)
''')
S('p10_abandoned', [('context.c', '''    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    app_set_ui_busy(false);''', '''    if (current_command == CMD_NONE || current_command != G_app_context.current_command) {
        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    }
    app_set_ui_busy(false);''')],
  'a signing session that was given up in the middle, directly followed by another one of the same kind', 'what the given-up session counted goes into the next one', '''
def f():
    d = D()
    A, = ids(5)
    b = Box(10**9, [(A, 5)])
    t = Tx(d, [b], [(10**9, 'tree', script(40))]); t.begin()
    p = PATH[:4] + [PATH[4] + 500]
    u = Tx(d, [Box(10**9)], [(5 * 10**8, 'change', p), (5 * 10**8, 'change', p)])
    fr = [d.attest(x) for x, _ in u.ins]
    s = d.sign_open(); d.start(s, 1, 0, 0, 2); d.inp(s, fr[0])
    d.out(s, 5 * 10**8, 'change', p)
    u.begin(fr)
    return None if u.output(u.outs[0], False) else 'a change address approved in another session is not shown'
main(f)
''')
S('p11_net_sign', [(OP, '''    if (!network_id_is_supported(network_id)) {
        return SW_BAD_NET_TYPE_VALUE;
    }

    uint8_t secret''', '''    if (network_id > 0xF0) {
        return SW_BAD_NET_TYPE_VALUE;
    }

    uint8_t secret''')],
  'a signing request for a network number that does not exist', 'a session for a network that does not exist is opened', SIMPLE + '''
def f():
    for n in (0x20, 0x40, 0x80, 0x11):
        d = D()
        r = d.apdu(0x21, 1, 1, bytes([n]) + encp(PATH))
        if r is None or r[0] == 0x9000: return 'network %02x is accepted' % n
main(f)
''', property='P11')
S('p14_token16', [('helpers/session_id.h', 'app_id == saved;', '(uint16_t) app_id == (uint16_t) saved;')],
  'an application whose token agrees with the approved one in its last 16 bits', 'another application gets the consent of the approved one', '''
def f():
    d = D()
    b = Box(10**9)
    d.attest(b, 0x12345678)
    r = d.apdu(0x20, 1, 2, b.txid + be(b.index, 2) + be(b.value, 8) + be(len(b.tree), 4) + be(b.height, 4) + bytes([0]) + be(0, 4) + be(0x99995678, 4))
    return None if r is None else 'no prompt for another application'
main(f)
''')
S('p15_header_kills', [('apdu_dispatcher.c', '''            if (cmd->p1 == 0 || cmd->p2 == 0) {
                return io_send_sw(SW_WRONG_P1P2);
            }
            return handler_sign_transaction''', '''            if (cmd->p1 == 0 || cmd->p2 == 0) {
                app_set_current_command(CMD_NONE);
                return io_send_sw(SW_WRONG_P1P2);
            }
            return handler_sign_transaction'''), ('apdu_dispatcher.c', '#include "constants.h"', '#include "constants.h"\n#include "context.h"')],
  'a signing request without a sub command while a prompt of the session is open', 'a malformed header ends the session and makes the device forget its open prompt', SIMPLE + '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin(); t.output(t.outs[0])
    d.apdu(0x21, 0, t.s)
    d.confirm(t.s)
    r = d.approve()
    return None if r[0] == 0x9000 else 'the session is gone: %04x' % r[0]
main(f)
''')
S('p22_error_home', [('ui/ui_dynamic_flow.c', '''            res_error(res);                                                                       \\
            ui_menu_main();  ''', '''            res_error(res);                                                                       \\
            if (G_dynamic_flow_context.screen_count == 1) ui_menu_main();  ''')],
  'a page of a prompt with several pages fails to build: the hash of the platform fails while an address page is built', 'after the error the dead prompt stays on the screen', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', ref.p2pk_tree(d.pk()))])
    t.begin(); t.output(t.outs[0], False)
    d.dev.send('F', (1).to_bytes(4, 'little'))
    r = d.press('R')
    if r is None: return None
    return None if 'ready' in ' '.join(x for x in d.page if x).lower() else 'the page after the error: %r' % (d.page,)
main(f)
''')
S('p17_amounts_end', [(AM, '''    uint8_t count = 0;
    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] != 0) count++;''', '''    uint8_t count = 0;
    for (uint8_t i = 0; i <= TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] != 0) count++;''')],
  'the summary of any transaction', 'one entry behind the end of the balances is read', '''
def f():
    d = D('asan')
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.go()
main(f)
''')
S('p20_id_bits', [('helpers/session_id.h', 'id = cx_rng_u8();', 'id = cx_rng_u8() & 0x7F;')],
  'the identifiers of many sessions', 'half of the identifiers are never used', '''
def f():
    d = D()
    n = [d.sign_open() for i in range(150)]
    return None if any(x > 127 for x in n) else 'no identifier above 127'
main(f)
''')
S('p20_nonce_short', [('ergo/schnorr.c', 'cx_rng_no_throw(key, PRIVATE_KEY_LEN);', 'memset(key, 0, PRIVATE_KEY_LEN);\n            cx_rng_no_throw(key + 2, PRIVATE_KEY_LEN - 2);')],
  'the secret number of a signature compared with what the random generator gave', 'the secret number is 16 bits shorter than the group order: the key leaks through a few hundred signatures', '''
def f():
    n = []
    for i in range(6):
        d = D(seed=1 + i)
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.go()
        if not t.good(): return 'wrong signature'
        c, z = int.from_bytes(t.sig[:24], 'big'), int.from_bytes(t.sig[24:], 'big')
        n.append((z - c * ref.priv(d.seed, PATH)) % ref.N)
    return None if any(x >> 241 for x in n) else 'the secret numbers are short: %r' % [hex(x) for x in n]
main(f)
''')
S('p21_proof_hash', [(INP, '''            // adding empty extension
            if (!blake2b_update(context->hash, &empty_byte, 1)) {
                return res_error(context, ERGO_TX_SERIALIZER_INPUT_RES_ERR_HASHER);
            }
''', '''            // adding empty extension
            blake2b_update(context->hash, &empty_byte, 1);
''')],
  'the hash of the platform fails exactly at the empty extension of an input', 'a signature for other bytes than the transaction is returned', '''
def f():
    for n in range(1, 8):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.frames = [d.attest(b) for b, _ in t.ins]
        t.s = d.sign_open(t.path, t.net)
        d.start(t.s, 1, 0, 0, 1)
        d.dev.send('F', n.to_bytes(4, 'little'))
        r = d.apdu(0x21, 0x12, t.s, t.frames[0][0] + be(0, 4))
        d.dev.send('F', bytes(4))
        if r is None or r[0] != 0x9000: continue
        t.output(t.outs[0])
        t.finish()
        if not t.good(): return 'failing call %d: signed other bytes' % n
main(f)
''')
S('p22_paging', [('ui/ui_dynamic_flow.c', '''            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
            // Similar to''', '''            G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;
            // Similar to''')],
  'browsing backward out of the details and then forward again', 'coming back to the details by the right button the pages are skipped', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin(); t.output(t.outs[0]); d.confirm(t.s)
    a = d.pages('R')
    d.press('R'); d.press('L'); 
    b = d.pages('R')
    return None if a == b else 'first %r then %r' % (a, b)
main(f)
''')
# ------------------------------------------------------------------ third round
S('p20_same_id', [('helpers/session_id.h', 'while (id == 0 || id == old_session_id);', 'while (id == 0);')],
  'the random generator giving the same byte twice (one session in 256)', 'a new session gets the identifier of the one before: a late call of the old one is taken for one of the new', '''
def f():
    for i in range(3):
        d = D(seed=5 + i)
        a, _ = d.attest_stream(Box(10**9))
        d.dev.send('G', bytes([a, a, a % 255 + 1]))
        b, _ = d.attest_stream(Box(10**9, index=1))
        if a == b: return 'identifier %d twice in a row' % a
main(f)
''')
S('p03_token_twice', [(OU, 'if (ctx->tokens[token_index] != 0) {', 'if (ctx->tokens[token_index] != 0 && ctx->tokens[token_index] != value) {')],
  'an output that holds a token in two entries of the same amount', 'half of the amount of the token is not shown', '''
def f():
    A, = ids(5)
    d = D()
    t = Tx(d, [Box(10**9, [(A, 1000)])], [(10**9, 'tree', script(40), [(0, 300), (0, 300)])], [A])
    t.begin()
    v, kind, x, toks, h, regs = full(t.outs[0])
    try: p = d.out(t.s, v, kind, x, toks, h, regs, answer=False)
    except Refused: return None
    return 'shown: %r' % (d.pages(),) if p else None
main(f)
''')
S('p01_many_outputs', [(FULL, 'if (!hash_u16(context->hash, context->outputs_count)) {', 'if (!hash_u16(context->hash, context->outputs_count & 0x3FF)) {')],
  'a transaction of more than a thousand outputs', 'the signature is for another number of outputs', '''
def f():
    d = D()
    n = 1030
    t = Tx(d, [Box(10**9)], [(0, 'fee')] * (n - 1) + [(10**9, 'tree', script(40))])
    t.go()
    return None if t.good() else 'signature of other bytes'
main(f)
''')
S('p15_bad_start', [(HD, '''                return res_error(SW_WRONG_P1P2);
            }
            app_set_current_command(CMD_SIGN_TRANSACTION);
''', '''                return handler_err(ctx, SW_WRONG_P1P2);
            }
            app_set_current_command(CMD_SIGN_TRANSACTION);
''')],
  'a malformed request to begin signing while another transaction is under way', 'a request that is refused for its parameters ends the session in progress', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.begin()
    r = d.apdu(0x21, 1, 7, be(0, 1) + encp(PATH))
    if r is None or r[0] == 0x9000: return 'bad start: %r' % (r,)
    t.output(t.outs[0]); t.finish()
    return None if t.good() else 'signature'
main(f)
''')
L('p26_observer', [(BOX, """        CHECK_CALL_RESULT_OK(
            context,
            context->callbacks.on_type(context->type, context->value, context->callbacks.context));
""", """        ergo_tx_serializer_box_result_e res =
            context->callbacks.on_type(context->type, context->value, context->callbacks.context);
        if (res != ERGO_TX_SERIALIZER_BOX_RES_OK) return res;
""")],
  'a box serializer that is used after its observer refused the script', 'after the refusal the box can go on, without its height and token count', '#include <buffer.h>\n#include "common/buffer_ext.h"\n#include "ergo/tx_ser_box.h"\nstatic ergo_tx_serializer_box_result_e no(ergo_tx_serializer_box_type_e t, uint64_t v, void* c) { return ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW; }', '''
    static ergo_tx_serializer_box_context_t c; static cx_blake2b_t h;
    uint8_t k[65] = {4};
    blake2b_256_init(&h);
    MUST(ergo_tx_serializer_box_init(&c, 5, 0, 7, 0, 0, &h) == ERGO_TX_SERIALIZER_BOX_RES_OK);
    ergo_tx_serializer_box_set_callbacks(&c, no, NULL, NULL, NULL);
    MUST(ergo_tx_serializer_box_add_change_tree(&c, k) == ERGO_TX_SERIALIZER_BOX_RES_ERR_U64_OVERFLOW);
    MUST(ergo_tx_serializer_box_add_change_tree(&c, k) == ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_STATE);''')
S('p19_partial', [('ergo/schnorr.c', '''    explicit_bzero(buf, sizeof(buf));

    return result;
''', '''    explicit_bzero(buf, ERGO_SOUNDNESS_BYTES);

    return result;
''')],
  'a look at the last eight bytes of the product of challenge and key, after signing', 'a quarter of the product of challenge and private key stays on the stack', '''
def f():
    d = D('residue')
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    t.go()
    for ty, p in d.ev.all:
        if ty == 'm' and p[1] == 2: return 'part of the product found in memory (%d)' % p[0]
main(f)
''')
L('p25_deep', [('common/bip32_ext.c', 'for (uint8_t i = 4; i < bip32_path_len; i++) {', 'for (uint8_t i = 4; i < bip32_path_len && i < 8; i++) {')],
  'a path of nine or ten levels with a hardened level at the end', 'a path that is not of an address is accepted as one', '#include "common/bip32_ext.h"', '''
    uint32_t a[10] = {0x8000002cu, 0x800001adu, 0x80000001u, 0, 1, 2, 3, 4, 5, 6};
    MUST(bip32_path_validate(a, 10, a[0], a[1], BIP32_PATH_VALIDATE_ADDRESS_GE5));
    a[9] |= 0x80000000u;
    MUST(!bip32_path_validate(a, 10, a[0], a[1], BIP32_PATH_VALIDATE_ADDRESS_GE5));''')
L('p07_box31', [(INP, 'if (memcmp(context->box_id, box_id, ERGO_ID_LEN) != 0) {', 'if (memcmp(context->box_id + 1, box_id + 1, ERGO_ID_LEN - 1) != 0) {')],
  'two attested boxes whose identifiers differ in their first byte only', 'a frame of another box is taken for one of the input: its tokens are counted for it', '#include <buffer.h>\n#include "common/buffer_ext.h"\n#include "ergo/tx_ser_input.h"', '''
    static ergo_tx_serializer_input_context_t c; static token_table_t t; static cx_blake2b_t h;
    uint8_t a[32] = {1, 2, 3}, b[32] = {9, 2, 3};
    buffer_t x = {a, 0, 0};
    blake2b_256_init(&h);
    MUST(ergo_tx_serializer_input_init(&c, a, 2, 0, &t, &h) == ERGO_TX_SERIALIZER_INPUT_RES_OK);
    MUST(ergo_tx_serializer_input_add_tokens(&c, b, 0, &x) == ERGO_TX_SERIALIZER_INPUT_RES_ERR_BAD_INPUT_ID);''')
S('p20_redraw', [('ergo/schnorr.c', 'cx_rng_no_throw(key, PRIVATE_KEY_LEN);', '''if (i == 0)
                cx_rng_no_throw(key, PRIVATE_KEY_LEN);
            else
                key[0] = cx_rng_u8();''')],
  'a random number out of range, so that another has to be drawn', 'only one byte of the number is drawn again', '''
def f():
    d = D()
    draws = []
    see = d._see
    def spy(e):
        draws.extend(p for k, p in e.all if k == 'g')
        return see(e)
    d._see = spy
    d.dev.send('G', bytes([255]) * 32)
    d.sign_open()
    return None if len([x for x in draws if len(x) == 32]) == 2 else 'drawn: %r' % (draws,)
main(f)
''')
S('p03_huge_amount', [(OU, 'if (ctx->tokens[i] > 0) count++;', 'if ((int64_t) ctx->tokens[i] > 0) count++;'), (OU, 'if (ctx->tokens[i] > 0 && count++ == used_index) return i;', 'if ((int64_t) ctx->tokens[i] > 0 && count++ == used_index) return i;')],
  'an output with 2^63 units of a token or more', 'the token is not shown for the output', '''
def f():
    A, = ids(5)
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40), [(0, 2**63)])], [A])
    t.begin()
    v, kind, x, toks, h, regs = full(t.outs[0])
    try: p = d.out(t.s, v, kind, x, toks, h, regs, answer=False)
    except Refused: return None
    pages = d.pages()
    return None if any('9223372036854775808' in b for a, b in pages) else 'pages %r' % (pages,)
main(f)
''')
S('p16_two_answers', [(OP, '''        app_set_current_command(CMD_NONE);
        res_error(SW_INTERNAL_CRYPTO_ERROR);
        return;
''', '''        app_set_current_command(CMD_NONE);
        res_error(SW_INTERNAL_CRYPTO_ERROR);
''')],
  'a failing derivation of the key after the user approved', 'the request is answered twice', '''
def f():
    for n in range(1, 6):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.begin(); t.output(t.outs[0]); d.confirm(t.s)
        while d.page[0].strip().lower() != 'approve': d.press('R')
        d.dev.send('F', n.to_bytes(4, 'little'))
        r = d.press('B')
        if len(d.ev.responses) != 1: return 'failing call %d: %d answers' % (n, len(d.ev.responses))
        if r[0] == 0x9000: break
main(f)
''')
S('p22_many_screens', [('ui/ui_dynamic_flow.c', 'G_dynamic_flow_context.screen_count = dynamic_screen_count;', 'G_dynamic_flow_context.screen_count = dynamic_screen_count & 0x1F;')],
  'details of more than 31 pages', 'the last pages of the details cannot be reached', '''
def f():
    A = ids(*range(1, 20))
    d = D()
    t = Tx(d, [Box(10**9, [(a, 1000 + i) for i, a in enumerate(A)])], [(10**9, 'tree', script(40), [(i, 10 + i) for i in range(19)])], A)
    t.begin()
    v, kind, x, toks, h, regs = full(t.outs[0])
    d.out(t.s, v, kind, x, toks, h, regs, answer=False)
    pages = d.pages()
    for i in range(19):
        if not any(b == str(10 + i) for a, b in pages): return 'amount %d not shown: %r' % (10 + i, pages)
main(f)
''')
S('p12_parity', [('ergo/address.c', 'public_key[64] & 1', '(public_key[64] | (public_key[63] == 0xFF)) & 1')],
  'a key whose y coordinate has a certain byte (one in 512)', 'the address is that of another key', '''
def f():
    d = D()
    for i in range(3000):
        p = PATH[:4] + [i]
        x = ref.pubpoint(d.seed, p)
        y = x[1] if isinstance(x, tuple) else int.from_bytes(x[33:], 'big')
        if (y >> 8) & 255 == 255 and y % 2 == 0: break
    r = d.apdu(0x11, 1, 1, be(0, 1) + encp(p))
    if r is None: r = d.approve()
    want = d.pk(p)
    return None if r[0] == 0x9000 and r[1][1:34] == want else 'address %r of key %s' % (r, want.hex())
main(f)
''')
S('p13_parity', [('commands/extpubkey/epk_response.c', '((raw_public_key[64] & 1) ? 0x03 : 0x02)', '(((raw_public_key[64] ^ (raw_public_key[63] == 0)) & 1) ? 0x03 : 0x02)')],
  'a key whose y coordinate has a certain zero byte (one in 256)', 'the exported key is the negated one', '''
def f():
    d = D()
    for i in range(3000):
        p = PATH[:2] + [H + i]
        x = ref.pubpoint(d.seed, p)
        y = x[1] if isinstance(x, tuple) else int.from_bytes(x[33:], 'big')
        if (y >> 8) & 255 == 0: break
    r = d.apdu(0x10, 1, 0, encp(p))
    if r is None: r = d.approve()
    return None if r[0] == 0x9000 and r[1][:33] == d.pk(p) else 'key %r, expected %s' % (r, d.pk(p).hex())
main(f)
''')
S('p10_same_command', [('context.c', '''    explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
''', '''    if (current_command == CMD_NONE || current_command != G_app_context.current_command) {
        explicit_bzero(&G_app_context.commands_ctx, MEMBER_SIZE(app_ctx_t, commands_ctx));
    }
''')],
  'a session begun while another of the same command is not finished', 'amounts of the abandoned transaction are counted in the new one', '''
def f():
    A, = ids(5)
    d = D()
    t = Tx(d, [Box(10**9, [(A, 777)])], [(10**9, 'tree', script(40), [(0, 777)])], [A])
    t.begin()
    u = Tx(d, [Box(2 * 10**9, index=3)], [(2 * 10**9, 'tree', script(41))])
    u.frames = [d.attest(b) for b, _ in u.ins]
    x = d.sign_open(); d.start(x, 1, 0, 1, 1); d.tokens(x, [A]); d.inp(x, t.frames[0])
    u.begin(u.frames)
    u.output(u.outs[0]); u.finish()
    if not u.good(): return 'signature'
    return 'summary %r' % (u.pages,) if any('777' in b for a, b in u.pages) else None
main(f)
''')
S('p01_data_far', [(FULL, '        context->data_inputs_count--;\n', '        context->data_inputs_count -= (context->data_inputs_count == 0x100 ? 2 : 1);\n')],
  'a transaction of 256 data inputs or more', 'the last data input is not awaited, the transaction is signed with one missing', '''
def f():
    d = D()
    D_ = [be(i, 32) for i in range(1, 257)]
    t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
    frames = [d.attest(b) for b, _ in t.ins]
    s = d.sign_open(); d.start(s, 1, 256, 0, 1)
    for fr in frames: d.inp(s, fr)
    d.data_inputs(s, D_[:252])
    d.data_inputs(s, D_[252:255])
    r = d.apdu(0x21, 0x15, s, be(10**9, 8) + be(40, 4) + be(50, 4) + b'\\0' + be(0, 4))
    return 'an output is taken with a data input missing' if r is None or r[0] == 0x9000 else None
main(f)
''')
S('p16_silent_fail', [(OP, '        app_set_current_command(CMD_NONE);\n        res_error(SW_SCHNORR_SIGNING_FAILED);', '        app_set_current_command(CMD_NONE);')],
  'the platform fails while the approved signature is computed', 'an approved transaction is never answered when the signature cannot be computed', '''
def f():
    for n in range(3, 9):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.begin()
        t.output(t.outs[0])
        d.confirm(t.s)
        d.dev.send('F', n.to_bytes(4, 'little'))
        if not d.goto('approve'): return 'no prompt'
        while d.page[0].strip().lower() != 'approve': d.press('R')
        r = d.press('B')
        d.dev.send('F', bytes(4))
        if r is None: return 'failing call %d: no answer' % n
main(f)
''')
S('p20_cmp_fails', [('ergo/schnorr.c', 'if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) != 0 ||\n                cmp_diff > 0)', 'if (cx_math_cmp_no_throw(key, PIC(SECP256K1_N), PRIVATE_KEY_LEN, &cmp_diff) == 0 &&\n                cmp_diff > 0)')],
  'the comparison of the drawn number with the group order fails on a number that is out of range', 'a nonce out of range is used, its distribution is no longer even', '''
def f():
    for n in range(4, 14):
        d = D()
        draws = []
        see = d._see
        def spy(e):
            draws.extend(p for k, p in e.all if k == 'g')
            return see(e)
        d._see = spy
        d.dev.send('G', bytes([255]) * 32)
        d.dev.send('F', n.to_bytes(4, 'little'))
        r = d.apdu(0x21, 1, 1, bytes([0]) + encp(PATH))
        if r is None: r = d.approve()
        d.dev.send('F', bytes(4))
        if r and r[0] == 0x9000 and len([x for x in draws if len(x) == 32]) < 2: return 'failing call %d: the number out of range is kept' % n
main(f)
''')
S('p02_fee_reject', [(UI, '''    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens''', '''    } else {
        if (stx_output_info_type(ctx->output) != SIGN_TRANSACTION_OUTPUT_INFO_TYPE_MINERS_FEE)
            app_set_current_command(CMD_NONE);
        res_deny();
    }

    ui_menu_main();
}

bool ui_stx_add_output_screens''')],
  'a miner fee that carries a token (so that it is shown), rejected by the user, after which the host goes on', 'the session outlives the rejection and the transaction can still be signed', '''
def f():
    A, = ids(5)
    d = D()
    t = Tx(d, [Box(10**9, [(A, 9)])], [(10**6, 'fee', b'', [(0, 9)]), (999 * 10**6, 'tree', script(40))], [A])
    t.begin()
    if not d.out(t.s, 10**6, 'fee', b'', [(0, 9)], answer=False): return 'a fee with a token is not shown'
    r = d.reject()
    if r is None or r[0] == 0x9000: return 'reject: %r' % (r,)
    r = d.apdu(0x21, 0x15, t.s, be(999 * 10**6, 8) + be(40, 4) + be(50, 4) + b'\\0' + be(0, 4))
    return 'goes on after the rejection' if r is None or r[0] == 0x9000 else None
main(f)
''')
S('p04_window_wide', [(OP, 'ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)', '(uint16_t) ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)')],
  'a change path whose index is a multiple of 65536 (or little more)', 'a far address of the wallet passes for change near the signing address, without being shown', '''
def f():
    d = D()
    t = Tx(d, [Box(10**9)], [(10**9, 'change', PATH[:4] + [65536 + 1])])
    t.begin()
    v, kind, x, toks, h, regs = full(t.outs[0])
    try: p = d.out(t.s, v, kind, x, toks, h, regs, answer=False)
    except Refused: return None
    return None if p else 'a far change address was not shown'
main(f)
''')
S('p11_coin16', [('common/bip32_ext.c', 'bip32_path[1] != coin', '(bip32_path[1] & 0xFFFF) != (coin & 0xFFFF)')],
  'a path whose coin type differs from that of Ergo in the upper half only', 'keys of another coin are handed out', '''
def f():
    d = D()
    for c in (429 + 0x10000, 429 + 0x80000000, 0x70000 + 429):
        p = [H + 44, (H | c) & 0xffffffff, H]
        if p[1] == H + 429: p[1] = 429
        r = d.apdu(0x10, 1, 0, encp(p))
        if r is None or r[0] == 0x9000: return 'coin %x: %r' % (p[1], r)
main(f)
''')
S('p14_token_key', [('commands/extpubkey/epk_ui.c', 'app_set_connected_app_id(ctx->app_token_value);', 'if (app_connected_app_id() == 0) app_set_connected_app_id(ctx->app_token_value);')],
  'two applications taking turns, both approved at extended public keys', 'the approval of the second application is not remembered, the first one stays the known one', '''
def f():
    d = D()
    p = encp([H + 44, H + 429, H])
    r = d.apdu(0x10, 2, 0, p + be(11, 4))
    if r is None: r = d.approve()
    if r[0] != 0x9000: return 'first: %r' % (r,)
    r = d.apdu(0x10, 2, 0, p + be(22, 4))
    if r is not None: return 'the second application is not asked for'
    r = d.approve()
    if r[0] != 0x9000: return 'second: %r' % (r,)
    r = d.apdu(0x10, 2, 0, p + be(11, 4))
    return 'the first application is still the known one' if r is not None else None
main(f)
''')
S('p08_used_up', [('commands/attestinput/ainpt_response.c', '    return res_ok_data(&output);', '    if (frames_count > 4 && index + 1 == frames_count) ctx->state = ATTEST_INPUT_STATE_ERROR;\n    return res_ok_data(&output);')],
  'a box of five frames, asked for again after the last one', 'the frames of a box with many tokens are handed out once only', '''
def f():
    A = ids(*range(1, 19))
    d = D()
    b = Box(10**9, [(a, 5) for a in A])
    s, n = d.attest_stream(b)
    x = [d.ok(0x20, 5, s, bytes([i])) for i in range(n)]
    for i in (0, n - 1):
        r = d.apdu(0x20, 5, s, bytes([i]))
        if r is None or r[0] != 0x9000 or r[1] != x[i]: return 'frame %d again: %r' % (i, r)
main(f)
''')
S('p07_mac_token', [(HD, '                   buffer_read_ptr(cdata),\n                   frame_data_len,', '                   buffer_read_ptr(cdata),\n                   frame_data_len - (frame_data_len > FRAME_TOKEN_PREFIX_LEN),'), ('commands/attestinput/ainpt_response.c', 'rw_buffer_data_len(&output),', 'rw_buffer_data_len(&output) - (tokens_count > 0),')],
  'a frame whose last token amount is changed in its last byte', 'the lowest byte of the last amount of a frame is not authenticated', '''
def f():
    A, = ids(5)
    d = D()
    t = Tx(d, [Box(10**9, [(A, 1000)])], [(10**9, 'tree', script(40), [(0, 1000)])], [A])
    fr, = d.attest(t.ins[0][0])
    x = bytearray(fr); x[-17] ^= 1
    s = d.sign_open(); d.start(s, 1, 0, 1, 1); d.tokens(s, [A])
    r = d.apdu(0x21, 0x12, s, bytes(x) + be(0, 4))
    return 'changed frame accepted' if r is None or r[0] == 0x9000 else None
main(f)
''')
S('p20_key_half', [('context.c', 'cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key));', 'cx_rng(G_app_context.session_key, MEMBER_SIZE(app_ctx_t, session_key) / 2);')],
  'a look at the random bytes drawn when the application starts', 'half of the key that authenticates attested inputs is constant', '''
def f():
    d = D()
    n = max([len(p) for k, p in d.ev.all if k == 'g'] or [0])
    return None if n >= 16 else 'only %d random bytes' % n
main(f)
''')
S('p19_chain', [('helpers/crypto.c', """    if (result == 0) {
        memmove(private_key, ecfp_private_key.d, PRIVATE_KEY_LEN);
    }
    // reset private key and chaincode
    explicit_bzero(&ecfp_private_key, sizeof(ecfp_private_key));
    explicit_bzero(chain_code, CHAIN_CODE_LEN);
    return result;""", """    if (result == 0) {
        memmove(private_key, ecfp_private_key.d, PRIVATE_KEY_LEN);
    } else {
        explicit_bzero(chain_code, CHAIN_CODE_LEN);
    }
    // reset private key
    explicit_bzero(&ecfp_private_key, sizeof(ecfp_private_key));
    return result;""")],
  'a look at the stack after a signing session was opened', 'the chain code of the signing key, never exported, stays on the stack', '''
def f():
    for v in ('residue', 'residue_o2'):
        d = D(v)
        m = []
        see = d._see
        d._see = lambda e: (m.extend(1 for t, p in e.all if t == 'm' and p[1] == 4), see(e))[1]
        d.apdu(0x21, 1, 1, b'\\0' + encp(PATH))
        d.approve()
        if m: return 'chain code found in memory'
main(f)
''')
S('p05_table_full', [(AM, 'if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_ERR_TOO_MANY_TOKENS;', 'if (!IS_ELEMENT_FOUND(index)) return ERGO_TX_SERIALIZER_INPUT_RES_OK;')],
  'inputs that carry more than twenty different tokens',
  'tokens beyond the twentieth are left out of the summary, so that burning them is not shown', SIMPLE + '''
def f():
    d = D()
    bs = [Box(10**9, [(x, 5) for x in ids(*range(1, 15))]), Box(10**9, [(x, 5) for x in ids(*range(15, 30))])]
    t = Tx(d, bs, [(2 * 10**9, 'tree', script(40))])
    try: t.begin()
    except Refused: return None
    return 'inputs with 29 different tokens were accepted'
main(f)
''')
S('p05_long32', [(UI, 'int64_t value = ctx->amounts->tokens[token_idx];', 'long value = ctx->amounts->tokens[token_idx];')],
  'the 32-bit device (the tests run with 64 bits) and a difference of a token beyond 31 bits',
  'a large burned amount is shown as another amount, or as minted', '''
def f():
    d = D('asan32')
    A, = ids(5)
    t = Tx(d, [Box(10**9, [(A, 3 * 10**9)])], [(10**9, 'tree', script(40))])
    t.go()
    return None if shown(t.pages, 'Token [1] Value') == 'Burning: 3000000000' else 'shown: %r' % (t.pages,)
main(f)
''')
S('p03_size32', [(UI, 'format_u64(text, text_len, ctx->output->tokens[token_idx]);', 'format_u64(text, text_len, (size_t) ctx->output->tokens[token_idx]);')],
  'the 32-bit device (the tests run with 64 bits) and an output with more than 2^32 of a token',
  'an output prompt shows a fraction of the amount of a token', '''
def f():
    d = D('asan32')
    A, = ids(5)
    t = Tx(d, [Box(10**9, [(A, 5 * 10**9)])], [(10**9, 'tree', script(40), [(0, 5 * 10**9)])], [A])
    t.begin()
    v, kind, x, toks, height, regs = full(t.outs[0])
    d.out(t.s, v, kind, x, toks, height, regs, False)
    p = d.pages()
    return None if shown(p, 'Token [1] Value') == '5000000000' else 'shown: %r' % (p,)
main(f)
''')
S('p23_size32', [('common/gve.c', '*val |= (uint64_t) (byte & 0x7F) << shift;', '*val |= shift < 8 * sizeof(size_t) ? (size_t) (byte & 0x7F) << shift : 0;')],
  'the 32-bit device (the tests run with 64 bits) and a number beyond 32 bits',
  'the high bits of a number are lost when it is read', '''
def f():
    import subprocess
    c = os.path.join(TMP, 'm.c')
    open(c, 'w').write("""
#include "common/gve.h"
int main(void) {
    uint8_t d[16]; rw_buffer_t b; uint64_t v, x = 0x123456789abcdefull;
    rw_buffer_init(&b, d, 16, 0);
    return !(gve_put_u64(&b, x) == GVE_OK && gve_get_u64(&b.read, &v) == GVE_OK && v == x);
}
""")
    e = os.path.join(KIT, 'emu')
    m = build.M32 or ([], [], [])
    exe = os.path.join(TMP, 'm')
    build.run(['clang', '-std=gnu11', '-w', '-include', e + '/include/emu_prefix.h', '-I' + e + '/include', '-I' + e + '/sdk', '-I' + os.path.join(os.getcwd(), 'src')] + m[0] + m[1] + [c] +
              ([e + '/m32/start.c'] if m[0] else []) + [os.path.join(os.getcwd(), 'src/common', x) for x in ('gve.c', 'rwbuffer.c')] +
              [e + '/sdk/%s.c' % x for x in ('buffer', 'bip32', 'read', 'write', 'varint')] + ['-ffunction-sections', '-Wl,--gc-sections', '-o', exe] + m[2])
    return None if subprocess.run([exe]).returncode == 0 else 'a number changes when it is written and read back'
main(f)
''')
S('p15_debug', [('commands/app_version.c', '    version[APPVERSION_LEN - 1] = 1;', '    version[APPVERSION_LEN - 2] |= 1;')],
  'a debug build', 'a debug build presents itself as a release', '''
def f():
    d = D('asan_d')
    r = d.apdu(1, 0, 0)
    return None if r and r[0] == 0x9000 and len(r[1]) == 4 and r[1][3] == 1 else 'a debug build answered %r' % (r,)
main(f)
''')
S('p21_nonce_fails', [(OP, '''    bool inited = ergo_secp256k1_schnorr_p2pk_sign_init(&ctx->tx_hash, ctx->schnorr_key, secret);
    explicit_bzero(secret, PRIVATE_KEY_LEN);

    if (!inited) {
        explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);
        return SW_INTERNAL_CRYPTO_ERROR;
    }
''', '''    // Retries until the nonce is a good one
    ergo_secp256k1_schnorr_p2pk_sign_init(&ctx->tx_hash, ctx->schnorr_key, secret);
    explicit_bzero(secret, PRIVATE_KEY_LEN);
''')],
  'the platform failing during the whole request that opens a signing session, and working again afterwards', 'the session goes on without a nonce and signs with what is in its place', '''
def f():
    for n in range(1, 16):
        d = D()
        t = Tx(d, [Box(10**9)], [(10**9, 'tree', script(40))])
        t.frames = [d.attest(b) for b, _ in t.ins]
        d.dev.send('F', n.to_bytes(4, 'little') + b'\\xfe\\xff\\xff\\xff')
        r = d.apdu(0x21, 1, 1, bytes([t.net]) + encp(t.path))
        if r is None and d.page: r = d.approve()
        d.dev.send('F', bytes(4))
        if not r or r[0] != 0x9000: continue
        t.s = r[1][0]
        try:
            d.start(t.s, 1, 0, 0, 1)
            d.inp(t.s, t.frames[0])
            t.output(t.outs[0])
            t.finish()
        except Refused: continue
        if not t.good(): return 'failing from call %d on: a signature that is none' % n
main(f)
''')

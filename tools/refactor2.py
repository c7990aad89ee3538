# more rewrites for refactor.py
rf('stx_ui_value', ('commands/signtx/stx_ui.c', '''                if (value < 0) {  // output > inputs
                    STRING_ADD_STATIC_TEXT(text, text_len, "Minting: ");
                    format_u64(text, text_len, -(uint64_t) value);
                } else {  // inputs > outputs
                    STRING_ADD_STATIC_TEXT(text, text_len, "Burning: ");
                    format_u64(text, text_len, value);
                }
''', '''                const bool minting = value < 0;
                uint64_t amount = (uint64_t) value;
                if (minting) amount = 0 - amount;
                const char *word = minting ? "Minting: " : "Burning: ";
                size_t n = strlen(word);
                memcpy(text, word, n);
                format_u64(text + n, text_len - n, amount);
'''), ('commands/signtx/stx_ui.c', '''static inline void id_string_remove_middle(char* str, size_t len) {
    if (len <= 2 * ERGO_ID_UI_CHARACTERS_HALF + 3) return;
    str[ERGO_ID_UI_CHARACTERS_HALF] = str[ERGO_ID_UI_CHARACTERS_HALF + 1] =
        str[ERGO_ID_UI_CHARACTERS_HALF + 2] = '.';
    memmove(str + ERGO_ID_UI_CHARACTERS_HALF + 3,
            str + len - ERGO_ID_UI_CHARACTERS_HALF,
            ERGO_ID_UI_CHARACTERS_HALF);
    str[2 * ERGO_ID_UI_CHARACTERS_HALF + 3] = '\\0';
}
''', '''static inline void id_string_remove_middle(char* str, size_t len) {
    const size_t shown = 2 * ERGO_ID_UI_CHARACTERS_HALF + 3;
    if (len > shown) {
        char* to = str + ERGO_ID_UI_CHARACTERS_HALF;
        const char* from = str + (len - ERGO_ID_UI_CHARACTERS_HALF);
        for (int i = 0; i < 3; i++) *to++ = '.';
        for (int i = 0; i < ERGO_ID_UI_CHARACTERS_HALF; i++) *to++ = *from++;
        *to = 0;
    }
}
'''), ('commands/signtx/stx_ui.c', '''    explicit_bzero(ctx->last_approved_change, sizeof(sign_transaction_bip32_path_t));

    if (approved) {
        // store last approved change address
        if (stx_output_info_type(ctx->output) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32) {
            memmove(ctx->last_approved_change,
                    &ctx->output->bip32_path,
                    sizeof(sign_transaction_bip32_path_t));
        }
        res_ok();
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }

    ui_menu_main();
''', '''    const bool is_change =
        stx_output_info_type(ctx->output) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32;
    if (!approved || !is_change) {
        memset(ctx->last_approved_change, 0, sizeof(sign_transaction_bip32_path_t));
    } else {
        *ctx->last_approved_change = ctx->output->bip32_path;
    }
    if (!approved) {
        app_set_current_command(CMD_NONE);
        res_deny();
        ui_menu_main();
        return;
    }
    res_ok();
    ui_menu_main();
'''))
rf('stx_ui_pages', ('commands/signtx/stx_ui.c', '''    uint8_t info_screen_count = 1;  // Address screen
    if (stx_output_info_type(output) != SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32) {
        uint8_t tokens_count = stx_output_info_used_tokens_count(output);
        info_screen_count += 1 + (2 * tokens_count);  // value screen + tokens (2 for each)
    }
''', '''    const bool change = stx_output_info_type(output) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32;
    uint8_t info_screen_count =
        change ? 1 : (uint8_t) ((stx_output_info_used_tokens_count(output) + 1) * 2);
'''), ('commands/signtx/stx_ui.c', '''static inline bool format_erg_amount(uint64_t amount, char* out, size_t out_len) {
    if (!format_fpu64(out, out_len, amount, ERGO_ERG_FRACTION_DIGIT_COUNT)) {
        return false;
    }
    size_t out_bytes = strlen(out);
    if (out_len < 5 || out_bytes > out_len - 5) return false;
    out_len -= out_bytes;
    out += out_bytes;
    STRING_ADD_STATIC_TEXT(out, out_len, " ERG");
    return true;
}''', '''static inline bool format_erg_amount(uint64_t amount, char* out, size_t out_len) {
    static const char unit[] = " ERG";
    if (!format_fpu64(out, out_len, amount, ERGO_ERG_FRACTION_DIGIT_COUNT)) return false;
    size_t used = strlen(out);
    if (used + sizeof(unit) > out_len) return false;
    memcpy(out + used, unit, sizeof(unit));
    return true;
}'''))
rf('handler', ('commands/signtx/stx_handler.c', '''    if (stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk)) {
        // Show it
        CHECK_CALL_RESULT_SW_OK(ctx, ui_stx_operation_p2pk_show_output_confirm_screen(&ctx->p2pk));
        return 0;
    }
    // We don't need to show confirm screen
    return res_ok();
''', '''    if (!stx_operation_p2pk_should_show_output_confirm_screen(&ctx->p2pk)) return res_ok();
    uint16_t sw = ui_stx_operation_p2pk_show_output_confirm_screen(&ctx->p2pk);
    return sw == SW_OK ? 0 : handler_err(ctx, sw);
'''), ('commands/signtx/stx_handler.c', '''    if (memcmp(id_buffer, input_frame_signature_ptr(cdata), INPUT_FRAME_SIGNATURE_LEN) != 0) {
        return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);
    }
''', '''    const uint8_t *theirs = input_frame_signature_ptr(cdata);
    uint8_t diff = 0;
    for (size_t i = 0; i < INPUT_FRAME_SIGNATURE_LEN; i++) diff |= theirs[i] ^ id_buffer[i];
    if (diff) {
        return handler_err(ctx, SW_BAD_FRAME_SIGNATURE);
    }
'''), ('commands/signtx/stx_handler.c', '''        case SIGN_TRANSACTION_SUBCOMMAND_START_TX:
            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            CHECK_SESSION(ctx, session_or_token);
            return handle_tx_start(ctx, cdata);
        case SIGN_TRANSACTION_SUBCOMMAND_TOKEN_IDS:
            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            CHECK_SESSION(ctx, session_or_token);
            return handle_tokens(ctx, cdata);
''', '''        case SIGN_TRANSACTION_SUBCOMMAND_START_TX:
        case SIGN_TRANSACTION_SUBCOMMAND_TOKEN_IDS:
            CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
            CHECK_SESSION(ctx, session_or_token);
            return subcommand == SIGN_TRANSACTION_SUBCOMMAND_START_TX ? handle_tx_start(ctx, cdata)
                                                                     : handle_tokens(ctx, cdata);
'''), ('commands/signtx/stx_handler.c', '''    ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;
    ctx->state = SIGN_TRANSACTION_STATE_INITIALIZED;
    ctx->session = app_new_session_id();

    // switch''', '''    ctx->session = app_new_session_id();
    ctx->state = SIGN_TRANSACTION_STATE_INITIALIZED;
    ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;

    // switch'''))
rf('p2pk_change', ('commands/signtx/operations/stx_op_p2pk.c', '''        // Check was it already approved then approve automatically
        if (stx_bip32_path_is_equal(&ctx->transaction.ui.output.bip32_path,
                                    &ctx->transaction.last_approved_change))
            return false;
        // if account is the same and change index is < current + 20 then we approve it
        // automatically
        if (stx_bip32_path_same_account(&ctx->transaction.ui.output.bip32_path, &ctx->bip32) &&
            ctx->transaction.ui.output.bip32_path.path[3] == ctx->bip32.path[3] &&
            ctx->transaction.ui.output.bip32_path.path[4] < ctx->bip32.path[4] + 20)
            return false;
''', '''        const sign_transaction_bip32_path_t *change = &ctx->transaction.ui.output.bip32_path;
        const bool near = stx_bip32_path_same_account(change, &ctx->bip32) &&
                          change->path[3] == ctx->bip32.path[3] &&
                          !(change->path[4] >= 20 + ctx->bip32.path[4]);
        return !near && !stx_bip32_path_is_equal(change, &ctx->transaction.last_approved_change);
'''), ('commands/signtx/operations/stx_op_p2pk.c', '''    switch (res) {
        case ERGO_TX_SERIALIZER_FULL_RES_OK: {
            is_finished = true;
            break;
        }
        case ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA: {
            is_finished = false;
            break;
        }
        default:  // ERROR happened.
            return handler_err(ctx, sw_from_tx_full_result(res));
    }
''', '''    is_finished = res == ERGO_TX_SERIALIZER_FULL_RES_OK;
    if (!is_finished && res != ERGO_TX_SERIALIZER_FULL_RES_MORE_DATA) {
        return handler_err(ctx, sw_from_tx_full_result(res));
    }
'''), ('commands/signtx/operations/stx_op_p2pk.c', '''    bool finished =
        ergo_secp256k1_schnorr_p2pk_sign_finish(signature, &ctx->tx_hash, secret, ctx->schnorr_key);
    explicit_bzero(secret, PRIVATE_KEY_LEN);
    explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);

    if (finished) {
        res_ok_data(&res_sig);
    } else {
        app_set_current_command(CMD_NONE);
        res_error(SW_SCHNORR_SIGNING_FAILED);
    }
''', '''    uint16_t sw = SW_SCHNORR_SIGNING_FAILED;
    if (ergo_secp256k1_schnorr_p2pk_sign_finish(signature,
                                                &ctx->tx_hash,
                                                secret,
                                                ctx->schnorr_key)) {
        sw = SW_OK;
    }
    explicit_bzero(ctx->schnorr_key, PRIVATE_KEY_LEN);
    explicit_bzero(secret, PRIVATE_KEY_LEN);
    if (sw != SW_OK) {
        app_set_current_command(CMD_NONE);
        res_error(sw);
        return;
    }
    res_ok_data(&res_sig);
'''))
rf('output_info', ('commands/signtx/stx_output.c', '''    if (stx_output_info_is_finished(ctx)) {
        if (STX_OUTPUT_INFO_TYPE(ctx) == SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT) {
            uint8_t hash[CX_BLAKE2B_256_SIZE];
            if (!blake2b_256_finalize(&ctx->tree_hash_ctx, hash)) {
                return ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER;
            }
            memmove(ctx->tree_hash, hash, CX_BLAKE2B_256_SIZE);
        }
    }
    return ERGO_TX_SERIALIZER_BOX_RES_OK;
''', '''    uint8_t hash[CX_BLAKE2B_256_SIZE];
    if (!stx_output_info_is_finished(ctx) ||
        STX_OUTPUT_INFO_TYPE(ctx) != SIGN_TRANSACTION_OUTPUT_INFO_TYPE_SCRIPT) {
        return ERGO_TX_SERIALIZER_BOX_RES_OK;
    }
    if (!blake2b_256_finalize(&ctx->tree_hash_ctx, hash)) {
        return ERGO_TX_SERIALIZER_BOX_RES_ERR_HASHER;
    }
    memcpy(ctx->tree_hash, hash, sizeof(hash));
    return ERGO_TX_SERIALIZER_BOX_RES_OK;
'''), ('commands/signtx/stx_output.c', '''    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; i++) {
        if (ctx->tokens[i] > 0) count++;
    }
''', '''    for (uint8_t i = 0; i < TOKEN_MAX_COUNT; ++i) count += ctx->tokens[i] != 0;
'''), ('commands/signtx/stx_output.c', '''    STX_OUTPUT_SET_TYPE(ctx, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32);
    STX_OUTPUT_SET_TREE_SET(ctx);
    ctx->bip32_path.len = path_len;
    memmove(ctx->bip32_path.path, path, path_len * sizeof(uint32_t));
''', '''    memmove(ctx->bip32_path.path, path, path_len * sizeof(uint32_t));
    ctx->bip32_path.len = path_len;
    STX_OUTPUT_SET_TREE_SET(ctx);
    STX_OUTPUT_SET_TYPE(ctx, SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32);
'''))
rf('box', ('ergo/tx_ser_box.c', '''static inline ergo_tx_serializer_box_result_e box_finished(
''', '''static bool hash_rw(ergo_tx_serializer_box_context_t* context, rw_buffer_t* b) {
    return blake2b_update(context->hash, rw_buffer_read_ptr(b), rw_buffer_data_len(b));
}

static inline ergo_tx_serializer_box_result_e box_finished(
'''), ('ergo/tx_ser_box.c', '''            if (!blake2b_update(context->hash,
                                rw_buffer_read_ptr(&buffer),
                                rw_buffer_data_len(&buffer))) {
                return''', '''            if (!hash_rw(context, &buffer)) {
                return'''), ('ergo/tx_ser_box.c', '''        if (!blake2b_update(context->hash,
                            rw_buffer_read_ptr(&buffer),
                            rw_buffer_data_len(&buffer))) {
            return''', '''        if (!hash_rw(context, &buffer)) {
            return'''), ('ergo/tx_ser_box.c', '''    if (context->tokens_count == 0) {
        if (context->registers_size == 0) {
            CHECK_CALL_RESULT_OK(context, add_empty_registers_count(context));
            return box_finished(context);
        } else {
            context->state = ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
        }
        return ERGO_TX_SERIALIZER_BOX_RES_OK;
    }
    return ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
''', '''    if (context->tokens_count != 0) return ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
    if (context->registers_size != 0) {
        context->state = ERGO_TX_SERIALIZER_BOX_STATE_TOKENS_ADDED;
        return ERGO_TX_SERIALIZER_BOX_RES_OK;
    }
    CHECK_CALL_RESULT_OK(context, add_empty_registers_count(context));
    return box_finished(context);
'''), ('ergo/tx_ser_box.c', '''    if (ergo_tree_size > MAX_TX_DATA_PART_LEN) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_TOO_MUCH_DATA);
    }

    if (registers_size > MAX_TX_DATA_PART_LEN) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_TOO_MUCH_DATA);
    }
''', '''    const uint32_t longest = ergo_tree_size < registers_size ? registers_size : ergo_tree_size;
    if (longest > MAX_TX_DATA_PART_LEN) {
        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_TOO_MUCH_DATA);
    }
'''))
rf('attest', ('commands/attestinput/ainpt_handler.c', '''    for (uint8_t i = 0; i < ctx->tokens_table.count; i++) {
        if (memcmp(id, ctx->tokens_table.tokens[i], ERGO_ID_LEN) == 0) {
            return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;
        }
    }
    memmove(ctx->tokens_table.tokens[ctx->tokens_table.count], id, ERGO_ID_LEN);
    ctx->token_amounts[ctx->tokens_table.count++] = value;
''', '''    const uint8_t n = ctx->tokens_table.count;
    for (uint8_t i = n; i > 0; i--) {
        if (!memcmp(id, ctx->tokens_table.tokens[i - 1], ERGO_ID_LEN)) {
            return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_ID;
        }
    }
    ctx->token_amounts[n] = value;
    memcpy(ctx->tokens_table.tokens[n], id, ERGO_ID_LEN);
    ctx->tokens_table.count = n + 1;
'''), ('commands/attestinput/ainpt_handler.c', '''    ctx->tokens_table.count = 0;

    memset(&ctx->ui, 0, sizeof(_attest_input_ui_ctx_t));

    if (!''', '''    memset(&ctx->ui, 0, sizeof(_attest_input_ui_ctx_t));
    memset(&ctx->tokens_table, 0, sizeof(ctx->tokens_table));
    memset(ctx->token_amounts, 0, sizeof(ctx->token_amounts));

    if (!'''), ('commands/attestinput/ainpt_handler.c', '''    if (is_known_application(app_session_id, app_session_id_in)) {
        ctx->state = ATTEST_INPUT_STATE_APPROVED;
        return send_response_attested_input_session_id(ctx->session);
    }

    return ui_display_access_token(app_session_id_in, ctx);
''', '''    if (!is_known_application(app_session_id, app_session_id_in)) {
        return ui_display_access_token(app_session_id_in, ctx);
    }
    ctx->state = ATTEST_INPUT_STATE_APPROVED;
    return send_response_attested_input_session_id(ctx->session);
'''))
rf('dispatch', ('apdu_dispatcher.c', '''    switch (cmd->ins) {
        case CMD_GET_APP_VERSION:
            if (cmd->p1 != 0 || cmd->p2 != 0) {
                return io_send_sw(SW_WRONG_P1P2);
            }
            if (cmd->lc != 0) {
                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
            }
            return handler_get_version();
        case CMD_GET_APP_NAME:
            if (cmd->p1 != 0 || cmd->p2 != 0) {
                return io_send_sw(SW_WRONG_P1P2);
            }
            if (cmd->lc != 0) {
                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
            }
            return handler_get_app_name();
''', '''    if (cmd->ins == CMD_GET_APP_VERSION || cmd->ins == CMD_GET_APP_NAME) {
        if ((cmd->p1 | cmd->p2) != 0) return io_send_sw(SW_WRONG_P1P2);
        if (cmd->lc > 0) return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
        return cmd->ins == CMD_GET_APP_NAME ? handler_get_app_name() : handler_get_version();
    }
    switch (cmd->ins) {
'''))
rf('address_ui', ('commands/deriveaddress/da_ui.c', '''    uint8_t screen = 0;
    ui_add_screen(send ? &ux_da_display_confirm_send_step : &ux_da_display_confirm_addr_step,
                  &screen);
    ui_add_screen(b32_screen, &screen);
    if (!send) {
        ui_add_screen(&ux_da_display_address_step, &screen);
    }
''', '''    uint8_t screen = 0;
    if (send) {
        ui_add_screen(&ux_da_display_confirm_send_step, &screen);
        ui_add_screen(b32_screen, &screen);
    } else {
        ui_add_screen(&ux_da_display_confirm_addr_step, &screen);
        ui_add_screen(b32_screen, &screen);
        ui_add_screen(&ux_da_display_address_step, &screen);
    }
'''), ('commands/deriveaddress/da_ui.c', '''    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
        if (ctx->send) {
            send_response_address(ctx->raw_address);
        } else {
            app_set_current_command(CMD_NONE);
            res_ok();
        }
    } else {
        app_set_current_command(CMD_NONE);
        res_deny();
    }
''', '''    if (!approved) {
        app_set_current_command(CMD_NONE);
        res_deny();
        ui_menu_main();
        return;
    }
    app_set_connected_app_id(ctx->app_token_value);
    if (!ctx->send) {
        app_set_current_command(CMD_NONE);
        res_ok();
    } else {
        send_response_address(ctx->raw_address);
    }
'''), ('commands/deriveaddress/da_handler.c', '''    if (!ergo_address_from_pubkey(network_type, public_key, ctx->raw_address)) {
        return res_error(SW_ADDRESS_GENERATION_FAILED);
    }
''', '''    bool ok = ergo_address_from_pubkey(network_type, public_key, ctx->raw_address);
    if (!ok) {
        return handler_err(ctx, SW_ADDRESS_GENERATION_FAILED);
    }
'''))
rf('pubkey', ('commands/extpubkey/epk_response.c', '''    CHECK_WRITE_PARAM(rw_buffer_write_u8(&response, ((raw_public_key[64] & 1) ? 0x03 : 0x02)));
    CHECK_WRITE_PARAM(rw_buffer_write_bytes(&response, raw_public_key + 1, 32));
    CHECK_WRITE_PARAM(rw_buffer_write_bytes(&response, chain_code, CHAIN_CODE_LEN));

    app_set_current_command(CMD_NONE);
''', '''    uint8_t out[1 + 32 + CHAIN_CODE_LEN];
    out[0] = 2 + raw_public_key[64] % 2;
    memcpy(out + 1, raw_public_key + 1, 32);
    memcpy(out + 33, chain_code, CHAIN_CODE_LEN);
    CHECK_WRITE_PARAM(rw_buffer_write_bytes(&response, out, sizeof(out)));

    app_set_current_command(CMD_NONE);
'''), ('commands/extpubkey/epk_ui.c', '''    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
        send_response_extended_pubkey(ctx->raw_public_key, ctx->chain_code);
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));
    } else {
        explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));
        res_deny();
    }

    app_set_current_command(CMD_NONE);
''', '''    if (approved) {
        app_set_connected_app_id(ctx->app_token_value);
        send_response_extended_pubkey(ctx->raw_public_key, ctx->chain_code);
    } else {
        res_deny();
    }
    explicit_bzero(ctx, sizeof(extended_public_key_ctx_t));
    app_set_current_command(CMD_NONE);
'''))
rf('session', ('helpers/session_id.h', '''    uint8_t id = 0;
    do {
        id = cx_rng_u8();
    } while (id == 0 || id == old_session_id);
    return id;
''', '''    for (;;) {
        const uint8_t id = cx_rng_u8();
        if (id != 0 && id != old_session_id) return id;
    }
'''))
rf('inputframe', ('helpers/input_frame.c', '''    uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
    if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
        return 0;
    }
    return data_len;
''', '''    const size_t need =
        FRAME_TOKEN_PREFIX_LEN + FRAME_TOKEN_VALUE_PAIR_SIZE * (size_t) token_count;
    return buffer_can_read(input, need + INPUT_FRAME_SIGNATURE_LEN) ? (uint8_t) need : 0;
'''))
rf('menu', ('ui/ui_menu.c', '''    ui_add_screen(&ux_menu_exit_step, &screen);
    ui_display_screens(&screen);

    app_set_ui_busy(false);
''', '''    ui_add_screen(&ux_menu_exit_step, &screen);
    ui_display_screens(&screen);
    if (app_is_ui_busy()) app_set_ui_busy(false);
'''), ('ui/ui_dynamic_flow.c', '''    if (G_dynamic_flow_context.current_screen == INDEX_NOT_EXIST) {
        G_dynamic_flow_context.current_screen = G_dynamic_flow_context.screen_count - 1;
        DISPLAY_DYNAMIC_STATE(bnnn_paging_edgecase);
    } else {
        if (G_dynamic_flow_context.current_screen < G_dynamic_flow_context.screen_count - 1) {
            G_dynamic_flow_context.current_screen++;
            DISPLAY_DYNAMIC_STATE(bnnn_paging_edgecase);
        } else {
            G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
            // go to the next static screen
            ux_flow_next();
        }
    }
''', '''    const uint8_t last = G_dynamic_flow_context.screen_count - 1;
    const uint8_t at = G_dynamic_flow_context.current_screen;
    if (at != INDEX_NOT_EXIST && at >= last) {
        G_dynamic_flow_context.current_screen = INDEX_NOT_EXIST;
        ux_flow_next();
        return;
    }
    G_dynamic_flow_context.current_screen = at == INDEX_NOT_EXIST ? last : at + 1;
    DISPLAY_DYNAMIC_STATE(bnnn_paging_edgecase);
'''))
# internal interfaces that the native harnesses call: renamed, so that those harnesses no longer build (only on request)
rf('rename', ('*', 'ergo_tree_parse_p2pk', 'tree_is_p2pk'), ('*', 'bip32_path_same_account', 'same_account'), ('*', 'checked_add_i64', 'add_i64'),
   ('*', 'ergo_tx_serializer_full_set_box_callbacks', 'full_box_callbacks'))
ONLY = {'rename'}

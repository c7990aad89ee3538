/* platform services whose callers are looked at; build.py passes --wrap for each */
TRAMPOLINE(cx_rng_no_throw)
TRAMPOLINE(cx_rng)
TRAMPOLINE(cx_rng_u8)
TRAMPOLINE(cx_rng_u32)
TRAMPOLINE(cx_blake2b_init_no_throw)
TRAMPOLINE(cx_hash_no_throw)
TRAMPOLINE(cx_hash_update)
TRAMPOLINE(cx_hash_final)
TRAMPOLINE(cx_blake2b_256_hash)
TRAMPOLINE(cx_hmac_sha256)
TRAMPOLINE(os_derive_bip32_no_throw)
TRAMPOLINE(cx_ecfp_init_private_key_no_throw)
TRAMPOLINE(cx_ecfp_generate_pair_no_throw)
TRAMPOLINE(cx_ecfp_scalar_mult_no_throw)
TRAMPOLINE(cx_math_cmp_no_throw)
TRAMPOLINE(cx_math_is_zero)
TRAMPOLINE(cx_math_multm_no_throw)
TRAMPOLINE(cx_math_addm_no_throw)
TRAMPOLINE(cx_math_subm_no_throw)
TRAMPOLINE(format_u64)
TRAMPOLINE(format_fpu64)
TRAMPOLINE(format_hex)
TRAMPOLINE(io_send_response_buffers)
TRAMPOLINE(io_recv_command)
TRAMPOLINE(ux_flow_init)
TRAMPOLINE(ux_flow_relayout)
TRAMPOLINE(ux_flow_next)
TRAMPOLINE(ux_flow_prev)
TRAMPOLINE(base58_encode)
TRAMPOLINE(bip32_path_format)
TRAMPOLINE(apdu_parser)

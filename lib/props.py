"""Which harnesses decide which property. Names ending in ! run in the thorough tier only."""

# Harnesses repeated after another call: `name@1` after one arbitrary call, `name@2` after two arbitrary decodings
# or encodings, `name@3` after a long fixed session, `name@4` after the same or a like call again (harness/src/props/history.rs).
HISTORY = [n + m for m in ("@1", "@3", "@2", "@4") for n in (
    "encoding_prod_mask_panic", "encoding_test_mask_nop", "encoding_prod_canonical", "encoding_prod_select", "encoding_test_fetch",
    "tables_bits", "tables_prices", "tables_privileges_by_number", "tables_flag_roles",
    "abi_pointer_pack", "abi_far_call", "abi_meta", "abi_conditions", "abi_hash_build", "abi_code_hash_refused")]
# too many paths to be repeated after any call within a quick run
LONG = """tables_bits_both_versions tables_bits_decode tables_encode_unlisted tables_lookup_total tables_table_wide
    tables_version_compat abi_code_hash_long abi_code_hash_longest tables_table_narrow values_printed_test_imm0
    values_printed_test_imm1 values_printed_prod_regs values_order_far_call values_order_variant values_order_listed
    values_order_opcode values_order_small values_equality_variant""".split()
# after two calls in the quick tier, too
TWO = "encoding_prod_decode encoding_test_decode abi_conditions".split()
# too many paths to be repeated after two equal or alike calls within a quick run
LONG4 = LONG + """encoding_prod_encode encoding_test_encode tables_bits_decode tables_numbering_injective tables_privileges
    tables_table_v1 tables_table_future tables_flag_roles values_order_calls values_order_meta values_order_operand
    values_order_pointer values_order_precompile""".split()
# not repeated after any call at all: their own inputs are a history, or there is nothing to start from
ALONE = "encoding_history_cross encoding_prod_history_decode encoding_test_history_decode encoding_prod_history_encode encoding_test_history_encode tables_table_wide".split()

PROPS = {
    "C01": ["encoding_prod_decode", "encoding_prod_history_decode", "encoding_history_cross", "tables_numbering", "abi_conditions",
            "encoding_layout_constants"],
    "C02": ["encoding_prod_encode", "encoding_prod_reencode", "encoding_prod_bytes", "encoding_prod_history_encode"],
    "C03": ["encoding_test_decode", "encoding_test_history_decode", "encoding_history_cross", "tables_numbering", "abi_conditions",
            "encoding_layout_constants"],
    "C04": ["encoding_test_encode", "encoding_test_reencode", "encoding_test_bytes", "encoding_test_history_encode"],
    "C05": [
        "encoding_prod_canonical", "encoding_prod_canonical_encoder", "encoding_prod_canonical_injective",
        "encoding_test_canonical", "encoding_test_canonical_encoder", "encoding_test_canonical_injective",
    ],
    "C06": [
        "encoding_prod_split_pc", "encoding_prod_fetch", "encoding_prod_select",
        "encoding_test_split_pc", "encoding_test_fetch", "encoding_test_select",
    ],
    "C07": ["tables_numbering", "tables_numbering_injective", "tables_table_v1", "tables_table_wide", "tables_table_v0",
            "tables_table_future", "tables_table_narrow"],
    "C08": ["tables_table_v0", "tables_table_v0_legacy", "tables_version_compat", "tables_versions", "tables_table_v1"],
    "C09": ["tables_lookup_total", "tables_lookup_inverse", "tables_encode_unlisted", "tables_numbering"],
    "C10": ["tables_bits", "tables_bits_both_versions", "tables_bits_decode", "tables_bit_counts"],
    "C11": ["tables_privileges", "tables_privileges_by_number", "tables_bits"],
    "C12": ["tables_invalid", "tables_invalid_testing", "tables_bits", "tables_prices", "encoding_prod_reencode", "encoding_test_reencode"],
    "C13": ["tables_prices", "tables_prices_by_variant", "abi_named_prices", "abi_unit_prices"],
    "C14": ["gen_generator"],
    "C15": ["abi_price_floors", "abi_call_depth", "abi_unit_prices", "abi_pubdata"],
    "C16": [
        "encoding_prod_mask_panic", "encoding_prod_mask_nop", "encoding_prod_fixed",
        "encoding_test_mask_panic", "encoding_test_mask_nop", "encoding_test_fixed", "tables_bit_counts"],
    "C17": ["encoding_prod_history_decode", "encoding_test_history_decode", "encoding_prod_history_encode",
            "encoding_test_history_encode", "encoding_history_cross", "init_first", "init_entry_points", "init_recomputed", "init_pairs!"] + HISTORY,
    "C18": ["abi_pointer_unpack", "abi_pointer_pack"],
    "C19": ["abi_pointer_validate", "abi_pointer_bounds", "abi_pointer_safety"],
    "C20": ["abi_far_call", "abi_ret", "abi_forward_modes", "abi_pointer_unpack"],
    "C21": ["abi_near_call", "abi_precompile", "abi_precompile_inner"],
    "C22": ["abi_meta"],
    "C23": ["abi_hash_parse", "abi_hash_build", "abi_hash_storage"],
    "C24": ["abi_code_hash_short", "abi_code_hash_short_mode", "abi_code_hash_short_testing", "abi_code_hash_refused",
            "abi_code_hash_long", "abi_code_hash_longest"],
    "C25": ["abi_conditions", "abi_conditions_range"],
    "C26": ["tables_subvariants_a", "tables_subvariants_b", "tables_prototypes"],
    "C27": ["abi_nibbles", "abi_pc_helpers", "abi_int_bytes"],
    "C28": ["tables_flag_roles"],
    "C29": ["tables_operands", "tables_operand_modes", "tables_addressing_modes", "tables_table_v0", "tables_table_v1"],
    "C30": ["abi_pages", "abi_registers", "abi_addresses"],
    "C31": ["abi_deref_limit"],
    "C32": ["values_order_operand", "values_order_opcode", "values_equality_variant", "values_order_variant", "values_order_listed",
            "values_order_small", "values_order_pointer", "values_order_far_call", "values_order_calls", "values_order_meta",
            "values_order_precompile", "values_equality_hash"],
    "C33": ["values_printed_prod_regs", "values_printed_prod_imm0", "values_printed_prod_imm1", "values_printed_test_imm0",
            "values_printed_test_imm1", "values_printed_variants"],
}
PROPS["C40"] = ["threads_pair_%d" % k for k in range(17)] + [
    "threads_first_%d%s" % (k, "!" if k in (4, 5) else "") for k in (3, 1, 7, 0, 2, 6, 4, 5)] + ["threads_any_first_%d!" % k for k in range(8)]


for _k, _l in PROPS.items():
    _base = [n for n in _l if "@" not in n and not n.endswith("!") and not n.startswith(("init_", "gen_", "threads_"))]
    _l += [n + "@3" for n in _base if n + "@3" not in _l]
    _l += [n + ("@1!" if n in LONG else "@1") for n in _base if n not in ALONE and n + "@1" not in _l]
    _l += [n + ("@4!" if n in LONG4 else "@4") for n in _base if n not in ALONE]
    _l += [n + ("@2" if n in TWO else "@2!") for n in _base if n not in ALONE and n not in LONG and n + "@2" not in _l]

# Bounds that the harnesses impose on otherwise unrestricted inputs.
BOUNDS = {
    "C02": "every listed instruction: 11-bit number (all 2048 rows), 3-bit condition, four 4-bit registers, two 16-bit immediates; every 64-bit word",
    "C04": "every listed instruction: 11-bit number, 3-bit condition, four 4-bit registers, two 32-bit immediates; every 128-bit word",
    "C06": "any pc of 16 (production) or 32 (testing) bits for the split; any 256-bit code word for the selection; whole-page fetch on pages of 3 code words",
    "C09": "every combination of the 45 opcodes, the 13 operand kinds for source and destination, and both flags; every opcode number",
    "C14": "every published price constant; the generator's main runs once (it takes no input)",
    "C17": "histories of one preceding call of any of 16 kinds with arbitrary arguments, of two preceding decodings or encodings, of three equal ones, of two calls of one of the other kinds, and of one fixed session of some 900000 calls; every static, or any of 32 entry points, first; what is computed anew after any of the 32 (thorough: every ordered pair of statics)",
    "C40": "two threads; each ordered pair of 17 kinds of use with arbitrary arguments, the tables built before; 6 kinds of first use paired with the same or with the lookup map's, nothing built before (thorough: 8, paired with any); one preemption (thorough: two, but for first use) anywhere before an atomic access or an access to a mutable static, the first 3 times (first use: 1; thorough: 4 and 2) each instruction gets there; sequentially consistent memory; no preemption inside the allocator",
    "C33": "one field group symbolic at a time: the four 4-bit registers with the condition; each immediate at full width; every opcode number",
    "C24": "bytecode of 0 to 15 words with arbitrary contents and an arbitrary digest; fixed content at every length up to 600 and at the boundary lengths up to 65535; refused lengths: every length up to 70000 words; SHA-256 itself is an uninterpreted function",
}
for _k in PROPS:
    if any(n.endswith("@3") for n in PROPS[_k]) and _k != "C17":
        BOUNDS[_k] = BOUNDS.get(_k, "every value of the harness's symbolic inputs, at their full machine width") + (
            "; from a fresh start (no suffix), after one call of any of 16 kinds with arbitrary arguments (@1), after two arbitrary decodings or encodings (@2; mostly thorough), after three equal ones or two calls of any one of the other kinds (@4), and after one fixed session of some 900000 calls (@3)")
DEFAULT_BOUND = "every value of the harness's symbolic inputs, at their full machine width"

//! Property harnesses for zkevm_opcode_defs. Every function listed in `harnesses!` is compiled to
//! wasm64 and executed symbolically; the same code is compiled natively to replay inputs.
pub mod vp;
#[allow(dead_code)]
mod spec;
mod props;
use props::threads::other as other_thread;

macro_rules! harnesses {
    ($($name:ident = $f:path;)* @ $($cname:ident = $cf:path;)*) => {
        mod exports {
            $(#[no_mangle] pub extern "C" fn $name() { crate::vp::begin(); crate::vp::setup(); crate::props::history::before(); $f() })*
            $(#[no_mangle] pub extern "C" fn $cname() { crate::vp::begin(); $cf() })*
        }
        pub fn lookup(n: &str) -> Option<fn()> {
            $(if n == stringify!($name) { return Some(|| { crate::vp::setup(); crate::props::history::before(); $f() }); })*
            $(if n == stringify!($cname) { return Some(|| { $cf() }); })*
            None
        }
    };
}
harnesses! {
    encoding_prod_decode = crate::props::encoding::prod_decode;
    encoding_test_decode = crate::props::encoding::test_decode;
    encoding_prod_encode = crate::props::encoding::prod_encode;
    encoding_test_encode = crate::props::encoding::test_encode;
    encoding_prod_reencode = crate::props::encoding::prod_reencode;
    encoding_test_reencode = crate::props::encoding::test_reencode;
    encoding_prod_bytes = crate::props::encoding::prod_bytes;
    encoding_test_bytes = crate::props::encoding::test_bytes;
    encoding_prod_canonical = crate::props::encoding::prod_canonical;
    encoding_test_canonical = crate::props::encoding::test_canonical;
    encoding_prod_canonical_encoder = crate::props::encoding::prod_canonical_encoder;
    encoding_test_canonical_encoder = crate::props::encoding::test_canonical_encoder;
    encoding_prod_canonical_injective = crate::props::encoding::prod_canonical_injective;
    encoding_test_canonical_injective = crate::props::encoding::test_canonical_injective;
    encoding_prod_split_pc = crate::props::encoding::prod_split_pc;
    encoding_test_split_pc = crate::props::encoding::test_split_pc;
    encoding_prod_fetch = crate::props::encoding::prod_fetch;
    encoding_test_fetch = crate::props::encoding::test_fetch;
    encoding_prod_select = crate::props::encoding::prod_select;
    encoding_test_select = crate::props::encoding::test_select;
    encoding_prod_mask_panic = crate::props::encoding::prod_mask_panic;
    encoding_prod_mask_nop = crate::props::encoding::prod_mask_nop;
    encoding_test_mask_panic = crate::props::encoding::test_mask_panic;
    encoding_test_mask_nop = crate::props::encoding::test_mask_nop;
    encoding_prod_fixed = crate::props::encoding::prod_fixed;
    encoding_test_fixed = crate::props::encoding::test_fixed;
    tables_numbering = crate::props::tables::numbering;
    tables_numbering_injective = crate::props::tables::numbering_injective;
    tables_table_v0 = crate::props::tables::table_v0;
    tables_table_v1 = crate::props::tables::table_v1;
    tables_table_v0_legacy = crate::props::tables::table_v0_legacy;
    tables_table_wide = crate::props::tables::table_wide;
    tables_version_compat = crate::props::tables::version_compat;
    tables_versions = crate::props::tables::versions;
    tables_lookup_total = crate::props::tables::lookup_total;
    tables_lookup_inverse = crate::props::tables::lookup_inverse;
    tables_encode_unlisted = crate::props::tables::encode_unlisted;
    tables_bits = crate::props::tables::bits;
    tables_bits_both_versions = crate::props::tables::bits_both_versions;
    tables_bits_decode = crate::props::tables::bits_decode;
    tables_bit_counts = crate::props::tables::bit_counts;
    tables_privileges = crate::props::tables::privileges;
    tables_privileges_by_number = crate::props::tables::privileges_by_number;
    tables_invalid = crate::props::tables::invalid;
    tables_invalid_testing = crate::props::tables::invalid_testing;
    tables_prices = crate::props::tables::prices;
    tables_prices_by_variant = crate::props::tables::prices_by_variant;
    tables_operands = crate::props::tables::operands;
    tables_operand_modes = crate::props::tables::operand_modes;
    tables_addressing_modes = crate::props::tables::addressing_modes;
    tables_flag_roles = crate::props::tables::flag_roles;
    tables_subvariants_a = crate::props::tables::subvariants_a;
    tables_subvariants_b = crate::props::tables::subvariants_b;
    tables_prototypes = crate::props::tables::prototypes;
    abi_pointer_unpack = crate::props::abi::pointer_unpack;
    abi_pointer_pack = crate::props::abi::pointer_pack;
    abi_pointer_validate = crate::props::abi::pointer_validate;
    abi_pointer_bounds = crate::props::abi::pointer_bounds;
    abi_pointer_safety = crate::props::abi::pointer_safety;
    abi_far_call = crate::props::abi::far_call;
    abi_ret = crate::props::abi::ret;
    abi_forward_modes = crate::props::abi::forward_modes;
    abi_near_call = crate::props::abi::near_call;
    abi_precompile = crate::props::abi::precompile;
    abi_precompile_inner = crate::props::abi::precompile_inner;
    abi_meta = crate::props::abi::meta;
    abi_hash_parse = crate::props::abi::hash_parse;
    abi_hash_build = crate::props::abi::hash_build;
    abi_hash_storage = crate::props::abi::hash_storage;
    abi_code_hash_short = crate::props::abi::code_hash_short;
    abi_code_hash_short_mode = crate::props::abi::code_hash_short_mode;
    abi_code_hash_short_testing = crate::props::abi::code_hash_short_testing;
    abi_code_hash_refused = crate::props::abi::code_hash_refused;
    abi_conditions = crate::props::abi::conditions;
    abi_conditions_range = crate::props::abi::conditions_range;
    abi_nibbles = crate::props::abi::nibbles;
    abi_pc_helpers = crate::props::abi::pc_helpers;
    abi_int_bytes = crate::props::abi::int_bytes;
    abi_deref_limit = crate::props::abi::deref_limit;
    abi_pages = crate::props::abi::pages;
    abi_registers = crate::props::abi::registers;
    abi_addresses = crate::props::abi::addresses;
    abi_price_floors = crate::props::abi::price_floors;
    abi_call_depth = crate::props::abi::call_depth;
    abi_unit_prices = crate::props::abi::unit_prices;
    abi_pubdata = crate::props::abi::pubdata;
    abi_named_prices = crate::props::abi::named_prices;
    encoding_prod_history_decode = crate::props::encoding::prod_history_decode;
    encoding_test_history_decode = crate::props::encoding::test_history_decode;
    encoding_prod_history_encode = crate::props::encoding::prod_history_encode;
    encoding_test_history_encode = crate::props::encoding::test_history_encode;
    encoding_history_cross = crate::props::encoding::history_cross;
    encoding_layout_constants = crate::props::encoding::layout_constants;
    tables_table_future = crate::props::tables::table_future;
    tables_table_narrow = crate::props::tables::table_narrow;
    abi_code_hash_long = crate::props::abi::code_hash_long;
    abi_code_hash_longest = crate::props::abi::code_hash_longest;
    values_order_operand = crate::props::values::order_operand;
    values_order_opcode = crate::props::values::order_opcode;
    values_equality_variant = crate::props::values::equality_variant;
    values_order_variant = crate::props::values::order_variant;
    values_order_listed = crate::props::values::order_listed;
    values_order_small = crate::props::values::order_small;
    values_order_pointer = crate::props::values::order_pointer;
    values_order_far_call = crate::props::values::order_far_call;
    values_order_calls = crate::props::values::order_calls;
    values_order_meta = crate::props::values::order_meta;
    values_order_precompile = crate::props::values::order_precompile;
    values_equality_hash = crate::props::values::equality_hash;
    values_printed_variants = crate::props::values::printed_variants;
    values_printed_prod_regs = crate::props::values::printed_prod_regs;
    values_printed_prod_imm0 = crate::props::values::printed_prod_imm0;
    values_printed_prod_imm1 = crate::props::values::printed_prod_imm1;
    values_printed_test_imm0 = crate::props::values::printed_test_imm0;
    values_printed_test_imm1 = crate::props::values::printed_test_imm1;
    init_recomputed = crate::props::init::recomputed;
    threads_pair_0 = crate::props::threads::pair_0;
    threads_pair_1 = crate::props::threads::pair_1;
    threads_pair_2 = crate::props::threads::pair_2;
    threads_pair_3 = crate::props::threads::pair_3;
    threads_pair_4 = crate::props::threads::pair_4;
    threads_pair_5 = crate::props::threads::pair_5;
    threads_pair_6 = crate::props::threads::pair_6;
    threads_pair_7 = crate::props::threads::pair_7;
    threads_pair_8 = crate::props::threads::pair_8;
    threads_pair_9 = crate::props::threads::pair_9;
    threads_pair_10 = crate::props::threads::pair_10;
    threads_pair_11 = crate::props::threads::pair_11;
    threads_pair_12 = crate::props::threads::pair_12;
    threads_pair_13 = crate::props::threads::pair_13;
    threads_pair_14 = crate::props::threads::pair_14;
    threads_pair_15 = crate::props::threads::pair_15;
    threads_pair_16 = crate::props::threads::pair_16;
    // the tables are not built beforehand
    @
    threads_first_0 = crate::props::threads::first_0;
    threads_first_1 = crate::props::threads::first_1;
    threads_first_2 = crate::props::threads::first_2;
    threads_first_3 = crate::props::threads::first_3;
    threads_first_4 = crate::props::threads::first_4;
    threads_first_5 = crate::props::threads::first_5;
    threads_first_6 = crate::props::threads::first_6;
    threads_first_7 = crate::props::threads::first_7;
    threads_any_first_0 = crate::props::threads::any_first_0;
    threads_any_first_1 = crate::props::threads::any_first_1;
    threads_any_first_2 = crate::props::threads::any_first_2;
    threads_any_first_3 = crate::props::threads::any_first_3;
    threads_any_first_4 = crate::props::threads::any_first_4;
    threads_any_first_5 = crate::props::threads::any_first_5;
    threads_any_first_6 = crate::props::threads::any_first_6;
    threads_any_first_7 = crate::props::threads::any_first_7;
    init_first = crate::props::init::first;
    init_pairs = crate::props::init::pairs;
    init_entry_points = crate::props::init::entry_points;
}

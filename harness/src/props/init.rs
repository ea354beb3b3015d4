//! Order of first use and history of calls: neither shows in any result.
use crate::spec;
use crate::vp;
use zkevm_opcode_defs::*;

pub const STATICS: u64 = 13;
fn touch(k: u64) -> u64 {
    match k {
        0 => OPCODES_TABLE.len() as u64,
        1 => OPCODES_PROPS_INTEGER_BITMASKS[1],
        2 => OPCODES_PRICES[1] as u64,
        3 => OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() as u64,
        4 => OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() as u64,
        5 => NOP_OPCODE_VARIANT.flags.len() as u64,
        6 => *NOP_BITSPREAD_U64,
        7 => PANIC_OPCODE_VARIANT.flags.len() as u64,
        8 => *PANIC_BITSPREAD_U64,
        9 => OPCODE_PROTOTYPES.len() as u64,
        10 => *NUM_LOGICAL_OPCODES as u64,
        11 => *NUM_INPUT_VARIANTS as u64,
        _ => *NUM_OUTPUT_VARIANTS as u64,
    }
}
fn pick() -> u64 {
    let k = vp::bits(4);
    vp::assume(k < STATICS);
    vp::fork(k)
}
/// `k` says which static is used first, `rest` how the others follow; then everything is as specified.
fn check_all() {
    let t = spec::table(1);
    let masks: Vec<u64> = t.iter().map(|c| spec::bitmask(*c)).collect();
    let prices: Vec<u64> = t.iter().map(|c| spec::SUBS[spec::sub_of(*c)].price as u64).collect();
    vp::eq(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() as u64, spec::DENSITY_V1 as u64, "the lookup map is complete");
    vp::eq(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() as u64, spec::DENSITY_V1 as u64, "the monotonic map is complete");
    vp::eq(*NOP_BITSPREAD_U64, spec::bitmask(spec::NOP_CODE), "nop bits");
    vp::eq(*PANIC_BITSPREAD_U64, spec::bitmask(spec::PANIC_CODE), "panic bits");
    vp::eq(OPCODE_PROTOTYPES.len() as u64, 16, "prototypes");
    vp::eq(*NUM_LOGICAL_OPCODES as u64, 16, "logical opcodes");
    vp::eq(*NUM_INPUT_VARIANTS as u64, 6, "input addressing modes");
    vp::eq(*NUM_OUTPUT_VARIANTS as u64, 4, "output addressing modes");
    vp::eq(spec::code_of(&NOP_OPCODE_VARIANT), spec::NOP_CODE, "nop variant");
    vp::eq(spec::code_of(&PANIC_OPCODE_VARIANT), spec::PANIC_CODE, "panic variant");
    let n = vp::bits(11) as usize;
    let m = OPCODES_PROPS_INTEGER_BITMASKS[n];
    vp::observe(m);
    vp::eq(m, masks[n], "property bits of the number");
    vp::eq(OPCODES_PRICES[n] as u64, prices[n], "price of the number");
    let c = spec::code_of(&OPCODES_TABLE[n]);
    vp::observe(c);
    vp::eq(c, t[n], "instruction of the number");
}
/// Any static first.
pub fn first() {
    core::hint::black_box(touch(pick()));
    check_all();
}
/// Any static first and any static second.
pub fn pairs() {
    core::hint::black_box(touch(pick()));
    core::hint::black_box(touch(pick()));
    check_all();
}
/// One call of any of 32 kinds.
fn call(k: u64) -> u128 {
    use zkevm_opcode_defs::decoding::*;
    match k {
        0 => EncodingModeProduction::nop_encoding() as u128,
        1 => EncodingModeTesting::nop_encoding(),
        2 => EncodingModeProduction::exception_revert_encoding() as u128,
        3 => EncodingModeTesting::exception_revert_encoding(),
        4 => EncodingModeProduction::parse_preliminary_variant_and_absolute_number(vp::u64()).1.into_usize() as u128,
        5 => EncodingModeTesting::parse_preliminary_variant_and_absolute_number(vp::u128()).1.into_usize() as u128,
        6 => {
            let mut d = DecodedOpcode::<8, EncodingModeProduction>::default();
            d.mask_into_panic();
            d.serialize_as_integer() as u128
        }
        7 => {
            let mut d = DecodedOpcode::<16, EncodingModeTesting>::default();
            d.mask_into_nop();
            d.serialize_as_integer()
        }
        8 => EncodingModeProduction::variant_and_condition_from_u64_word(vp::u64()).2 as u128,
        9 => EncodingModeTesting::variant_and_condition_from_u128_word(vp::u128()).2 as u128,
        10 => OpcodeVariant::default().ergs_price() as u128,
        11 => synthesize_opcode_decoding_tables(11, ISAVersion(0)).len() as u128,
        12 => synthesize_opcode_decoding_tables(11, ISAVersion(1)).len() as u128,
        13 => synthesize_bit_decomposition_table(&synthesize_opcode_decoding_tables(11, ISAVersion(0)), ISAVersion(0)).len() as u128,
        14 => ISAVersion::all_backward_compatible_versions(ISAVersion(1)).len() as u128,
        15 => {
            let s = format!("{}{:?}", OpcodeVariant::default(), Condition::materialize_variant(3));
            s.len() as u128
        }
        16 => max_num_variants_for_version(ISAVersion(0)) as u128,
        17 => max_num_variants_for_version(ISAVersion(1)) as u128,
        18 => (max_num_flags_for_version(ISAVersion(0)) + max_num_flags_for_version(ISAVersion(1))) as u128,
        19 => compute_decoding_format(ISAVersion(0)).len() as u128,
        20 => compute_decoding_format(ISAVersion(1)).len() as u128,
        21 => all_opcode_prototypes().len() as u128,
        22 => synthesize_opcode_decoding_tables_legacy(11, ISAVersion(0)).len() as u128,
        23 => synthesize_opcode_decoding_tables(12, ISAVersion(1)).len() as u128,
        24 => synthesize_bit_decomposition_table(&[], ISAVersion(0)).len() as u128,
        25 => synthesize_bit_decomposition_table(&[INVALID_OPCODE_VARIANT], ISAVersion(1))[0] as u128,
        26 => {
            // a part of the table: any one row of it
            let t = synthesize_opcode_decoding_tables(11, ISAVersion(1));
            let n = vp::bits(11) as usize;
            synthesize_bit_decomposition_table(&t[n..n + 1], ISAVersion(1))[0] as u128
        }
        27 => {
            // rows past the assigned ones, and the first half of the rows, of the smaller version
            let t = synthesize_opcode_decoding_tables(11, ISAVersion(0));
            let a = synthesize_bit_decomposition_table(&t[1500..], ISAVersion(0));
            (a.len() + synthesize_bit_decomposition_table(&t[..300], ISAVersion(0)).len()) as u128
        }
        28 => OpcodeVariantsCalls::all(ISAVersion(0)),
        29 => OpcodeVariantsCalls::all(ISAVersion(1)),
        30 => {
            let n = Condition::materialize_variant(7).variant_index() + Condition::materialize_variant(1).variant_index();
            (n + bytecode_to_code_hash(&[[1; 32]; 3]).map_or(0, |h| h[0] as usize) + split_as_u4(0x4f).0 as usize) as u128
        }
        _ => {
            let v = ethereum_types::U256([vp::u64(), vp::u64(), vp::u64(), vp::u64()]);
            let p = FatPointer::from_u256(v);
            (p.validate(true).bits() as u64 ^ p.to_u256().0[0] ^ FarCallABI::from_u256(v).ergs_passed as u64) as u128
        }
    }
}
/// Everything the prototypes of the logical instructions say about one version.
struct OpcodeVariantsCalls;
impl OpcodeVariantsCalls {
    fn all(v: ISAVersion) -> u128 {
        let mut x = 0u128;
        for o in all_opcode_prototypes().iter() {
            x += (o.variant_idx() + o.input_operands(v).len() + o.output_operands(v).len()) as u128;
            x += o.can_have_src0_from_mem(v) as u128 + o.can_write_dst0_into_memory(v) as u128;
            x += o.requires_kernel_mode() as u128 + o.can_be_used_in_static_context() as u128;
        }
        x
    }
}
fn any_call() {
    let k = vp::bits(5);
    sha2::vp_set_digest([7; 32]);
    core::hint::black_box(call(vp::fork(k)));
    sha2::vp_take_log();
}
/// Nothing but one entry point of the crate is used before.
pub fn entry_points() {
    any_call();
    check_all();
}
/// What is computed anew each time is the same after any one call (the global tables having been used before).
pub fn recomputed() {
    any_call();
    let v = vp::fork(vp::bits(1)) as u8;
    let version = ISAVersion(v);
    let t = spec::table(v);
    let mine = synthesize_opcode_decoding_tables(11, version);
    let masks = synthesize_bit_decomposition_table(&mine, version);
    let want: Vec<u64> = t.iter().map(|c| spec::bitmask(*c)).collect();
    vp::eq(masks.len() as u64, 2048, "rows");
    let n = vp::bits(11) as usize;
    vp::eq(spec::code_of(&mine[n]), t[n], "instruction of the number, computed anew");
    vp::eq(masks[n], want[n], "property bits of the number, computed anew");
    vp::eq(max_num_variants_for_version(version) as u64, 10, "sub-variant bits");
    vp::eq(max_num_flags_for_version(version) as u64, 2, "flag bits");
    vp::eq(ISAVersion::all_backward_compatible_versions(version).len() as u64, v as u64 + 1, "versions");
}

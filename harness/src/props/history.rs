//! What was done before a harness starts: nothing (mode 0), one arbitrary call (1), two arbitrary decodings
//! or encodings (2), a long fixed session (3), or one arbitrary call again and again (4). No harness may notice.
use super::encoding::{any_instruction, Mode, P, T};
use crate::vp;
use core::hint::black_box;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

pub fn before() {
    match vp::mode() {
        1 => {
            let k = vp::bits(4);
            any_call(vp::fork(k));
        }
        2 => {
            for _ in 0..2 {
                let k = vp::bits(2);
                any_call(vp::fork(k));
            }
        }
        3 => session(),
        4 => {
            let k = vp::bits(4);
            vp::assume(k < 12);
            again(vp::fork(k));
        }
        _ => {}
    }
}
fn any_u256() -> U256 {
    U256([vp::u64(), vp::u64(), vp::u64(), vp::u64()])
}
fn encode<const N: usize, M: Mode<N>>() {
    let (_, d) = any_instruction::<N, M>();
    black_box(M::int(M::encode_as_integer(&d)));
}
fn any_call(k: u64) {
    match k {
        0 => {
            black_box(P::parse_preliminary_variant_and_absolute_number(P::any_word()));
        }
        1 => {
            black_box(T::parse_preliminary_variant_and_absolute_number(T::any_word()));
        }
        2 => encode::<8, P>(),
        3 => encode::<16, T>(),
        4 => {
            black_box(P::variant_and_condition_from_u64_word(vp::u64()));
        }
        5 => {
            let (mut d, _) = P::parse_preliminary_variant_and_absolute_number(P::any_word());
            d.mask_into_panic();
            black_box(d.serialize_as_integer());
        }
        6 => {
            let (mut d, _) = T::parse_preliminary_variant_and_absolute_number(T::any_word());
            d.mask_into_nop();
            black_box(d.serialize_as_bytes());
        }
        7 => {
            black_box((P::nop_encoding(), T::nop_encoding(), P::exception_revert_encoding(), T::exception_revert_encoding()));
        }
        8 => {
            let v = OPCODES_TABLE[vp::bits(11) as usize];
            black_box((v.ergs_price(), v.requires_kernel_mode(), v.can_be_used_in_static_context(), v.swap_operands()));
        }
        9 => {
            black_box((P::is_canonical_encoding(P::any_word()), T::is_canonical_encoding(T::any_word())));
            black_box((P::split_pc(P::any_imm()), T::split_pc(T::any_imm())));
        }
        10 => {
            let (v, k) = (any_u256(), vp::bits(1));
            black_box(P::integer_representaiton_from_u256(v, k as u16));
            black_box(T::integer_representaiton_from_u256(v, k as u32));
        }
        11 => {
            let v = any_u256();
            black_box((FatPointer::from_u256(v), FarCallABI::from_u256(v), RetABI::from_u256(v), NearCallABI::from_u256(v)));
            black_box((PrecompileCallABI::from_u256(v), PrecompileCallInnerABI::from_u256(v).to_u256(), FatPointer::from_u256(v).to_u256()));
            black_box(FatPointer::from_u256(v).validate(vp::b()).bits());
        }
        12 => {
            let m = VmMetaParameters {
                ergs_per_pubdata_byte: vp::u32(),
                heap_size: vp::u32(),
                aux_heap_size: vp::u32(),
                this_shard_id: vp::u8(),
                caller_shard_id: vp::u8(),
                code_shard_id: vp::u8(),
            };
            black_box(m.to_u256());
        }
        13 => {
            let mut w = [[0u8; 32]; 3];
            for x in w.iter_mut().flatten() {
                *x = vp::u8();
            }
            sha2::vp_set_digest(w[2]);
            let _ = black_box(bytecode_to_code_hash(&w[..2]));
            let _ = black_box(bytecode_to_code_hash(&w[..1]));
            let _ = black_box(bytecode_to_code_hash_for_mode::<16, T>(&w));
            sha2::vp_take_log();
        }
        14 => {
            let mut w = [0u8; 32];
            for x in w.iter_mut() {
                *x = vp::u8();
            }
            if let Some(h) = VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(w) {
                black_box(h.serialize_to_stored());
            }
            black_box(VersionedHashGeneric::<ContractCodeSha256>::from_digest_and_preimage_num_words(w, vp::u16()).serialize());
        }
        _ => {
            black_box(Condition::materialize_variant(vp::bits(3) as usize));
            black_box((split_as_u4(vp::u8()), merge_u4(vp::bits(4) as u8, vp::bits(4) as u8)));
            let t = synthesize_opcode_decoding_tables(11, ISAVersion(0));
            black_box(synthesize_bit_decomposition_table(&t, ISAVersion(0)).len());
        }
    }
}
/// A decoding or encoding of the same thing three times over, or another kind of call twice, with other arguments.
fn again(k: u64) {
    match k {
        0 => {
            let w = P::any_word();
            for _ in 0..3 {
                black_box(P::parse_preliminary_variant_and_absolute_number(w));
            }
        }
        1 => {
            let w = T::any_word();
            for _ in 0..3 {
                black_box(T::parse_preliminary_variant_and_absolute_number(w));
            }
        }
        2 => {
            let (_, d) = any_instruction::<8, P>();
            for _ in 0..3 {
                black_box(P::encode_as_integer(&d));
            }
        }
        3 => {
            let (_, d) = any_instruction::<16, T>();
            for _ in 0..3 {
                black_box(T::encode_as_integer(&d));
            }
        }
        _ => {
            any_call(4 + k);
            any_call(4 + k);
        }
    }
}
/// Every opcode number decoded in both modes, every listed instruction encoded and looked up, several times
/// over for the first of them, the usual calls 66000 times, and the others a number of times.
fn session() {
    let mut x = 0u128;
    for k in 0..2048u64 {
        let w = k | (k & 7) << 13 | (k.wrapping_mul(0x9e3779b97f4a7c15) & !0xffff);
        let (d, n) = P::parse_preliminary_variant_and_absolute_number(w);
        let (e, m) = T::parse_preliminary_variant_and_absolute_number(w as u128 | (w as u128) << 32);
        x ^= (n.into_usize() ^ m.into_usize()) as u128;
        x ^= P::encode_as_integer(&d) as u128 ^ T::encode_as_integer(&e);
        x ^= d.variant.ergs_price() as u128;
    }
    for k in 0..300u64 {
        let (d, _) = P::parse_preliminary_variant_and_absolute_number(k & 3 | 1);
        let (mut e, _) = T::parse_preliminary_variant_and_absolute_number((k & 3 | 1) as u128);
        x ^= P::encode_as_integer(&d) as u128;
        if k & 1 == 0 {
            e.mask_into_panic();
        } else {
            e.mask_into_nop();
        }
        x ^= T::encode_as_integer(&e);
        let v = U256([k, k << 33, !k, k | k << 40]);
        x ^= FatPointer::from_u256(v).validate(k & 1 == 0).bits() as u128;
        x ^= FarCallABI::from_u256(v).ergs_passed as u128 ^ PrecompileCallInnerABI::from_u256(v).to_u256().0[0] as u128;
        x ^= P::integer_representaiton_from_u256(v, (k & 3) as u16) as u128;
    }
    // more calls than a 16-bit counter counts
    for k in 0..66_000u64 {
        let w = k.wrapping_mul(0x9e3779b97f4a7c15) >> 53 | k << 16;
        let (d, _) = P::parse_preliminary_variant_and_absolute_number(w);
        let (mut e, _) = T::parse_preliminary_variant_and_absolute_number(w as u128);
        x ^= P::encode_as_integer(&d) as u128;
        e.mask_into_panic();
        x ^= e.imm_0 as u128 ^ P::is_canonical_encoding(w) as u128 ^ P::split_pc(k as u16).0 as u128;
        let v = U256([k, k << 33, !k, k | k << 40]);
        x ^= FatPointer::from_u256(v).to_u256().0[0] as u128 ^ FatPointer::from_u256(v).validate(k & 1 == 0).bits() as u128;
        x ^= FarCallABI::from_u256(v).ergs_passed as u128 ^ RetABI::from_u256(v).memory_quasi_fat_pointer.length as u128;
        x ^= NearCallABI::from_u256(v).ergs_passed as u128 ^ PrecompileCallInnerABI::from_u256(v).to_u256().0[0] as u128;
        x ^= P::integer_representaiton_from_u256(v, (k & 3) as u16) as u128;
        x ^= d.variant.ergs_price() as u128 ^ d.variant.swap_operands() as u128 ^ (k as u8 ^ split_as_u4(k as u8).0) as u128;
    }
    sha2::vp_set_digest([7; 32]);
    for k in 0..40usize {
        x ^= bytecode_to_code_hash(&vec![[k as u8; 32]; k % 6]).map_or(1, |h| h[3]) as u128;
    }
    sha2::vp_take_log();
    black_box(x);
}

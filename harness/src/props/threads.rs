//! Two threads use the crate at once. Both do one of the jobs below with arguments of their own; neither may
//! notice the other. Which thread runs is up to the executor.
use super::encoding::{any_instruction, Mode, P, T};
use crate::spec;
use crate::vp;
use core::hint::black_box;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

/// What is known beforehand, so that a job does little besides using the crate.
pub struct Known {
    t: Vec<u64>,
    t0: Vec<u64>,
    masks: Vec<u64>,
    prices: Vec<u64>,
}
fn known() -> Known {
    let t = spec::table(1);
    Known {
        masks: t.iter().map(|c| spec::bitmask(*c)).collect(),
        prices: t.iter().map(|c| spec::SUBS[spec::sub_of(*c)].price as u64).collect(),
        t,
        t0: spec::table(0),
    }
}
pub const JOBS: u64 = 17;

fn decode<const N: usize, M: Mode<N>>(k: &Known) {
    let w = M::any_word();
    let (i, (d, n)) = (M::int(w), M::parse_preliminary_variant_and_absolute_number(w));
    let n = n.into_usize() as u64;
    let regs = d.src0_reg_idx as u64 | (d.src1_reg_idx as u64) << 4 | (d.dst0_reg_idx as u64) << 8 | (d.dst1_reg_idx as u64) << 12;
    let low = n | spec::cond_of(d.condition) << 13 | regs << 16;
    let m = (1u128 << M::IMM) - 1;
    let mut x = low ^ (i as u64 & 0xffff_e7ff);
    x |= M::imm_int(d.imm_0) ^ (i >> 32 & m) as u64;
    x |= M::imm_int(d.imm_1) ^ (i >> (32 + M::IMM) & m) as u64;
    x |= spec::code_of(&d.variant) ^ k.t[n as usize & 0x7ff];
    vp::observe(low);
    vp::eq(x, 0, "a decoded word is the same whatever another thread does");
}
fn encode<const N: usize, M: Mode<N>>(k: &Known) {
    let (n, d) = any_instruction::<N, M>();
    vp::assume(n < 16);
    let num = if k.t[n as usize] == spec::INVALID_CODE { 0 } else { n };
    let i = M::int(M::encode_as_integer(&d));
    let regs = d.src0_reg_idx as u64 | (d.src1_reg_idx as u64) << 4 | (d.dst0_reg_idx as u64) << 8 | (d.dst1_reg_idx as u64) << 12;
    let low = num | spec::cond_of(d.condition) << 13 | regs << 16;
    let want = low as u128 | (M::imm_int(d.imm_0) as u128) << 32 | (M::imm_int(d.imm_1) as u128) << (32 + M::IMM);
    vp::observe128(i);
    vp::eq((i as u64 ^ want as u64) | ((i >> 64) as u64 ^ (want >> 64) as u64), 0, "an encoded instruction is the same whatever another thread does");
}
fn any_u256() -> U256 {
    U256([vp::u64(), vp::u64(), vp::u64(), vp::u64()])
}
fn job(j: u64, k: &Known) {
    match j {
        0 => decode::<8, P>(k),
        1 => decode::<16, T>(k),
        2 => encode::<8, P>(k),
        3 => encode::<16, T>(k),
        4 => {
            let n = vp::bits(11) as usize;
            let (m, p) = (OPCODES_PROPS_INTEGER_BITMASKS[n], OPCODES_PRICES[n] as u64);
            vp::observe(m);
            vp::eq(m ^ k.masks[n], 0, "property bits are the same whatever another thread does");
            vp::eq(p ^ k.prices[n], 0, "prices are the same whatever another thread does");
        }
        5 => {
            // both maps, of one instruction
            let n = vp::bits(11) as usize;
            let n = if k.t[n] == spec::INVALID_CODE { 0 } else { n };
            let n = vp::fork((n & 0xf) as u64) as usize;
            let v = &OPCODES_TABLE[n];
            let a = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(v).map_or(!0, |x| *x as u64);
            vp::observe(a);
            let a = if k.t[n] == spec::INVALID_CODE { 0 } else { a ^ n as u64 };
            vp::eq(a, 0, "the number of an instruction is the same whatever another thread does");
        }
        6 => {
            let w = vp::u64();
            let (mut d, _) = P::parse_preliminary_variant_and_absolute_number(w);
            d.mask_into_panic();
            let i = d.serialize_as_integer();
            vp::observe(i);
            let want = P::exception_revert_encoding() & 0xffff_ffff | w >> 32 << 32;
            vp::eq(i ^ want, 0, "masking makes the panic instruction whatever another thread does");
        }
        7 => {
            let w = vp::u128();
            let (mut d, _) = T::parse_preliminary_variant_and_absolute_number(w);
            d.mask_into_nop();
            let i = d.serialize_as_integer();
            vp::observe128(i);
            let want = T::nop_encoding() & 0xffff_ffff | w << 32 >> 64 << 32;
            vp::eq((i ^ want) as u64 | ((i ^ want) >> 64) as u64, 0, "masking makes the nop instruction whatever another thread does");
        }
        8 => super::abi::far_call(),
        9 => {
            super::abi::near_call();
            super::abi::precompile();
        }
        10 => {
            super::abi::pointer_validate();
            let v = any_u256();
            let p = FatPointer::from_u256(v);
            vp::eq(p.offset as u64 | (p.memory_page as u64) << 32, v.0[0], "a pointer is the same whatever another thread does");
            vp::eq(p.start as u64 | (p.length as u64) << 32, v.0[1], "a pointer is the same whatever another thread does");
        }
        11 => super::abi::meta(),
        12 => {
            super::abi::hash_storage();
            super::abi::nibbles();
            super::abi::int_bytes();
        }
        13 => {
            // one word of code
            let mut w = [[0u8; 32]; 2];
            for x in w.iter_mut().flatten() {
                *x = vp::u8();
            }
            sha2::vp_set_digest(w[1]);
            let h = bytecode_to_code_hash(&w[..1]).expect("one word is an odd number of words");
            let log = sha2::vp_take_log();
            let mut x = (h[0] ^ 1 | h[1] | h[2] | h[3] ^ 1) as u64;
            for b in 4..32 {
                x |= (h[b] ^ w[1][b]) as u64;
            }
            vp::eq(log.len() as u64, 1, "one digest is taken");
            for b in 0..32 {
                x |= (log[0][b] ^ w[0][b]) as u64;
            }
            vp::observe(x);
            vp::eq(x, 0, "a bytecode hash is the same whatever another thread does");
        }
        14 => super::abi::pc_helpers(),
        15 => {
            let c = vp::fork(vp::bits(3));
            let s = format!("{:?}", Condition::materialize_variant(c as usize));
            let v = &OPCODES_TABLE[1 + c as usize];
            vp::observe(s.len() as u64);
            vp::eq(Condition::materialize_variant(c as usize).variant_index() as u64, c, "a condition is the same whatever another thread does");
            vp::eq(spec::code_of(v), k.t[1 + c as usize], "a listed instruction is the same whatever another thread does");
            vp::eq(v.ergs_price() as u64, k.prices[1 + c as usize], "a price is the same whatever another thread does");
        }
        _ => {
            // tables made anew, of either version
            let v = vp::fork(vp::bits(1)) as u8;
            let mine: Vec<u64> = synthesize_opcode_decoding_tables(11, ISAVersion(v)).iter().map(spec::code_of).collect();
            let n = vp::bits(11) as usize;
            let want = if v == 0 { k.t0[n] } else { k.t[n] };
            vp::observe(mine[n]);
            vp::eq(mine[n], want, "a table made anew is the same whatever another thread does");
            vp::eq(max_num_variants_for_version(ISAVersion(v)) as u64, 10, "sub-variant bits are the same whatever another thread does");
            vp::eq(max_num_flags_for_version(ISAVersion(v)) as u64, 2, "flag bits are the same whatever another thread does");
        }
    }
}
struct Task {
    job: u64,
    k: *const Known,
}
/// What the other thread does.
pub fn other(arg: u64) {
    let t = unsafe { &*(arg as usize as *const Task) };
    if t.job < JOBS {
        job(t.job, unsafe { &*t.k })
    } else {
        first_use(t.job - JOBS, unsafe { &*t.k })
    }
}
fn with(job: u64, k: &'static Known, mine: impl FnOnce()) {
    let t = Box::leak(Box::new(Task { job, k }));
    vp::spawn(t as *const Task as usize as u64);
    mine();
    vp::join();
}
fn pair(a: u64) {
    let k: &'static Known = Box::leak(Box::new(known()));
    let b = vp::bits(5);
    vp::assume(b < JOBS);
    with(vp::fork(b), k, || job(a, k));
}
macro_rules! pairs { ($($n:ident $k:literal)*) => { $(pub fn $n() { pair($k) })* } }
pairs! { pair_0 0 pair_1 1 pair_2 2 pair_3 3 pair_4 4 pair_5 5 pair_6 6 pair_7 7 pair_8 8 pair_9 9 pair_10 10 pair_11 11 pair_12 12 pair_13 13 pair_14 14 pair_15 15 pair_16 16 }

/// A thread's first use of the crate, and what it then finds.
fn first_use(j: u64, k: &Known) {
    match j {
        0 => {
            black_box(OPCODES_TABLE[1].ergs_price());
        }
        1 => drop(black_box(OPCODES_PROPS_INTEGER_BITMASKS[1])),
        2 => drop(black_box(OPCODES_PRICES[1])),
        3 => drop(black_box(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len())),
        4 => drop(black_box(P::nop_encoding())),
        5 => drop(black_box(T::exception_revert_encoding())),
        6 => drop(black_box((*NUM_LOGICAL_OPCODES, *NUM_INPUT_VARIANTS, OPCODE_PROTOTYPES.len()))),
        _ => {
            let mut d = DecodedOpcode::<8, P>::default();
            d.mask_into_panic();
            black_box(d.serialize_as_integer());
        }
    }
    let n = vp::bits(11) as usize;
    let mine: Vec<u64> = OPCODES_TABLE.iter().map(spec::code_of).collect();
    vp::observe(mine[n]);
    vp::eq(mine[n], k.t[n], "the table is complete whichever thread builds it");
    match j {
        1 => vp::eq(OPCODES_PROPS_INTEGER_BITMASKS[n], k.masks[n], "property bits are complete whichever thread builds them"),
        2 => vp::eq(OPCODES_PRICES[n] as u64, k.prices[n], "prices are complete whichever thread builds them"),
        3 => {
            vp::eq(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() as u64, spec::DENSITY_V1 as u64, "the lookup map is complete");
            vp::eq(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() as u64, spec::DENSITY_V1 as u64, "the monotonic map is complete");
        }
        4 => vp::eq(*NOP_BITSPREAD_U64, spec::bitmask(spec::NOP_CODE), "nop bits"),
        5 => vp::eq(*PANIC_BITSPREAD_U64, spec::bitmask(spec::PANIC_CODE), "panic bits"),
        6 => vp::eq((*NUM_LOGICAL_OPCODES + *NUM_INPUT_VARIANTS + *NUM_OUTPUT_VARIANTS) as u64, 26, "counts"),
        _ => {}
    }
}
/// Nothing was used before either thread; the other one does the same, or something else.
fn first(a: u64, b: u64) {
    let k: &'static Known = Box::leak(Box::new(known()));
    with(JOBS + b, k, || first_use(a, k));
}
macro_rules! firsts { ($($n:ident $any:ident $k:literal)*) => { $(
    pub fn $n() {
        first($k, if vp::fork(vp::bits(1)) == 0 { $k } else { 3 })
    }
    pub fn $any() {
        first($k, vp::fork(vp::bits(3)))
    }
)* } }
firsts! {
    first_0 any_first_0 0 first_1 any_first_1 1 first_2 any_first_2 2 first_3 any_first_3 3
    first_4 any_first_4 4 first_5 any_first_5 5 first_6 any_first_6 6 first_7 any_first_7 7
}

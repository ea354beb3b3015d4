//! Instruction words: decoding, encoding, canonicality, fetching from a code page, masking.
use crate::spec;
use crate::vp;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

pub type P = EncodingModeProduction;
pub type T = EncodingModeTesting;

/// What the two modes share, seen as integers.
pub trait Mode<const N: usize>: VmEncodingMode<N> {
    const IMM: u32; // bits of an immediate
    const WORD_BITS: u32;
    const PER_WORD: u64; // instructions in a 32-byte code word
    fn any_word() -> Self::IntegerRepresentation;
    fn any_imm() -> Self::PcOrImm;
    fn int(x: Self::IntegerRepresentation) -> u128;
    fn imm(x: u64) -> Self::PcOrImm;
    fn imm_int(x: Self::PcOrImm) -> u64;
    fn raw(w: Self::IntegerRepresentation) -> (OpcodeVariant, Condition, usize);
}
impl Mode<8> for P {
    const IMM: u32 = 16;
    const WORD_BITS: u32 = 64;
    const PER_WORD: u64 = 4;
    fn any_word() -> u64 {
        vp::u64()
    }
    fn any_imm() -> u16 {
        vp::u16()
    }
    fn int(x: u64) -> u128 {
        x as u128
    }
    fn imm(x: u64) -> u16 {
        x as u16
    }
    fn imm_int(x: u16) -> u64 {
        x as u64
    }
    fn raw(w: u64) -> (OpcodeVariant, Condition, usize) {
        P::variant_and_condition_from_u64_word(w)
    }
}
impl Mode<16> for T {
    const IMM: u32 = 32;
    const WORD_BITS: u32 = 128;
    const PER_WORD: u64 = 2;
    fn any_word() -> u128 {
        vp::u128()
    }
    fn any_imm() -> u32 {
        vp::u32()
    }
    fn int(x: u128) -> u128 {
        x
    }
    fn imm(x: u64) -> u32 {
        x as u32
    }
    fn imm_int(x: u32) -> u64 {
        x as u64
    }
    fn raw(w: u128) -> (OpcodeVariant, Condition, usize) {
        T::variant_and_condition_from_u128_word(w)
    }
}

/// The instruction's fields as the specified word, given its opcode number.
fn layout<const N: usize, M: Mode<N>>(num: u64, d: &DecodedOpcode<N, M>) -> u128 {
    let low = num
        | spec::cond_of(d.condition) << 13
        | (d.src0_reg_idx as u64) << 16
        | (d.src1_reg_idx as u64) << 20
        | (d.dst0_reg_idx as u64) << 24
        | (d.dst1_reg_idx as u64) << 28;
    low as u128 | (M::imm_int(d.imm_0) as u128) << 32 | (M::imm_int(d.imm_1) as u128) << (32 + M::IMM)
}

fn eq128(a: u128, b: u128, m: &'static str) {
    vp::eq(a as u64, b as u64, m);
    vp::eq((a >> 64) as u64, (b >> 64) as u64, m);
}

fn observe_decoded<const N: usize, M: Mode<N>>(d: &DecodedOpcode<N, M>) {
    vp::observe(spec::code_of(&d.variant));
    vp::observe128(layout::<N, M>(0, d));
}

fn decode<const N: usize, M: Mode<N>>() {
    decode_word::<N, M>(M::any_word())
}
fn decode_word<const N: usize, M: Mode<N>>(w: M::IntegerRepresentation) {
    let t = spec::table(1);
    let i = M::int(w);
    let lo = i as u64;
    let (d, n) = M::parse_preliminary_variant_and_absolute_number(w);
    observe_decoded::<N, M>(&d);
    vp::observe(n.into_usize() as u64);
    vp::eq(n.into_usize() as u64, lo & 0x7ff, "opcode number is bits 0-10");
    vp::eq(spec::code_of(&d.variant), t[(lo & 0x7ff) as usize], "variant is the one the opcode number stands for");
    vp::eq(spec::cond_of(d.condition), lo >> 13 & 7, "condition is bits 13-15");
    vp::eq(d.src0_reg_idx as u64, lo >> 16 & 15, "src0 register is bits 16-19");
    vp::eq(d.src1_reg_idx as u64, lo >> 20 & 15, "src1 register is bits 20-23");
    vp::eq(d.dst0_reg_idx as u64, lo >> 24 & 15, "dst0 register is bits 24-27");
    vp::eq(d.dst1_reg_idx as u64, lo >> 28 & 15, "dst1 register is bits 28-31");
    let m = (1u128 << M::IMM) - 1;
    vp::eq(M::imm_int(d.imm_0), (i >> 32 & m) as u64, "imm0 sits above the registers");
    vp::eq(M::imm_int(d.imm_1), (i >> (32 + M::IMM) & m) as u64, "imm1 sits above imm0");
    let (v, c, k) = M::raw(w);
    vp::check(v == d.variant && c == d.condition && k == n.into_usize(), "both decoding entry points agree");
}
/// The published positions and widths are those of the words.
pub fn layout_constants() {
    let w = vp::u64();
    let k = w as u16 as u64 & !0x1800;
    let (d, n) = P::parse_preliminary_variant_and_absolute_number(w);
    vp::observe(k);
    vp::eq(VARIANT_AND_CONDITION_ENCODING_BITS as u64, 16, "number and condition take 16 bits");
    vp::eq(n.into_usize() as u64 | (d.condition.variant_index() as u64) << CONDITIONAL_BITS_SHIFT, k, "number and condition are at their positions");
    let m = (1u64 << REGISTER_INDEX_ENCODING_BITS) - 1;
    vp::eq(d.src0_reg_idx as u64, w >> SRC_REGS_SHIFT & m, "src0 is at the published position");
    vp::eq(d.src1_reg_idx as u64, w >> (SRC_REGS_SHIFT as usize + REGISTER_INDEX_ENCODING_BITS) & m, "src1 is at the published position");
    vp::eq(d.dst0_reg_idx as u64, w >> DST_REGS_SHIFT & m, "dst0 is at the published position");
    vp::eq(d.dst1_reg_idx as u64, w >> (DST_REGS_SHIFT as usize + REGISTER_INDEX_ENCODING_BITS) & m, "dst1 is at the published position");
    vp::eq(n.into_usize() as u64, w & ((1 << OPCODES_TABLE_WIDTH) - 1), "the number is at the published position");
}
pub fn prod_decode() {
    decode::<8, P>()
}
pub fn test_decode() {
    decode::<16, T>()
}

pub fn any_instruction<const N: usize, M: Mode<N>>() -> (u64, DecodedOpcode<N, M>) {
    let n = vp::bits(11);
    let c = vp::bits(3);
    let d = DecodedOpcode::<N, M> {
        variant: OPCODES_TABLE[n as usize],
        condition: spec::CONDITIONS[c as usize],
        src0_reg_idx: vp::bits(4) as u8,
        src1_reg_idx: vp::bits(4) as u8,
        dst0_reg_idx: vp::bits(4) as u8,
        dst1_reg_idx: vp::bits(4) as u8,
        imm_0: M::any_imm(),
        imm_1: M::any_imm(),
    };
    (n, d)
}

/// fields -> word -> fields
fn encode<const N: usize, M: Mode<N>>() {
    let t = spec::table(1);
    let (n, d) = any_instruction::<N, M>();
    let num = if t[n as usize] == spec::INVALID_CODE { 0 } else { n };
    let w = M::encode_as_integer(&d);
    let i = M::int(w);
    vp::observe128(i);
    eq128(i, layout::<N, M>(num, &d), "encoded word is the fields laid out in place");
    eq128(M::int(d.serialize_as_integer()), i, "serialize_as_integer is the encoding");
    let (e, k) = M::parse_preliminary_variant_and_absolute_number(w);
    vp::eq(k.into_usize() as u64, num, "decoding gives back the opcode number");
    vp::eq(spec::code_of(&e.variant), spec::code_of(&d.variant), "decoding gives back the variant");
    vp::check(e.variant == d.variant, "decoded variant equals the encoded one");
    vp::eq(spec::cond_of(e.condition), spec::cond_of(d.condition), "decoding gives back the condition");
    vp::eq(e.src0_reg_idx as u64, d.src0_reg_idx as u64, "decoding gives back src0");
    vp::eq(e.src1_reg_idx as u64, d.src1_reg_idx as u64, "decoding gives back src1");
    vp::eq(e.dst0_reg_idx as u64, d.dst0_reg_idx as u64, "decoding gives back dst0");
    vp::eq(e.dst1_reg_idx as u64, d.dst1_reg_idx as u64, "decoding gives back dst1");
    vp::eq(M::imm_int(e.imm_0), M::imm_int(d.imm_0), "decoding gives back imm0");
    vp::eq(M::imm_int(e.imm_1), M::imm_int(d.imm_1), "decoding gives back imm1");
}
pub fn prod_encode() {
    encode::<8, P>()
}
pub fn test_encode() {
    encode::<16, T>()
}

/// word -> fields -> word
fn reencode<const N: usize, M: Mode<N>>() {
    let t = spec::table(1);
    let w = M::any_word();
    let i = M::int(w);
    let (d, _) = M::parse_preliminary_variant_and_absolute_number(w);
    let e = M::int(M::encode_as_integer(&d));
    vp::observe128(e);
    let num = (i as u64 & 0x7ff) as usize;
    let used: u128 = if M::WORD_BITS == 64 { !0u64 as u128 } else { !0u128 >> 32 };
    let mut want = i & used & !0x1fff | num as u128;
    if t[num] == spec::INVALID_CODE {
        want &= !0x7ff;
    }
    eq128(e, want, "re-encoding a decoded word gives the word without its unused bits");
}
pub fn prod_reencode() {
    reencode::<8, P>()
}
pub fn test_reencode() {
    reencode::<16, T>()
}

/// byte form: the integer, most significant byte first
fn bytes<const N: usize, M: Mode<N>>() {
    let (_, d) = any_instruction::<N, M>();
    let i = M::int(M::encode_as_integer(&d));
    let b = M::encode_as_bytes(&d);
    let c = d.serialize_as_bytes();
    let mut x = 0u128;
    let mut y = 0u128;
    for k in 0..N {
        x = x << 8 | b[k] as u128;
        y = y << 8 | c[k] as u128;
    }
    vp::observe128(x);
    eq128(x, i, "byte encoding is the big-endian integer");
    eq128(y, i, "serialize_as_bytes is the big-endian integer");
}
pub fn prod_bytes() {
    bytes::<8, P>()
}
pub fn test_bytes() {
    bytes::<16, T>()
}

fn canonical<const N: usize, M: Mode<N>>() {
    let w = M::any_word();
    let i = M::int(w);
    let mut unused = i as u64 & 0x1800;
    if M::WORD_BITS == 128 {
        unused |= (i >> 96) as u64;
    }
    let r = M::is_canonical_encoding(w);
    vp::observe(r as u64);
    vp::eq(r as u64, (unused == 0) as u64, "canonical exactly when every unused bit is zero");
}
pub fn prod_canonical() {
    canonical::<8, P>()
}
pub fn test_canonical() {
    canonical::<16, T>()
}
fn canonical_encoder<const N: usize, M: Mode<N>>() {
    let (_, d) = any_instruction::<N, M>();
    let w = M::encode_as_integer(&d);
    let r = M::is_canonical_encoding(w);
    vp::observe(r as u64);
    vp::eq(r as u64, 1, "whatever the encoder produces is canonical");
}
pub fn prod_canonical_encoder() {
    canonical_encoder::<8, P>()
}
pub fn test_canonical_encoder() {
    canonical_encoder::<16, T>()
}
/// Distinct canonical words with a listed number never decode to the same instruction.
fn canonical_injective<const N: usize, M: Mode<N>>() {
    let t = spec::table(1);
    let a = M::any_word();
    let b = M::any_word();
    vp::assume(M::is_canonical_encoding(a) && M::is_canonical_encoding(b));
    let (i, j) = (M::int(a), M::int(b));
    vp::assume(i as u64 & 0x7ff == 0 || t[(i as u64 & 0x7ff) as usize] != spec::INVALID_CODE);
    vp::assume(j as u64 & 0x7ff == 0 || t[(j as u64 & 0x7ff) as usize] != spec::INVALID_CODE);
    let (x, m) = M::parse_preliminary_variant_and_absolute_number(a);
    let (y, n) = M::parse_preliminary_variant_and_absolute_number(b);
    let same_rest = m == n && layout::<N, M>(0, &x) == layout::<N, M>(0, &y);
    vp::eq(same_rest as u64, (i == j) as u64, "canonical words decode alike only if they are equal");
}
pub fn prod_canonical_injective() {
    canonical_injective::<8, P>()
}
pub fn test_canonical_injective() {
    canonical_injective::<16, T>()
}

// ---- fetching ---------------------------------------------------------------------------------------------
fn split<const N: usize, M: Mode<N>>() {
    let pc = M::any_imm();
    let p = M::imm_int(pc);
    let (a, b) = M::split_pc(pc);
    let (a, b) = (M::imm_int(a), M::imm_int(b));
    vp::observe(a);
    vp::observe(b);
    vp::check(b < M::PER_WORD, "position within a code word is in range");
    vp::eq(a.wrapping_mul(M::PER_WORD).wrapping_add(b), p, "pc is the word index times the instructions per word plus the position");
}
pub fn prod_split_pc() {
    split::<8, P>()
}
pub fn test_split_pc() {
    split::<16, T>()
}
/// A code page of three 32-byte words made of consecutive big-endian instructions; any pc in it.
fn fetch<const N: usize, M: Mode<N>>() {
    let total = 3 * M::PER_WORD as usize;
    let mut page = Vec::new();
    let mut words = Vec::new();
    for _ in 0..total {
        let w = M::any_word();
        words.push(M::int(w));
        page.extend_from_slice(&w.encode_as_bytes());
    }
    vp::check(page.len() == 96, "instructions fill the code words exactly");
    let pc = vp::bits(4);
    vp::assume(pc < total as u64);
    let (a, b) = M::split_pc(M::imm(pc));
    let a = vp::fork(M::imm_int(a)) as usize;
    vp::assume(a < 3);
    let value = U256::from_big_endian(&page[32 * a..32 * a + 32]);
    let w = M::int(M::integer_representaiton_from_u256(value, b));
    vp::observe128(w);
    let pc = vp::fork(pc);
    eq128(w, words[pc as usize], "fetching at pc returns the pc-th instruction of the page");
}
pub fn prod_fetch() {
    fetch::<8, P>()
}
pub fn test_fetch() {
    fetch::<16, T>()
}
/// Limb selection for any code word.
fn select<const N: usize, M: Mode<N>>() {
    let v = U256([vp::u64(), vp::u64(), vp::u64(), vp::u64()]);
    let k = vp::bits(2);
    vp::assume(k < M::PER_WORD);
    let w = M::int(M::integer_representaiton_from_u256(v, M::imm(k)));
    vp::observe128(w);
    let k = vp::fork(k);
    let shift = (M::PER_WORD - 1 - k) as usize * M::WORD_BITS as usize;
    let want = v >> shift;
    let mut x = want.0[0] as u128;
    if M::WORD_BITS == 128 {
        x |= (want.0[1] as u128) << 64;
    }
    eq128(w, x, "position k is the k-th instruction counted from the most significant end");
}
pub fn prod_select() {
    select::<8, P>()
}
pub fn test_select() {
    select::<16, T>()
}

// ---- masking ----------------------------------------------------------------------------------------------
fn any_instruction_at_all<const N: usize, M: Mode<N>>() -> DecodedOpcode<N, M> {
    let s = vp::bits(6);
    vp::assume(s < spec::NUM_SUBS as u64);
    let a = vp::bits(4);
    vp::assume(a < spec::NUM_OPERANDS as u64);
    let b = vp::bits(4);
    vp::assume(b < spec::NUM_OPERANDS as u64);
    let s = vp::fork(s);
    DecodedOpcode::<N, M> {
        variant: OpcodeVariant {
            opcode: spec::OPS[s as usize],
            src0_operand_type: spec::OPERANDS[a as usize].0,
            dst0_operand_type: spec::OPERANDS[b as usize].0,
            flags: [vp::b(), vp::b()],
        },
        condition: spec::CONDITIONS[vp::bits(3) as usize],
        src0_reg_idx: vp::u8(),
        src1_reg_idx: vp::u8(),
        dst0_reg_idx: vp::u8(),
        dst1_reg_idx: vp::u8(),
        imm_0: M::any_imm(),
        imm_1: M::any_imm(),
    }
}
fn masked<const N: usize, M: Mode<N>>(d: &DecodedOpcode<N, M>, m: &DecodedOpcode<N, M>, code: u64) {
    observe_decoded::<N, M>(m);
    vp::eq(spec::code_of(&m.variant), code, "masked variant");
    vp::eq(spec::cond_of(m.condition), 0, "masked instruction runs unconditionally");
    vp::eq(
        m.src0_reg_idx as u64 | (m.src1_reg_idx as u64) << 8 | (m.dst0_reg_idx as u64) << 16 | (m.dst1_reg_idx as u64) << 24,
        0,
        "masked instruction uses only r0",
    );
    vp::eq(M::imm_int(m.imm_0), M::imm_int(d.imm_0), "masking leaves imm0");
    vp::eq(M::imm_int(m.imm_1), M::imm_int(d.imm_1), "masking leaves imm1");
    vp::eq((m.variant.requires_kernel_mode()) as u64, 0, "masked instruction needs no kernel mode");
    vp::eq((m.variant.can_be_used_in_static_context()) as u64, 1, "masked instruction may run in a static call");
    vp::eq((m.variant.is_explicit_panic()) as u64, 0, "masked instruction is not an invalid one");
}
fn mask_panic<const N: usize, M: Mode<N>>() {
    let d = any_instruction_at_all::<N, M>();
    let mut m = d;
    m.mask_into_panic();
    masked::<N, M>(&d, &m, spec::PANIC_CODE);
    vp::check(m.variant == *PANIC_OPCODE_VARIANT, "panic mask is the panic variant");
    let i = M::int(m.serialize_as_integer());
    let imms = (!0u128) << 32;
    let low = M::int(M::exception_revert_encoding());
    eq128(i & !imms, low, "masked into panic: encodes as the exception word plus immediates");
}
fn mask_nop<const N: usize, M: Mode<N>>() {
    let d = any_instruction_at_all::<N, M>();
    let mut m = d;
    m.mask_into_nop();
    masked::<N, M>(&d, &m, spec::NOP_CODE);
    vp::check(m.variant == *NOP_OPCODE_VARIANT, "nop mask is the nop variant");
    let i = M::int(m.serialize_as_integer());
    let imms = (!0u128) << 32;
    let low = M::int(M::nop_encoding());
    eq128(i & !imms, low, "masked into nop: encodes as the nop word plus immediates");
}
pub fn prod_mask_panic() {
    mask_panic::<8, P>()
}
pub fn prod_mask_nop() {
    mask_nop::<8, P>()
}
pub fn test_mask_panic() {
    mask_panic::<16, T>()
}
pub fn test_mask_nop() {
    mask_nop::<16, T>()
}
/// The fixed words; reached through any pc of a page filled with them.
fn fixed<const N: usize, M: Mode<N>>() {
    let t = spec::table(1);
    let n = vp::bits(11);
    let code = t[n as usize];
    let nop = M::int(M::nop_encoding());
    let exc = M::int(M::exception_revert_encoding());
    vp::observe128(nop);
    vp::observe128(exc);
    vp::check(nop >> 11 == 0 && exc >> 11 == 0, "fixed words have every field but the number zero");
    vp::eq((nop as u64 == n) as u64, (code == spec::NOP_CODE) as u64, "the nop word is the number of the register nop");
    vp::eq((exc as u64 == n) as u64, (code == spec::PANIC_CODE) as u64, "the exception word is the number of ret.panic");
    let d = DecodedOpcode::<N, M>::default();
    vp::eq(spec::cond_of(d.condition), 0, "the default instruction is unconditional");
    let i = M::int(d.serialize_as_integer());
    eq128(i, nop, "the default instruction encodes as the nop word");
    vp::check(OpcodeVariant::default() == *NOP_OPCODE_VARIANT, "the default variant is the nop variant");
}
pub fn prod_fixed() {
    fixed::<8, P>()
}
pub fn test_fixed() {
    fixed::<16, T>()
}

// ---- history ----------------------------------------------------------------------------------------------
/// Whatever was decoded before, a word decodes as specified.
fn history_decode<const N: usize, M: Mode<N>>() {
    let a = M::any_word();
    let (x, _) = M::parse_preliminary_variant_and_absolute_number(a);
    core::hint::black_box(x);
    decode_word::<N, M>(M::any_word());
}
pub fn prod_history_decode() {
    history_decode::<8, P>()
}
pub fn test_history_decode() {
    history_decode::<16, T>()
}
/// Whatever was encoded before, an instruction encodes as specified.
fn history_encode<const N: usize, M: Mode<N>>() {
    let t = spec::table(1);
    let (_, a) = any_instruction::<N, M>();
    core::hint::black_box(M::encode_as_integer(&a));
    let (n, d) = any_instruction::<N, M>();
    let num = if t[n as usize] == spec::INVALID_CODE { 0 } else { n };
    let i = M::int(M::encode_as_integer(&d));
    vp::observe128(i);
    eq128(i, layout::<N, M>(num, &d), "encoded word is the fields laid out in place");
}
pub fn prod_history_encode() {
    history_encode::<8, P>()
}
pub fn test_history_encode() {
    history_encode::<16, T>()
}
/// Decoding in one mode does not disturb the other.
pub fn history_cross() {
    let a = P::any_word();
    let b = T::any_word();
    core::hint::black_box(P::parse_preliminary_variant_and_absolute_number(a));
    core::hint::black_box(T::parse_preliminary_variant_and_absolute_number(b));
    if vp::b() {
        decode_word::<8, P>(P::any_word());
    } else {
        decode_word::<16, T>(T::any_word());
    }
}

//! The instruction set: numbering, versions, lookup maps, property bits, privileges, prices.
use crate::spec;
use crate::vp;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

const V: [ISAVersion; 2] = [ISAVersion(0), ISAVersion(1)];

pub fn numbering() {
    let t = spec::table(1);
    vp::eq(OPCODES_TABLE.len() as u64, 2048, "the table has a row per opcode number");
    vp::eq(DEFAULT_ISA_VERSION.0 as u64, 1, "the default ISA version is 1");
    vp::eq(OPCODES_TABLE_WIDTH as u64, 11, "opcode numbers have 11 bits");
    let n = vp::bits(11);
    let c = spec::code_of(&OPCODES_TABLE[n as usize]);
    vp::observe(c);
    vp::eq(c, t[n as usize], "opcode number stands for its instruction");
}
/// The same number always means one instruction, and one listed instruction has one number.
pub fn numbering_injective() {
    let n = vp::bits(11);
    let m = vp::bits(11);
    vp::assume(n < spec::DENSITY_V1 as u64 && m < spec::DENSITY_V1 as u64);
    let a = spec::code_of(&OPCODES_TABLE[n as usize]);
    let b = spec::code_of(&OPCODES_TABLE[m as usize]);
    vp::eq((a == b) as u64, (n == m) as u64, "different listed numbers are different instructions");
}
fn version_table(v: u8) {
    let t = spec::table(v);
    let r = synthesize_opcode_decoding_tables(11, ISAVersion(v));
    vp::eq(r.len() as u64, 2048, "synthesized table has a row per number");
    let n = vp::bits(11);
    let c = spec::code_of(&r[n as usize]);
    vp::observe(c);
    vp::eq(c, t[n as usize], "synthesized table lists the version's instructions in order");
}
pub fn table_v0() {
    version_table(0)
}
pub fn table_v1() {
    version_table(1)
}
pub fn table_v0_legacy() {
    let t = spec::table(0);
    let r = synthesize_opcode_decoding_tables_legacy(11, ISAVersion(0));
    vp::eq(r.len() as u64, 2048, "legacy table has a row per number");
    let n = vp::bits(11);
    let c = spec::code_of(&r[n as usize]);
    vp::observe(c);
    vp::eq(c, t[n as usize], "legacy table lists the version's instructions in order");
}
/// A wider table only adds invalid rows.
pub fn table_wide() {
    for v in 0..2u8 {
        let t = spec::table(v);
        let bits = vp::fork(12 + vp::bits(1)) as u32;
        let r = synthesize_opcode_decoding_tables(bits as usize, ISAVersion(v));
        vp::eq(r.len() as u64, 1 << bits, "wider table has a row per number");
        let low = vp::bits(11);
        let n = vp::fork(vp::bits(bits - 11)) << 11 | low;
        let c = spec::code_of(&r[n as usize]);
        vp::observe(c);
        let want = if n < 2048 { t[(n & 2047) as usize] } else { spec::INVALID_CODE };
        vp::eq(c, want, "wider table only appends invalid rows");
    }
}
/// Versions to come get what the current one has.
pub fn table_future() {
    let t = spec::table(1);
    let v = vp::u8();
    vp::assume(v >= 1);
    let r = synthesize_opcode_decoding_tables(11, ISAVersion(v));
    vp::eq(r.len() as u64, 2048, "a later version's table has a row per number");
    let n = vp::bits(11);
    let c = spec::code_of(&r[n as usize]);
    vp::observe(c);
    vp::eq(c, t[n as usize], "a later version keeps every number");
}
/// A table too small for the instructions is refused, not cut off.
pub fn table_narrow() {
    let v = vp::u8();
    let bits = vp::bits(4);
    vp::assume(bits < 11);
    let bits = vp::fork(bits);
    vp::must_panic("a table that cannot hold the instructions must not be built", || {
        synthesize_opcode_decoding_tables(bits as usize, ISAVersion(v))
    });
}
pub fn version_compat() {
    let a = synthesize_opcode_decoding_tables(11, ISAVersion(0));
    let b = synthesize_opcode_decoding_tables(11, ISAVersion(1));
    let pa = synthesize_bit_decomposition_table(&a, ISAVersion(0));
    let pb = synthesize_bit_decomposition_table(&b, ISAVersion(1));
    let n = vp::bits(11);
    let (x, y) = (&a[n as usize], &b[n as usize]);
    let (cx, cy) = (spec::code_of(x), spec::code_of(y));
    vp::observe(cx);
    vp::observe(cy);
    let listed = n < spec::DENSITY_V0 as u64;
    if listed {
        vp::eq(spec::fam(cx) | spec::sub(cx) << 8, spec::fam(cy) | spec::sub(cy) << 8, "version 1 keeps the opcode");
        vp::eq(spec::fl(cx), spec::fl(cy), "version 1 keeps the flags");
        vp::eq(spec::dst(cx), spec::dst(cy), "version 1 keeps the destination");
        let same = spec::src(cx) == spec::src(cy) || spec::src(cx) == spec::K_REG && spec::src(cy) == spec::K_RI_REG;
        vp::check(same, "version 1 keeps the source, up to register-or-immediate in register form");
        vp::eq(pa[n as usize], pb[n as usize], "version 1 keeps the property bits");
        vp::eq(x.ergs_price() as u64, y.ergs_price() as u64, "version 1 keeps the price");
    } else {
        vp::check(x.is_explicit_panic(), "numbers unlisted in version 0 are invalid there");
    }
}
pub fn versions() {
    let v = vp::u8();
    let l = ISAVersion::all_backward_compatible_versions(ISAVersion(v));
    let n = l.len() as u64;
    vp::observe(n);
    vp::eq(n, if v == 0 { 1 } else { 2 }, "backward compatible versions are those not above");
    for (i, x) in l.iter().enumerate() {
        vp::eq(x.0 as u64, i as u64, "versions are listed in order");
    }
    vp::eq(ISAVersion(v).as_index() as u64, v as u64, "version index");
    for (i, x) in ALL_ISA_VERSIONS.iter().enumerate() {
        vp::eq(x.0 as u64, i as u64, "all versions are listed in order");
    }
    vp::eq(ALL_ISA_VERSIONS.len() as u64, 2, "there are two versions");
}

/// Any conceivable variant: opcode, operand types and flags free.
fn any_variant() -> (usize, u64, OpcodeVariant) {
    let s = vp::bits(6);
    vp::assume(s < spec::NUM_SUBS as u64);
    let s = vp::fork(s) as usize;
    let a = vp::bits(4);
    vp::assume(a < spec::NUM_OPERANDS as u64);
    let b = vp::bits(4);
    vp::assume(b < spec::NUM_OPERANDS as u64);
    let f = vp::bits(2);
    let v = OpcodeVariant {
        opcode: spec::OPS[s],
        src0_operand_type: spec::OPERANDS[a as usize].0,
        dst0_operand_type: spec::OPERANDS[b as usize].0,
        flags: [f & 1 == 1, f >> 1 == 1],
    };
    let x = &spec::SUBS[s];
    let code = spec::pack(x.fam, x.sub, spec::OPERANDS[a as usize].1, spec::OPERANDS[b as usize].1, f);
    (s, code, v)
}
fn is_listed(s: usize, code: u64) -> bool {
    let x = &spec::SUBS[s];
    let src_ok = match x.src {
        spec::Src::Reg => spec::src(code) == spec::K_REG,
        spec::Src::Full => spec::src(code) >= spec::K_FULL,
        spec::Src::RegOrImm => spec::src(code) == spec::K_RI_REG || spec::src(code) == spec::K_RI_IMM,
    };
    let dst_ok = if x.dst_full {
        spec::dst(code) >= spec::K_FULL && spec::dst(code) < spec::K_FULL + 4
    } else {
        spec::dst(code) == spec::K_REG
    };
    let fl_ok = spec::fl(code) < 1 << x.flags;
    src_ok & dst_ok & fl_ok
}
pub fn lookup_total() {
    let t = spec::table(1);
    let (s, code, v) = any_variant();
    vp::eq(spec::code_of(&v), code, "variant as built");
    let a = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&v).copied();
    let b = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&v).copied();
    let listed = is_listed(s, code);
    vp::observe(a.map_or(!0, |x| x as u64));
    vp::eq(a.is_some() as u64, listed as u64, "a variant has a number exactly if the ISA lists it");
    vp::eq(b.is_some() as u64, listed as u64, "both maps know the same variants");
    if let (Some(i), Some(j)) = (a, b) {
        vp::eq(i as u64, j.into_usize() as u64, "both maps give the same number");
        vp::check(i < 2048, "numbers are below 2048");
        vp::eq(t[i & 2047], code, "the number found is the variant's");
        vp::check(OPCODES_TABLE[i & 2047] == v, "the table maps the number back");
    }
}
pub fn lookup_inverse() {
    let t = spec::table(1);
    let n = vp::bits(11);
    let v = OPCODES_TABLE[n as usize];
    let a = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&v).copied();
    let b = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&v).copied();
    vp::observe(a.map_or(!0, |x| x as u64));
    vp::check(a.is_some() && b.is_some(), "every variant of the table has a number");
    let want = if t[n as usize] == spec::INVALID_CODE { 0 } else { n };
    vp::eq(a.map_or(!0, |x| x as u64), want, "the canonical number is the first row of the variant");
    vp::eq(b.map_or(!0, |x| x.into_usize() as u64), want, "the monotonic number is the first row of the variant");
    vp::eq(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() as u64, spec::DENSITY_V1 as u64, "one entry per listed variant");
    vp::eq(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() as u64, spec::DENSITY_V1 as u64, "one entry per listed variant (monotonic)");
}
pub fn encode_unlisted() {
    let (s, code, v) = any_variant();
    vp::assume(!is_listed(s, code));
    if vp::b() {
        let d = DecodedOpcode::<8, EncodingModeProduction> { variant: v, ..Default::default() };
        vp::must_panic("production mode must refuse a variant the ISA does not list", || EncodingModeProduction::encode_as_integer(&d));
    } else {
        let d = DecodedOpcode::<16, EncodingModeTesting> { variant: v, ..Default::default() };
        vp::must_panic("testing mode must refuse a variant the ISA does not list", || EncodingModeTesting::encode_as_integer(&d));
    }
}

// ---- property bits ----------------------------------------------------------------------------------------
pub fn bits() {
    let want: Vec<u64> = spec::table(1).iter().map(|c| spec::bitmask(*c)).collect();
    let n = vp::bits(11);
    let m = OPCODES_PROPS_INTEGER_BITMASKS[n as usize];
    vp::observe(m);
    vp::eq(m, want[n as usize], "property bits of the opcode number");
    vp::eq(OPCODES_PROPS_INTEGER_BITMASKS.len() as u64, 2048, "one mask per opcode number");
}
pub fn bits_both_versions() {
    for v in 0..2u8 {
        let want: Vec<u64> = spec::table(v).iter().map(|c| spec::bitmask(*c)).collect();
        let t = synthesize_opcode_decoding_tables(11, ISAVersion(v));
        let r = synthesize_bit_decomposition_table(&t, ISAVersion(v));
        vp::eq(r.len() as u64, 2048, "one mask per row");
        let n = vp::bits(11);
        let m = r[n as usize];
        vp::observe(m);
        vp::eq(m, want[n as usize], "property bits in the version");
    }
}
fn field(m: u64, lo: u32, n: u32) -> u64 {
    m >> lo & ((1 << n) - 1)
}
/// Each group but the flags is one-hot and names the decoded variant's choice.
pub fn bits_decode() {
    let n = vp::bits(11);
    let v = OPCODES_TABLE[n as usize];
    let m = OPCODES_PROPS_INTEGER_BITMASKS[n as usize];
    vp::eq(field(m, 0, 16), 1 << v.opcode.variant_idx(), "opcode bits are one-hot at the opcode's index");
    vp::eq(field(m, 16, 10), 1 << v.opcode.materialize_subvariant_idx(), "variant bits are one-hot at the sub-variant's index");
    vp::eq(field(m, 26, 2), v.flags[0] as u64 | (v.flags[1] as u64) << 1, "flag bits are the flags");
    vp::eq(field(m, 28, 6), 1 << v.src0_operand_type.variant_idx(), "source bits are one-hot at the addressing mode");
    vp::eq(field(m, 34, 4), 1 << v.dst0_operand_type.variant_idx(), "destination bits are one-hot at the addressing mode");
    vp::eq(field(m, 38, 10), 0, "the bits up to the rounded width are zero");
    vp::eq(field(m, 48, 1), v.requires_kernel_mode() as u64, "aux bit 0 is the kernel mode requirement");
    vp::eq(field(m, 49, 1), v.can_be_used_in_static_context() as u64, "aux bit 1 is static context permission");
    vp::eq(field(m, 50, 1), v.is_explicit_panic() as u64, "aux bit 2 is the explicit panic");
    vp::eq(m >> 51, 0, "no other bit is set");
    let k = vp::bits(11);
    let o = OPCODES_PROPS_INTEGER_BITMASKS[k as usize];
    let u = OPCODES_TABLE[k as usize];
    vp::eq((o == m) as u64, (u == v) as u64, "equal masks are equal variants");
}
pub fn bit_counts() {
    let i = vp::bits(1);
    let v = V[i as usize];
    vp::eq(total_description_bits_for_version(v) as u64, 38, "description bits");
    vp::eq(total_description_bits_rounded_for_version(v) as u64, 48, "rounded description bits");
    vp::eq(total_opcode_description_and_aux_bits_for_version(v) as u64, 51, "description and aux bits");
    vp::eq(max_num_variants_for_version(v) as u64, 10, "sub-variant bits");
    vp::eq(max_num_flags_for_version(v) as u64, 2, "flag bits");
    vp::eq(KERNEL_MODE_FLAG_BITS as u64, 1, "kernel flag width");
    vp::eq(CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS as u64, 1, "static flag width");
    vp::eq(EXPLICIT_PANIC_FLAG_BITS as u64, 1, "explicit panic flag width");
    vp::eq(NUM_OPCODES as u64, 16, "number of families");
    let text = compute_decoding_format(v);
    let mut nums = Vec::new();
    let mut last = None;
    for c in text.bytes() {
        if c.is_ascii_digit() {
            last = Some(last.unwrap_or(0) * 10 + (c - b'0') as u64);
        } else if let Some(x) = last.take() {
            nums.push(x);
        }
    }
    vp::check(nums == [38, 16, 10, 2, 6, 4], "the described format has the total and group widths in order");
    vp::eq(*NUM_LOGICAL_OPCODES as u64, 16, "logical opcodes");
    vp::eq(*NUM_INPUT_VARIANTS as u64, 6, "input addressing modes");
    vp::eq(*NUM_OUTPUT_VARIANTS as u64, 4, "output addressing modes");
    vp::eq(OPCODE_TYPE_BITS as u64, 16, "opcode type bits");
    vp::eq(OPCODE_INPUT_VARIANT_FLAGS as u64, 6, "input bits");
    vp::eq(OPCODE_OUTPUT_VARIANT_FLAGS as u64, 4, "output bits");
    vp::eq(TOTAL_AUX_BITS as u64, 3, "aux bits");
    vp::eq(KERNER_MODE_FLAG_IDX as u64, 0, "kernel flag index");
    vp::eq(CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX as u64, 1, "static flag index");
    vp::eq(EXPLICIT_PANIC_FLAG_IDX as u64, 2, "explicit panic flag index");
    vp::eq(*NOP_BITSPREAD_U64, spec::bitmask(spec::NOP_CODE), "nop bits");
    vp::eq(*PANIC_BITSPREAD_U64, spec::bitmask(spec::PANIC_CODE), "panic bits");
    vp::eq(spec::code_of(&NOP_OPCODE_VARIANT), spec::NOP_CODE, "nop variant");
    vp::eq(spec::code_of(&PANIC_OPCODE_VARIANT), spec::PANIC_CODE, "panic variant");
    vp::observe(i);
}

// ---- privileges -------------------------------------------------------------------------------------------
macro_rules! inner {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Opcode::Invalid($x) => $e,
            Opcode::Nop($x) => $e,
            Opcode::Add($x) => $e,
            Opcode::Sub($x) => $e,
            Opcode::Mul($x) => $e,
            Opcode::Div($x) => $e,
            Opcode::Jump($x) => $e,
            Opcode::Context($x) => $e,
            Opcode::Shift($x) => $e,
            Opcode::Binop($x) => $e,
            Opcode::Ptr($x) => $e,
            Opcode::NearCall($x) => $e,
            Opcode::Log($x) => $e,
            Opcode::FarCall($x) => $e,
            Opcode::Ret($x) => $e,
            Opcode::UMA($x) => $e,
        }
    };
}
pub fn privileges() {
    let (s, code, v) = any_variant();
    let x = &spec::SUBS[s];
    let k = v.requires_kernel_mode();
    let st = v.can_be_used_in_static_context();
    vp::observe(k as u64 | (st as u64) << 1);
    vp::eq(k as u64, x.kernel as u64, "kernel mode is required exactly for the privileged instructions");
    vp::eq(st as u64, x.static_ok as u64, "static calls refuse exactly the state-changing instructions");
    vp::eq(v.opcode.requires_kernel_mode() as u64, k as u64, "opcode and variant agree on kernel mode");
    vp::eq(v.opcode.can_be_used_in_static_context() as u64, st as u64, "opcode and variant agree on static calls");
    let (ik, is) = inner!(v.opcode, i => (OpcodeProps::requires_kernel_mode(&i), OpcodeProps::can_be_used_in_static_context(&i)));
    vp::eq(ik as u64, k as u64, "the instruction itself agrees on kernel mode");
    vp::eq(is as u64, st as u64, "the instruction itself agrees on static calls");
    vp::eq(v.is_explicit_panic() as u64, (x.fam == spec::INVALID) as u64, "only the invalid instruction is an explicit panic");
    if is_listed(s, code) {
        let i = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&v];
        let m = OPCODES_PROPS_INTEGER_BITMASKS[i & 2047];
        vp::eq(m >> 48 & 1, x.kernel as u64, "the circuit's kernel bit agrees");
        vp::eq(m >> 49 & 1, x.static_ok as u64, "the circuit's static bit agrees");
    }
}
pub fn privileges_by_number() {
    let t = spec::table(1);
    let kernel: Vec<u64> = t.iter().map(|c| spec::SUBS[spec::sub_of(*c)].kernel as u64).collect();
    let stat: Vec<u64> = t.iter().map(|c| spec::SUBS[spec::sub_of(*c)].static_ok as u64).collect();
    let w = vp::u64();
    let (d, n) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(w);
    let m = OPCODES_PROPS_INTEGER_BITMASKS[n.into_usize() & 2047];
    let i = (w & 2047) as usize;
    vp::observe(m);
    vp::eq(d.variant.requires_kernel_mode() as u64, kernel[i], "any word: decoded instruction's kernel requirement");
    vp::eq(d.variant.can_be_used_in_static_context() as u64, stat[i], "any word: decoded instruction's static permission");
    vp::eq(m >> 48 & 1, kernel[i], "any word: kernel bit of the mask");
    vp::eq(m >> 49 & 1, stat[i], "any word: static bit of the mask");
}

// ---- invalid numbers --------------------------------------------------------------------------------------
pub fn invalid() {
    let w = vp::u64();
    let (d, n) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(w);
    let num = n.into_usize() & 2047;
    let listed = (w & 2047 != 0) & ((w & 2047) < spec::DENSITY_V1 as u64);
    let e = d.variant.is_explicit_panic();
    vp::observe(e as u64);
    vp::eq(e as u64, !listed as u64, "a word is an invalid instruction exactly if its number is not listed");
    vp::eq((d.variant == INVALID_OPCODE_VARIANT) as u64, !listed as u64, "unlisted numbers decode to the invalid variant");
    vp::eq((OPCODES_PRICES[num] == u32::MAX) as u64, !listed as u64, "exactly the invalid instruction burns everything");
    vp::eq((d.variant.ergs_price() == u32::MAX) as u64, !listed as u64, "the variant's price says so too");
    vp::eq(OPCODES_PROPS_INTEGER_BITMASKS[num] >> 50 & 1, !listed as u64, "the circuit's panic bit says so too");
    vp::eq(spec::code_of(&INVALID_OPCODE_VARIANT), spec::INVALID_CODE, "the invalid variant");
    vp::eq(INVALID_OPCODE_ERGS as u64, u32::MAX as u64, "the invalid price");
}
pub fn invalid_testing() {
    let w = vp::u128();
    let (d, _) = EncodingModeTesting::parse_preliminary_variant_and_absolute_number(w);
    let num = w as u64 & 2047;
    let listed = (num != 0) & (num < spec::DENSITY_V1 as u64);
    let e = d.variant.is_explicit_panic();
    vp::observe(e as u64);
    vp::eq(e as u64, !listed as u64, "testing mode: invalid exactly if the number is not listed");
    vp::eq((d.variant == INVALID_OPCODE_VARIANT) as u64, !listed as u64, "testing mode: unlisted numbers decode to the invalid variant");
}

// ---- prices -----------------------------------------------------------------------------------------------
pub fn prices() {
    let want: Vec<u64> = spec::table(1).iter().map(|c| spec::SUBS[spec::sub_of(*c)].price as u64).collect();
    let n = vp::bits(11);
    let p = OPCODES_PRICES[n as usize] as u64;
    vp::observe(p);
    vp::eq(p, want[n as usize], "price of the opcode number");
    vp::eq(OPCODES_TABLE[n as usize].ergs_price() as u64, want[n as usize], "price of the decoded variant");
    vp::eq(OPCODES_PRICES.len() as u64, 2048, "one price per opcode number");
}
pub fn prices_by_variant() {
    let (s, _, v) = any_variant();
    let x = &spec::SUBS[s];
    let p = v.ergs_price();
    vp::observe(p as u64);
    vp::eq(p as u64, x.price as u64, "price of the variant, whatever its operands and flags");
    vp::eq(v.opcode.ergs_price() as u64, p as u64, "opcode and variant agree on the price");
    let q = inner!(v.opcode, i => OpcodeVariantProps::ergs_price(&i));
    vp::eq(q as u64, p as u64, "the instruction itself agrees on the price");
    vp::check(p >= 5, "nothing is free: at least a VM cycle and a RAM query");
}

// ---- operands ---------------------------------------------------------------------------------------------
fn nin(s: usize) -> (u64, u64) {
    // number of input and output operands
    let x = &spec::SUBS[s];
    match (x.fam, x.sub) {
        (spec::INVALID, _) => (0, 0),
        (spec::NOP, _) => (1, 1),
        (spec::MUL | spec::DIV, _) => (2, 2),
        (spec::JUMP, _) => (1, 0),
        (spec::NEAR_CALL, _) => (1, 0),
        (spec::CONTEXT, 7 | 8) => (1, 0),
        (spec::CONTEXT, 9) => (0, 0),
        (spec::CONTEXT, _) => (0, 1),
        (spec::LOG, 0 | 4) => (1, 1),
        (spec::LOG, _) => (2, 0),
        (spec::FAR_CALL, _) => (2, 0),
        (spec::RET, 2) => (0, 0),
        (spec::RET, _) => (1, 0),
        (spec::UMA, 1 | 3) => (2, 1),
        (spec::UMA, _) => (1, 2),
        _ => (2, 1),
    }
}
pub fn operands() {
    let (s, _, v) = any_variant();
    let x = &spec::SUBS[s];
    let i = vp::bits(1);
    let ver = V[i as usize];
    let o = v.opcode;
    let ins = o.input_operands(ver);
    let outs = o.output_operands(ver);
    let kin: Vec<u64> = ins.iter().map(spec::operand_of).collect();
    let kout: Vec<u64> = outs.iter().map(spec::operand_of).collect();
    vp::observe(kin.len() as u64 | (kout.len() as u64) << 8);
    let (ni, no) = nin(s);
    vp::eq(kin.len() as u64, ni, "number of inputs");
    vp::eq(kout.len() as u64, no, "number of outputs");
    let want0 = match x.src {
        spec::Src::Reg => spec::K_REG,
        spec::Src::Full => spec::K_FULL,
        spec::Src::RegOrImm => {
            if i == 0 {
                spec::K_REG
            } else {
                spec::K_RI_REG
            }
        }
    };
    for (j, k) in kin.iter().enumerate() {
        vp::eq(*k, if j == 0 { want0 } else { spec::K_REG }, "only the first input is addressable");
    }
    for (j, k) in kout.iter().enumerate() {
        vp::eq(*k, if j == 0 && x.dst_full { spec::K_FULL } else { spec::K_REG }, "only the first output is addressable");
    }
    let mem_in = o.can_have_src0_from_mem(ver);
    let mem_out = o.can_write_dst0_into_memory(ver);
    vp::eq(mem_in as u64, (x.src == spec::Src::Full) as u64, "source from memory exactly for full addressing");
    vp::eq(mem_out as u64, x.dst_full as u64, "destination in memory exactly for full addressing");
    let (a, b) = inner!(o, q => (q.can_have_src0_from_mem(ver), q.can_write_dst0_into_memory(ver)));
    vp::eq(a as u64, mem_in as u64, "the instruction itself agrees on its source");
    vp::eq(b as u64, mem_out as u64, "the instruction itself agrees on its destination");
}
/// What the operand classes allow is what the numbering lists.
pub fn operand_modes() {
    let n = vp::bits(11);
    let v = OPCODES_TABLE[n as usize];
    let s = spec::operand_of(&v.src0_operand_type);
    let d = spec::operand_of(&v.dst0_operand_type);
    vp::observe(s | d << 8);
    vp::eq(v.opcode.can_have_src0_from_mem(ISAVersion(1)) as u64, (s >= spec::K_FULL) as u64, "listed sources follow the operand class");
    vp::eq(v.opcode.can_write_dst0_into_memory(ISAVersion(1)) as u64, (d >= spec::K_FULL) as u64, "listed destinations follow the operand class");
    vp::check(d < spec::K_FULL + 4, "no destination is an immediate or on a code page");
    vp::eq(v.src0_operand_type.variant_idx() as u64, if s >= 8 { s - 8 } else if s == 2 { 4 } else { 0 }, "source mode index");
    vp::eq(v.dst0_operand_type.variant_idx() as u64, if d >= 8 { d - 8 } else { 0 }, "destination mode index");
}
pub fn addressing_modes() {
    let i = vp::bits(3);
    vp::assume(i < 6);
    let m = ImmMemHandlerFlags::all_variants()[i as usize];
    vp::observe(spec::mode_of(&m));
    vp::eq(spec::mode_of(&m), i, "addressing modes are listed in index order");
    vp::eq(m.variant_index() as u64, i, "addressing mode index");
    vp::eq(m.encoding_byte() as u64, i, "addressing mode byte");
    vp::eq(m.is_memory_used() as u64, (i != spec::M_REG && i != spec::M_IMM) as u64, "memory is used by all but register and immediate");
    vp::eq(m.is_allowed_for_dst() as u64, (i < 4) as u64, "destinations are registers and stack only");
    vp::eq(ImmMemHandlerFlags::num_variants() as u64, 6, "six modes");
    vp::eq(ImmMemHandlerFlags::num_src_variants() as u64, 6, "six source modes");
    vp::eq(ImmMemHandlerFlags::num_dst_variants() as u64, 4, "four destination modes");
    let j = vp::bits(1);
    let r = RegOrImmFlags::all_variants()[j as usize];
    let k = if j == 0 { spec::M_REG } else { spec::M_IMM };
    vp::eq(r.variant_index() as u64, k, "register-or-immediate uses the same indexes");
    vp::eq(r.encoding_byte() as u64, k, "register-or-immediate uses the same bytes");
    vp::eq(r.is_memory_used() as u64, 0, "register-or-immediate never uses memory");
    vp::eq(r.is_allowed_for_dst() as u64, (j == 0) as u64, "an immediate is no destination");
    vp::eq(RegOrImmFlags::num_variants() as u64, 2, "two register-or-immediate modes");
    vp::eq(RegOrImmFlags::num_src_variants() as u64, 2, "two register-or-immediate sources");
    vp::eq(RegOrImmFlags::num_dst_variants() as u64, 1, "one register-or-immediate destination");
}
pub fn flag_roles() {
    let (s, code, v) = any_variant();
    let x = &spec::SUBS[s];
    let f = spec::fl(code);
    let want = match x.fam {
        spec::SUB | spec::DIV | spec::SHIFT => f >> 1 & 1,
        spec::PTR => f & 1,
        _ => 0,
    };
    vp::observe(want);
    vp::eq(v.swap_operands() as u64, want, "operands are swapped by the right flag and only for non-commutative instructions");
    vp::eq(SET_FLAGS_FLAG_IDX as u64, 0, "set-flags flag");
    vp::eq(SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES as u64, 1, "swap flag of arithmetic");
    vp::eq(SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE as u64, 0, "swap flag of pointers");
    vp::eq(FAR_CALL_STATIC_FLAG_IDX as u64, 0, "static flag of far calls");
    vp::eq(FAR_CALL_SHARD_FLAG_IDX as u64, 1, "shard flag of far calls");
    vp::eq(FIRST_MESSAGE_FLAG_IDX as u64, 0, "first-message flag of log");
    vp::eq(UMA_INCREMENT_FLAG_IDX as u64, 0, "increment flag of memory access");
    vp::eq(RET_TO_LABEL_BIT_IDX as u64, 0, "to-label flag of ret");
}

// ---- sub-variants -----------------------------------------------------------------------------------------
fn fam_subs(fam: u64) -> (u64, u64) {
    let n = spec::SUBS.iter().filter(|x| x.fam == fam).count() as u64;
    let first = spec::SUBS.iter().position(|x| x.fam == fam).unwrap() as u64;
    (n, first)
}
/// immediates an instruction of the family uses
fn imms(fam: u64) -> u64 {
    match fam {
        spec::NOP | spec::ADD | spec::SUB | spec::MUL | spec::DIV | spec::SHIFT | spec::BINOP | spec::PTR | spec::NEAR_CALL => 2,
        spec::JUMP | spec::FAR_CALL | spec::RET => 1,
        _ => 0,
    }
}
fn family<X: OpcodeVariantProps + OpcodeProps + Copy + PartialEq>(fam: u64, wrap: fn(X) -> Opcode) {
    let (n, first) = fam_subs(fam);
    let iv = vp::bits(1);
    let ver = V[iv as usize];
    let idx = vp::u64();
    let r = X::from_variant_index_for_version(idx as usize, &ver);
    vp::observe(r.is_some() as u64);
    vp::eq(r.is_some() as u64, (idx < n) as u64, "an index names a sub-variant exactly if it is in range");
    if let Some(x) = r {
        vp::eq(x.variant_index() as u64, idx, "index to sub-variant and back");
        vp::eq(spec::op_of(&wrap(x)), fam | idx << 8, "the index names the right sub-variant");
        vp::eq(x.minimal_version().0 as u64, 0, "every sub-variant exists since version 0");
        vp::eq(x.is_available_for_version(ver) as u64, 1, "every sub-variant is available in every version");
        vp::eq(x.is_added_in_version(ver) as u64, (iv == 0) as u64, "sub-variants were added in version 0");
        let o = wrap(x);
        vp::eq(o.variant_idx() as u64, fam, "logical opcode index");
        vp::eq(o.materialize_subvariant_idx() as u64, idx, "sub-variant index through the opcode");
        let p = all_opcode_prototypes();
        for q in p.iter() {
            if q.variant_idx() as u64 == fam {
                let m = q.materialize_subvariant_from_prototype(idx as usize, &ver);
                vp::check(m == o, "materialising the index from the prototype gives the sub-variant");
            }
        }
        let data = x.variants_data(ver);
        vp::eq(data.len() as u64, n, "one record per sub-variant");
        for (k, d) in data.iter().enumerate() {
            vp::eq(d.variant_idx as u64, k as u64, "records come in index order");
            vp::eq(d.num_non_exclusive_flags as u64, spec::SUBS[first as usize + k].flags as u64, "number of flags");
            vp::eq(d.num_used_immediates as u64, imms(fam), "number of immediates");
        }
        vp::eq(OpcodeProps::max_variant_idx(&x, ver) as u64, n - 1, "largest index as seen through the instruction");
    }
    vp::eq(X::max_variant_idx_for_version(ver) as u64, n - 1, "largest index");
    let all = X::all_variants();
    vp::eq(all.len() as u64, n, "all sub-variants");
    for (k, x) in all.iter().enumerate() {
        vp::eq(x.variant_index() as u64, k as u64, "all sub-variants in order");
    }
    let avail = X::variants_for_version(ver);
    vp::eq(avail.len() as u64, n, "all sub-variants are available in every version");
    for (k, x) in avail.iter().enumerate() {
        vp::eq(x.variant_index() as u64, k as u64, "available sub-variants in order");
    }
    let added = X::variants_added_in_version(ver);
    vp::eq(added.len() as u64, if iv == 0 { n } else { 0 }, "all sub-variants were added in version 0");
    for (k, x) in added.iter().enumerate() {
        vp::eq(x.variant_index() as u64, k as u64, "added sub-variants in order");
    }
}
pub fn subvariants_a() {
    match vp::fork(vp::bits(3)) {
        0 => family::<InvalidOpcode>(spec::INVALID, Opcode::Invalid),
        1 => family::<NopOpcode>(spec::NOP, Opcode::Nop),
        2 => family::<AddOpcode>(spec::ADD, Opcode::Add),
        3 => family::<SubOpcode>(spec::SUB, Opcode::Sub),
        4 => family::<MulOpcode>(spec::MUL, Opcode::Mul),
        5 => family::<DivOpcode>(spec::DIV, Opcode::Div),
        6 => family::<JumpOpcode>(spec::JUMP, Opcode::Jump),
        _ => family::<ContextOpcode>(spec::CONTEXT, Opcode::Context),
    }
}
pub fn subvariants_b() {
    match vp::fork(vp::bits(3)) {
        0 => family::<ShiftOpcode>(spec::SHIFT, Opcode::Shift),
        1 => family::<BinopOpcode>(spec::BINOP, Opcode::Binop),
        2 => family::<PtrOpcode>(spec::PTR, Opcode::Ptr),
        3 => family::<NearCallOpcode>(spec::NEAR_CALL, Opcode::NearCall),
        4 => family::<LogOpcode>(spec::LOG, Opcode::Log),
        5 => family::<FarCallOpcode>(spec::FAR_CALL, Opcode::FarCall),
        6 => family::<RetOpcode>(spec::RET, Opcode::Ret),
        _ => family::<UMAOpcode>(spec::UMA, Opcode::UMA),
    }
}
/// The boxed prototypes, in order, and what they report.
pub fn prototypes() {
    const ORDER: [u64; 16] = [
        spec::INVALID, spec::NOP, spec::ADD, spec::SUB, spec::MUL, spec::DIV, spec::JUMP, spec::BINOP, spec::SHIFT, spec::PTR,
        spec::NEAR_CALL, spec::CONTEXT, spec::LOG, spec::FAR_CALL, spec::RET, spec::UMA,
    ];
    let i = vp::fork(vp::bits(4));
    let fam = ORDER[i as usize];
    let iv = vp::bits(1);
    let ver = V[iv as usize];
    let (n, first) = fam_subs(fam);
    vp::eq(OPCODE_PROTOTYPES.len() as u64, 16, "sixteen prototypes");
    let p = &OPCODE_PROTOTYPES[i as usize];
    vp::eq(p.max_variant_idx(ver) as u64, n - 1, "largest sub-variant index of the prototype");
    let data = p.variants_data(ver);
    vp::eq(data.len() as u64, n, "one record per sub-variant of the prototype");
    for (k, d) in data.iter().enumerate() {
        vp::eq(d.variant_idx as u64, k as u64, "prototype records come in index order");
        vp::eq(d.num_non_exclusive_flags as u64, spec::SUBS[first as usize + k].flags as u64, "number of flags by prototype");
        vp::eq(d.num_used_immediates as u64, imms(fam), "number of immediates by prototype");
    }
    let q = all_opcode_prototypes()[i as usize];
    vp::eq(spec::op_of(&q), fam, "prototypes are listed in numbering order");
    vp::eq(q.variant_idx() as u64, fam, "prototype index is its one-hot position");
    for k in 0..n {
        let m = q.materialize_subvariant_from_prototype(k as usize, &ver);
        vp::eq(spec::op_of(&m), fam | k << 8, "prototype materialises its sub-variants");
        vp::eq(m.materialize_subvariant_idx() as u64, k, "and back");
    }
    vp::observe(n);
    // distinct names
    for (k, o) in OPCODE_PROTOTYPES.iter().enumerate() {
        if k as u64 != i {
            vp::check(o.name() != p.name(), "prototype names are distinct");
        }
    }
    let k = vp::bits(8);
    vp::assume(k >= n);
    vp::must_panic("an index out of range must not materialise", || q.materialize_subvariant_from_prototype(k as usize, &ver));
}

//! Independent description of the instruction set: what the crate has to provide, written down from the
//! ISA documentation, never computed from the crate's own tables.
use zkevm_opcode_defs::*;

// logical opcodes, numbered as their one-hot position
pub const INVALID: u64 = 0;
pub const NOP: u64 = 1;
pub const ADD: u64 = 2;
pub const SUB: u64 = 3;
pub const MUL: u64 = 4;
pub const DIV: u64 = 5;
pub const JUMP: u64 = 6;
pub const CONTEXT: u64 = 7;
pub const SHIFT: u64 = 8;
pub const BINOP: u64 = 9;
pub const PTR: u64 = 10;
pub const NEAR_CALL: u64 = 11;
pub const LOG: u64 = 12;
pub const FAR_CALL: u64 = 13;
pub const RET: u64 = 14;
pub const UMA: u64 = 15;

// operand kinds
pub const K_REG: u64 = 0; // register only
pub const K_RI_REG: u64 = 1; // register-or-immediate, register
pub const K_RI_IMM: u64 = 2; // register-or-immediate, immediate
pub const K_FULL: u64 = 8; // + addressing mode 0..5
pub const M_REG: u64 = 0;
pub const M_PUSHPOP: u64 = 1;
pub const M_STACK_OFF: u64 = 2;
pub const M_STACK_ABS: u64 = 3;
pub const M_IMM: u64 = 4;
pub const M_CODE: u64 = 5;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Src {
    Reg,
    Full,
    RegOrImm, // since ISA version 1; register only before
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub fam: u64,
    pub sub: u64,
    pub flags: u32,
    pub src: Src,
    pub dst_full: bool,
    pub kernel: bool,
    pub static_ok: bool,
    pub price: u32,
}

const fn s(fam: u64, sub: u64, flags: u32, src: Src, dst_full: bool, kernel: bool, static_ok: bool, price: u32) -> Sub {
    Sub { fam, sub, flags, src, dst_full, kernel, static_ok, price }
}

pub const NUM_SUBS: usize = 45;
/// All instructions, in numbering order.
pub const SUBS: [Sub; NUM_SUBS] = [
    s(INVALID, 0, 0, Src::Reg, false, false, true, u32::MAX),
    s(NOP, 0, 0, Src::Full, true, false, true, 6),
    s(ADD, 0, 1, Src::Full, true, false, true, 6),
    s(SUB, 0, 2, Src::Full, true, false, true, 6),
    s(MUL, 0, 1, Src::Full, true, false, true, 6),
    s(DIV, 0, 2, Src::Full, true, false, true, 6),
    s(JUMP, 0, 0, Src::Full, false, false, true, 6),
    s(BINOP, 0, 1, Src::Full, true, false, true, 6), // xor
    s(BINOP, 1, 1, Src::Full, true, false, true, 6), // and
    s(BINOP, 2, 1, Src::Full, true, false, true, 6), // or
    s(SHIFT, 0, 2, Src::Full, true, false, true, 6), // shl
    s(SHIFT, 1, 2, Src::Full, true, false, true, 6), // shr
    s(SHIFT, 2, 2, Src::Full, true, false, true, 6), // rol
    s(SHIFT, 3, 2, Src::Full, true, false, true, 6), // ror
    s(PTR, 0, 1, Src::Full, true, false, true, 6),   // add
    s(PTR, 1, 1, Src::Full, true, false, true, 6),   // sub
    s(PTR, 2, 1, Src::Full, true, false, true, 6),   // pack
    s(PTR, 3, 1, Src::Full, true, false, true, 6),   // shrink
    s(NEAR_CALL, 0, 0, Src::Reg, false, false, true, 25),
    s(CONTEXT, 0, 0, Src::Reg, false, false, true, 5),  // this
    s(CONTEXT, 1, 0, Src::Reg, false, false, true, 5),  // caller
    s(CONTEXT, 2, 0, Src::Reg, false, false, true, 5),  // code address
    s(CONTEXT, 3, 0, Src::Reg, false, false, true, 5),  // meta
    s(CONTEXT, 4, 0, Src::Reg, false, false, true, 5),  // ergs left
    s(CONTEXT, 5, 0, Src::Reg, false, false, true, 5),  // sp
    s(CONTEXT, 6, 0, Src::Reg, false, false, true, 5),  // get context u128
    s(CONTEXT, 7, 0, Src::Reg, false, true, false, 5),  // set context u128
    s(CONTEXT, 8, 0, Src::Reg, false, true, false, 5),  // set ergs per pubdata
    s(CONTEXT, 9, 0, Src::Reg, false, true, false, 5),  // increment tx number
    s(LOG, 0, 0, Src::Reg, false, false, true, 158),    // storage read
    s(LOG, 1, 0, Src::Reg, false, false, false, 3501),  // storage write
    s(LOG, 2, 1, Src::Reg, false, true, false, 156250), // to L1
    s(LOG, 3, 1, Src::Reg, false, true, false, 38),     // event
    s(LOG, 4, 0, Src::Reg, false, true, true, 6),       // precompile
    s(FAR_CALL, 0, 2, Src::Reg, false, false, true, 182), // normal
    s(FAR_CALL, 1, 2, Src::Reg, false, false, true, 182), // delegate
    s(FAR_CALL, 2, 2, Src::Reg, false, true, true, 182),  // mimic
    s(RET, 0, 1, Src::Reg, false, false, true, 5),      // ok
    s(RET, 1, 1, Src::Reg, false, false, true, 5),      // revert
    s(RET, 2, 1, Src::Reg, false, false, true, 5),      // panic
    s(UMA, 0, 1, Src::RegOrImm, false, false, true, 7), // heap read
    s(UMA, 1, 1, Src::RegOrImm, false, false, true, 13), // heap write
    s(UMA, 2, 1, Src::RegOrImm, false, false, true, 7), // aux heap read
    s(UMA, 3, 1, Src::RegOrImm, false, false, true, 13), // aux heap write
    s(UMA, 4, 1, Src::Reg, false, false, true, 7),      // fat pointer read
];

pub const fn pack(fam: u64, sub: u64, src: u64, dst: u64, fl: u64) -> u64 {
    fam | sub << 8 | src << 16 | dst << 24 | fl << 32
}
pub const INVALID_CODE: u64 = pack(INVALID, 0, K_REG, K_REG, 0);
pub const NOP_CODE: u64 = pack(NOP, 0, K_FULL + M_REG, K_FULL + M_REG, 0);
pub const PANIC_CODE: u64 = pack(RET, 2, K_REG, K_REG, 0);

pub fn fam(c: u64) -> u64 {
    c & 0xff
}
pub fn sub(c: u64) -> u64 {
    c >> 8 & 0xff
}
pub fn src(c: u64) -> u64 {
    c >> 16 & 0xff
}
pub fn dst(c: u64) -> u64 {
    c >> 24 & 0xff
}
pub fn fl(c: u64) -> u64 {
    c >> 32 & 0xff
}

/// Numbers in the order of an ISA version's own listing; flag 0 is the slow one.
fn emit(out: &mut Vec<u64>, x: &Sub, srcs: &[u64], dsts: &[u64]) {
    for &sk in srcs {
        for &dk in dsts {
            for f in 0..(1u64 << x.flags) {
                let fl = match x.flags {
                    2 => (f >> 1) | (f & 1) << 1,
                    _ => f,
                };
                out.push(pack(x.fam, x.sub, sk, dk, fl));
            }
        }
    }
}
const FULL_SRC: [u64; 6] = [8, 9, 10, 11, 12, 13];
const FULL_DST: [u64; 4] = [8, 9, 10, 11];

pub const DENSITY_V0: usize = 1085;
pub const DENSITY_V1: usize = 1093;

/// The meaning of every opcode number in an ISA version (0 or 1), for an 11-bit table.
pub fn table(version: u8) -> Vec<u64> {
    let mut out = Vec::with_capacity(2048);
    for x in SUBS.iter() {
        let dsts: &[u64] = if x.dst_full { &FULL_DST } else { &[K_REG] };
        match x.src {
            Src::Reg => emit(&mut out, x, &[K_REG], dsts),
            Src::Full => emit(&mut out, x, &FULL_SRC, dsts),
            Src::RegOrImm => emit(&mut out, x, &[if version == 0 { K_REG } else { K_RI_REG }], dsts),
        }
    }
    assert!(out.len() == DENSITY_V0);
    if version >= 1 {
        // appended by version 1: immediate offsets for heap accesses
        for x in SUBS.iter() {
            if x.src == Src::RegOrImm {
                emit(&mut out, x, &[K_RI_IMM], &[K_REG]);
            }
        }
        assert!(out.len() == DENSITY_V1);
    }
    out.resize(2048, INVALID_CODE);
    out
}

pub fn density(version: u8) -> usize {
    if version == 0 {
        DENSITY_V0
    } else {
        DENSITY_V1
    }
}

pub fn sub_of(code: u64) -> usize {
    SUBS.iter().position(|x| x.fam == fam(code) && x.sub == sub(code)).unwrap()
}

fn mode(k: u64) -> u64 {
    match k {
        K_REG | K_RI_REG => M_REG,
        K_RI_IMM => M_IMM,
        k => k - K_FULL,
    }
}

/// Flattened property bits of an instruction.
pub fn bitmask(code: u64) -> u64 {
    let x = &SUBS[sub_of(code)];
    1 << x.fam
        | 1 << (16 + x.sub)
        | fl(code) << 26
        | 1 << (28 + mode(src(code)))
        | 1 << (34 + mode(dst(code)))
        | (x.kernel as u64) << 48
        | (x.static_ok as u64) << 49
        | ((x.fam == INVALID) as u64) << 50
}

// ---- reading the crate's values -------------------------------------------------------------------------
#[allow(unreachable_patterns)]
pub fn op_of(o: &Opcode) -> u64 {
    match o {
        Opcode::Invalid(_) => INVALID,
        Opcode::Nop(_) => NOP,
        Opcode::Add(AddOpcode::Add) => ADD,
        Opcode::Sub(SubOpcode::Sub) => SUB,
        Opcode::Mul(_) => MUL,
        Opcode::Div(_) => DIV,
        Opcode::Jump(_) => JUMP,
        Opcode::Context(x) => {
            CONTEXT
                | match x {
                    ContextOpcode::This => 0,
                    ContextOpcode::Caller => 1,
                    ContextOpcode::CodeAddress => 2,
                    ContextOpcode::Meta => 3,
                    ContextOpcode::ErgsLeft => 4,
                    ContextOpcode::Sp => 5,
                    ContextOpcode::GetContextU128 => 6,
                    ContextOpcode::SetContextU128 => 7,
                    ContextOpcode::SetErgsPerPubdataByte => 8,
                    ContextOpcode::IncrementTxNumber => 9,
                    _ => 0xff,
                } << 8
        }
        Opcode::Shift(x) => {
            SHIFT
                | match x {
                    ShiftOpcode::Shl => 0,
                    ShiftOpcode::Shr => 1,
                    ShiftOpcode::Rol => 2,
                    ShiftOpcode::Ror => 3,
                    _ => 0xff,
                } << 8
        }
        Opcode::Binop(x) => {
            BINOP
                | match x {
                    BinopOpcode::Xor => 0,
                    BinopOpcode::And => 1,
                    BinopOpcode::Or => 2,
                    _ => 0xff,
                } << 8
        }
        Opcode::Ptr(x) => {
            PTR | match x {
                PtrOpcode::Add => 0,
                PtrOpcode::Sub => 1,
                PtrOpcode::Pack => 2,
                PtrOpcode::Shrink => 3,
                _ => 0xff,
            } << 8
        }
        Opcode::NearCall(_) => NEAR_CALL,
        Opcode::Log(x) => {
            LOG | match x {
                LogOpcode::StorageRead => 0,
                LogOpcode::StorageWrite => 1,
                LogOpcode::ToL1Message => 2,
                LogOpcode::Event => 3,
                LogOpcode::PrecompileCall => 4,
                _ => 0xff,
            } << 8
        }
        Opcode::FarCall(x) => {
            FAR_CALL
                | match x {
                    FarCallOpcode::Normal => 0,
                    FarCallOpcode::Delegate => 1,
                    FarCallOpcode::Mimic => 2,
                    _ => 0xff,
                } << 8
        }
        Opcode::Ret(x) => {
            RET | match x {
                RetOpcode::Ok => 0,
                RetOpcode::Revert => 1,
                RetOpcode::Panic => 2,
                _ => 0xff,
            } << 8
        }
        Opcode::UMA(x) => {
            UMA | match x {
                UMAOpcode::HeapRead => 0,
                UMAOpcode::HeapWrite => 1,
                UMAOpcode::AuxHeapRead => 2,
                UMAOpcode::AuxHeapWrite => 3,
                UMAOpcode::FatPointerRead => 4,
                _ => 0xff,
            } << 8
        }
        _ => 0xffff,
    }
}
#[allow(unreachable_patterns)]
pub fn mode_of(m: &ImmMemHandlerFlags) -> u64 {
    match m {
        ImmMemHandlerFlags::UseRegOnly => M_REG,
        ImmMemHandlerFlags::UseStackWithPushPop => M_PUSHPOP,
        ImmMemHandlerFlags::UseStackWithOffset => M_STACK_OFF,
        ImmMemHandlerFlags::UseAbsoluteOnStack => M_STACK_ABS,
        ImmMemHandlerFlags::UseImm16Only => M_IMM,
        ImmMemHandlerFlags::UseCodePage => M_CODE,
        _ => 0x7f,
    }
}
#[allow(unreachable_patterns)]
pub fn operand_of(o: &Operand) -> u64 {
    match o {
        Operand::RegOnly => K_REG,
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => K_RI_REG,
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => K_RI_IMM,
        Operand::Full(m) => K_FULL + mode_of(m),
        _ => 0xff,
    }
}
pub fn flags_of(f: &[bool]) -> u64 {
    let mut r = 0;
    for (i, &b) in f.iter().enumerate() {
        r |= (b as u64) << i;
    }
    r
}
pub fn code_of(v: &OpcodeVariant) -> u64 {
    op_of(&v.opcode) | operand_of(&v.src0_operand_type) << 16 | operand_of(&v.dst0_operand_type) << 24 | flags_of(&v.flags) << 32
}
#[allow(unreachable_patterns)]
pub fn cond_of(c: Condition) -> u64 {
    match c {
        Condition::Always => 0,
        Condition::Gt => 1,
        Condition::Lt => 2,
        Condition::Eq => 3,
        Condition::Ge => 4,
        Condition::Le => 5,
        Condition::Ne => 6,
        Condition::GtOrLt => 7,
        _ => 0xff,
    }
}

// ---- building the crate's values ------------------------------------------------------------------------
pub const OPS: [Opcode; NUM_SUBS] = [
    Opcode::Invalid(InvalidOpcode),
    Opcode::Nop(NopOpcode),
    Opcode::Add(AddOpcode::Add),
    Opcode::Sub(SubOpcode::Sub),
    Opcode::Mul(MulOpcode),
    Opcode::Div(DivOpcode),
    Opcode::Jump(JumpOpcode),
    Opcode::Binop(BinopOpcode::Xor),
    Opcode::Binop(BinopOpcode::And),
    Opcode::Binop(BinopOpcode::Or),
    Opcode::Shift(ShiftOpcode::Shl),
    Opcode::Shift(ShiftOpcode::Shr),
    Opcode::Shift(ShiftOpcode::Rol),
    Opcode::Shift(ShiftOpcode::Ror),
    Opcode::Ptr(PtrOpcode::Add),
    Opcode::Ptr(PtrOpcode::Sub),
    Opcode::Ptr(PtrOpcode::Pack),
    Opcode::Ptr(PtrOpcode::Shrink),
    Opcode::NearCall(NearCallOpcode),
    Opcode::Context(ContextOpcode::This),
    Opcode::Context(ContextOpcode::Caller),
    Opcode::Context(ContextOpcode::CodeAddress),
    Opcode::Context(ContextOpcode::Meta),
    Opcode::Context(ContextOpcode::ErgsLeft),
    Opcode::Context(ContextOpcode::Sp),
    Opcode::Context(ContextOpcode::GetContextU128),
    Opcode::Context(ContextOpcode::SetContextU128),
    Opcode::Context(ContextOpcode::SetErgsPerPubdataByte),
    Opcode::Context(ContextOpcode::IncrementTxNumber),
    Opcode::Log(LogOpcode::StorageRead),
    Opcode::Log(LogOpcode::StorageWrite),
    Opcode::Log(LogOpcode::ToL1Message),
    Opcode::Log(LogOpcode::Event),
    Opcode::Log(LogOpcode::PrecompileCall),
    Opcode::FarCall(FarCallOpcode::Normal),
    Opcode::FarCall(FarCallOpcode::Delegate),
    Opcode::FarCall(FarCallOpcode::Mimic),
    Opcode::Ret(RetOpcode::Ok),
    Opcode::Ret(RetOpcode::Revert),
    Opcode::Ret(RetOpcode::Panic),
    Opcode::UMA(UMAOpcode::HeapRead),
    Opcode::UMA(UMAOpcode::HeapWrite),
    Opcode::UMA(UMAOpcode::AuxHeapRead),
    Opcode::UMA(UMAOpcode::AuxHeapWrite),
    Opcode::UMA(UMAOpcode::FatPointerRead),
];
pub const NUM_OPERANDS: usize = 9;
pub const OPERANDS: [(Operand, u64); NUM_OPERANDS] = [
    (Operand::RegOnly, K_REG),
    (Operand::RegOrImm(RegOrImmFlags::UseRegOnly), K_RI_REG),
    (Operand::RegOrImm(RegOrImmFlags::UseImm16Only), K_RI_IMM),
    (Operand::Full(ImmMemHandlerFlags::UseRegOnly), K_FULL),
    (Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop), K_FULL + 1),
    (Operand::Full(ImmMemHandlerFlags::UseStackWithOffset), K_FULL + 2),
    (Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack), K_FULL + 3),
    (Operand::Full(ImmMemHandlerFlags::UseImm16Only), K_FULL + 4),
    (Operand::Full(ImmMemHandlerFlags::UseCodePage), K_FULL + 5),
];
pub const CONDITIONS: [Condition; 8] = [
    Condition::Always,
    Condition::Gt,
    Condition::Lt,
    Condition::Eq,
    Condition::Ge,
    Condition::Le,
    Condition::Ne,
    Condition::GtOrLt,
];

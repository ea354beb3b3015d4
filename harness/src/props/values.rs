//! Equality, ordering and hashing of the crate's value types; what instructions look like in print.
use super::encoding::{Mode, P, T};
use crate::spec;
use crate::vp;
use core::cmp::Ordering;
use std::hash::{Hash, Hasher};
use zkevm_opcode_defs::*;

/// Keeps what a value feeds to a hasher, mixed so that any difference shows with certainty or not at all.
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(9) ^ (*x as u64).wrapping_add(0x9e37);
        }
        self.0 = self.0.rotate_left(3) ^ b.len() as u64;
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(11) ^ x.wrapping_add(0x9e37);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
fn hash<X: Hash>(x: &X) -> u64 {
    let mut h = Mix(0);
    x.hash(&mut h);
    h.finish()
}
fn same<const K: usize>(a: &[u64; K], b: &[u64; K]) -> bool {
    let mut d = 0;
    for k in 0..K {
        d |= a[k] ^ b[k];
    }
    d == 0
}
/// Equal means equal in every field, and equal values hash equally.
fn equality<X: PartialEq + Hash + Clone, const K: usize>(any: fn() -> (X, [u64; K])) {
    let (a, ka) = any();
    let (b, kb) = any();
    let e = same(&ka, &kb);
    let r = a == b;
    vp::observe(r as u64);
    vp::eq(r as u64, e as u64, "equal exactly when every field is");
    vp::eq((a != b) as u64, !e as u64, "unequal is not equal");
    vp::eq((b == a) as u64, e as u64, "equality is symmetric");
    vp::check(!e | (hash(&a) == hash(&b)), "equal values hash equally");
    vp::check(a.clone() == a, "a copy equals its original");
}
/// A total order that agrees with equality.
fn order<X: Ord + Hash + Clone, const K: usize>(any: fn() -> (X, [u64; K])) {
    equality(any);
    let (a, ka) = any();
    let (b, kb) = any();
    let o = a.cmp(&b);
    vp::observe(o as i8 as u64);
    vp::eq((o == Ordering::Equal) as u64, same(&ka, &kb) as u64, "neither before nor after exactly when equal");
    vp::check(a.partial_cmp(&b) == Some(o), "the partial order is the total one");
    vp::check(b.cmp(&a) == o.reverse(), "the order is antisymmetric");
    vp::check((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater), "comparison operators follow the order");
    vp::check((a > b) == (o == Ordering::Greater) && (a >= b) == (o != Ordering::Less), "comparison operators follow the order");
    let (c, _) = any();
    if o != Ordering::Greater && b.cmp(&c) != Ordering::Greater {
        vp::check(a.cmp(&c) != Ordering::Greater, "the order is transitive");
    }
}

fn any_operand() -> (Operand, u64) {
    let k = vp::bits(4);
    vp::assume(k < spec::NUM_OPERANDS as u64);
    let (o, _) = spec::OPERANDS[k as usize];
    (o, k)
}
fn any_op() -> (Opcode, u64) {
    let k = vp::bits(6);
    vp::assume(k < spec::NUM_SUBS as u64);
    (spec::OPS[k as usize], k)
}
pub fn order_operand() {
    order(|| {
        let (o, k) = any_operand();
        (o, [k])
    });
}
pub fn order_opcode() {
    order(|| {
        let (o, k) = any_op();
        (o, [k])
    });
}
fn any_variant() -> (OpcodeVariant, [u64; 5]) {
    let (o, k) = any_op();
    let (s, ks) = any_operand();
    let (d, kd) = any_operand();
    let f = [vp::b(), vp::b()];
    let v = OpcodeVariant { opcode: o, src0_operand_type: s, dst0_operand_type: d, flags: f };
    (v, [k, ks, kd, f[0] as u64, f[1] as u64])
}
pub fn equality_variant() {
    equality(any_variant);
}
pub fn order_variant() {
    let (a, ka) = any_variant();
    let (b, kb) = any_variant();
    let o = a.cmp(&b);
    vp::observe(o as i8 as u64);
    vp::eq((o == Ordering::Equal) as u64, same(&ka, &kb) as u64, "neither before nor after exactly when equal");
    vp::check(a.partial_cmp(&b) == Some(o), "the partial order is the total one");
    vp::check(b.cmp(&a) == o.reverse(), "the order is antisymmetric");
}
/// Transitivity among the forms of any three instructions that are listed.
pub fn order_listed() {
    let any = || OPCODES_TABLE[vp::bits(11) as usize];
    let (a, b, c) = (any(), any(), any());
    if a <= b && b <= c {
        vp::check(a <= c, "the order is transitive");
    }
}
pub fn order_small() {
    order(|| {
        let v = vp::u8();
        (ISAVersion(v), [v as u64])
    });
    let (v, w) = (vp::u8(), vp::u8());
    vp::eq((ISAVersion(v) < ISAVersion(w)) as u64, (v < w) as u64, "versions are ordered by number");
    vp::eq(ISAVersion(v).as_index() as u64, v as u64, "a version's index is its number");
    order(|| {
        let k = vp::bits(3);
        (spec::CONDITIONS[k as usize], [k])
    });
    order(|| {
        let d = OpcodeVariantData {
            variant_idx: vp::u64() as usize,
            num_non_exclusive_flags: vp::u64() as usize,
            num_used_immediates: vp::u64() as usize,
        };
        (d, [d.variant_idx as u64, d.num_non_exclusive_flags as u64, d.num_used_immediates as u64])
    });
}
fn any_pointer() -> (FatPointer, [u64; 4]) {
    let p = FatPointer { offset: vp::u32(), memory_page: vp::u32(), start: vp::u32(), length: vp::u32() };
    (p, [p.offset as u64, p.memory_page as u64, p.start as u64, p.length as u64])
}
pub fn order_pointer() {
    order(any_pointer);
}
const FAR: [FarCallForwardPageType; 3] =
    [FarCallForwardPageType::UseHeap, FarCallForwardPageType::ForwardFatPointer, FarCallForwardPageType::UseAuxHeap];
const RET: [RetForwardPageType; 3] =
    [RetForwardPageType::UseHeap, RetForwardPageType::ForwardFatPointer, RetForwardPageType::UseAuxHeap];
fn any_far_call() -> (FarCallABI, [u64; 9]) {
    let (p, k) = any_pointer();
    let m = vp::bits(2);
    vp::assume(m < 3);
    let a = FarCallABI {
        memory_quasi_fat_pointer: p,
        ergs_passed: vp::u32(),
        shard_id: vp::u8(),
        forwarding_mode: FAR[m as usize],
        constructor_call: vp::b(),
        to_system: vp::b(),
    };
    (a, [k[0], k[1], k[2], k[3], a.ergs_passed as u64, a.shard_id as u64, m, a.constructor_call as u64, a.to_system as u64])
}
pub fn order_far_call() {
    order(any_far_call);
}
pub fn order_calls() {
    order(|| {
        let (p, k) = any_pointer();
        let m = vp::bits(2);
        vp::assume(m < 3);
        (RetABI { memory_quasi_fat_pointer: p, page_forwarding_mode: RET[m as usize] }, [k[0], k[1], k[2], k[3], m])
    });
    order(|| {
        let e = vp::u32();
        (NearCallABI { ergs_passed: e }, [e as u64])
    });
}
pub fn order_meta() {
    order(|| {
        let m = VmMetaParameters {
            ergs_per_pubdata_byte: vp::u32(),
            heap_size: vp::u32(),
            aux_heap_size: vp::u32(),
            this_shard_id: vp::u8(),
            caller_shard_id: vp::u8(),
            code_shard_id: vp::u8(),
        };
        let b = [m.this_shard_id as u64, m.caller_shard_id as u64, m.code_shard_id as u64];
        (m, [m.ergs_per_pubdata_byte as u64, m.heap_size as u64, m.aux_heap_size as u64, b[0], b[1], b[2]])
    });
}
pub fn order_precompile() {
    order(|| {
        let p = PrecompileCallInnerABI {
            input_memory_offset: vp::u32(),
            input_memory_length: vp::u32(),
            output_memory_offset: vp::u32(),
            output_memory_length: vp::u32(),
            memory_page_to_read: vp::u32(),
            memory_page_to_write: vp::u32(),
            precompile_interpreted_data: vp::u64(),
        };
        let (a, b) = (p.input_memory_offset as u64, p.input_memory_length as u64);
        let (c, d) = (p.output_memory_offset as u64, p.output_memory_length as u64);
        (p, [a, b, c, d, p.memory_page_to_read as u64, p.memory_page_to_write as u64, p.precompile_interpreted_data])
    });
}
pub fn equality_hash() {
    equality(|| {
        let mut w = [0u8; 32];
        let mut k = [0u64; 32];
        for i in 1..32 {
            w[i] = vp::u8();
            k[i] = w[i] as u64;
        }
        w[0] = 1;
        (VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(w).unwrap(), k)
    });
}

// ---- print --------------------------------------------------------------------------------------------------
/// The number, in the given base, that follows the label.
fn after(text: &str, label: &str, base: u64) -> Option<u64> {
    let mut s = text.find(label)? + label.len();
    let b = text.as_bytes();
    while s < b.len() && b[s] == b' ' {
        s += 1;
    }
    if base == 16 {
        s += 2;
    }
    let (mut r, mut n) = (0u64, 0);
    while s < b.len() {
        let c = b[s];
        let d = if c.is_ascii_digit() {
            c - b'0'
        } else if base == 16 && (b'a'..=b'f').contains(&c) {
            c - b'a' + 10
        } else {
            break;
        };
        r = r.wrapping_mul(base).wrapping_add(d as u64);
        n += 1;
        s += 1;
    }
    if n == 0 {
        None
    } else {
        Some(r)
    }
}
fn printed<const N: usize, M: Mode<N>>(which: u64) {
    let mut d = DecodedOpcode::<N, M>::default();
    d.variant = spec_add();
    d.condition = spec::CONDITIONS[if which == 0 { vp::fork(vp::bits(3)) } else { 5 } as usize];
    if which == 0 {
        d.src0_reg_idx = vp::bits(4) as u8;
        d.src1_reg_idx = vp::bits(4) as u8;
        d.dst0_reg_idx = vp::bits(4) as u8;
        d.dst1_reg_idx = vp::bits(4) as u8;
    } else if which == 1 {
        d.imm_0 = M::any_imm();
    } else {
        d.imm_1 = M::any_imm();
    }
    let text = d.to_string();
    vp::observe(text.len() as u64);
    let r = [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx];
    for (k, l) in ["src0 = r", "src1 = r", "dst0 = r", "dst1 = r"].iter().enumerate() {
        vp::check(after(&text, l, 10) == Some(r[k] as u64), "each register is printed in decimal under its name");
    }
    vp::check(after(&text, "IMM0 constant:", 16) == Some(M::imm_int(d.imm_0)), "the first immediate is printed in hex");
    vp::check(after(&text, "IMM1 constant:", 16) == Some(M::imm_int(d.imm_1)), "the second immediate is printed in hex");
    let c = format!("Condition: {:?}\n", d.condition);
    vp::check(text.contains(&c), "the condition is printed by name");
    vp::check(text.starts_with(&d.variant.to_string()), "the instruction is printed first");
}
/// Every listed instruction prints differently, with its flags.
pub fn printed_variants() {
    let t: Vec<String> = OPCODES_TABLE.iter().map(|v| v.to_string()).collect();
    let mut sorted: Vec<usize> = (0..t.len()).collect();
    sorted.sort_by(|a, b| t[*a].cmp(&t[*b]));
    // rank among the different texts, and the lowest number that prints so
    let (mut rank, mut first) = (vec![0u64; t.len()], vec![0u64; t.len()]);
    let mut r = 0;
    for (k, &n) in sorted.iter().enumerate() {
        if k == 0 || t[sorted[k - 1]] != t[n] {
            r += 1;
            first[r as usize - 1] = n as u64;
        }
        rank[n] = r - 1;
    }
    let n = vp::bits(11);
    let listed = spec::table(1)[n as usize] != spec::INVALID_CODE;
    let k = first[rank[n as usize] as usize];
    vp::observe(k);
    vp::check(!listed | (k == n), "different instructions print differently");
    vp::check(listed | (k == 0), "unlisted numbers print as the invalid instruction");
    let shown: Vec<u64> = t.iter().map(|x| {
        let f = x.rsplit(' ').next().unwrap_or("");
        let mut p = f.split('|').map(|y| y == "true");
        p.next().map_or(0, |y| y as u64) | p.next().map_or(0, |y| (y as u64) << 1)
    }).collect();
    vp::eq(shown[n as usize], spec::fl(spec::table(1)[n as usize]), "the flags are printed in order");
}
fn spec_add() -> OpcodeVariant {
    OPCODES_TABLE[2]
}
pub fn printed_prod_regs() {
    printed::<8, P>(0)
}
pub fn printed_prod_imm0() {
    printed::<8, P>(1)
}
pub fn printed_prod_imm1() {
    printed::<8, P>(2)
}
pub fn printed_test_imm0() {
    printed::<16, T>(1)
}
pub fn printed_test_imm1() {
    printed::<16, T>(2)
}

//! Register ABIs, pointers, hashes, conditions, small helpers, system parameters.
use crate::spec;
use crate::vp;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::{Address, U256};
use zkevm_opcode_defs::*;

fn any_u256() -> U256 {
    U256([vp::u64(), vp::u64(), vp::u64(), vp::u64()])
}
/// bits lo..lo+n of a 256-bit value, n <= 64, not straddling a limb boundary
fn f(v: &U256, lo: usize, n: usize) -> u64 {
    let x = v.0[lo / 64] >> (lo % 64);
    if n == 64 {
        x
    } else {
        x & ((1 << n) - 1)
    }
}
fn byte(v: &U256, k: usize) -> u64 {
    f(v, 8 * k, 8)
}
fn check_pointer(p: &FatPointer, v: &U256) {
    vp::eq(p.offset as u64, f(v, 0, 32), "offset is bits 0-31");
    vp::eq(p.memory_page as u64, f(v, 32, 32), "memory page is bits 32-63");
    vp::eq(p.start as u64, f(v, 64, 32), "start is bits 64-95");
    vp::eq(p.length as u64, f(v, 96, 32), "length is bits 96-127");
}
fn any_pointer() -> FatPointer {
    FatPointer { offset: vp::u32(), memory_page: vp::u32(), start: vp::u32(), length: vp::u32() }
}

pub fn pointer_unpack() {
    let v = any_u256();
    let p = FatPointer::from_u256(v);
    vp::observe(p.offset as u64 | (p.memory_page as u64) << 32);
    vp::observe(p.start as u64 | (p.length as u64) << 32);
    check_pointer(&p, &v);
    let w = p.to_u256();
    vp::eq(w.0[0], v.0[0], "repacking keeps bits 0-63");
    vp::eq(w.0[1], v.0[1], "repacking keeps bits 64-127");
    vp::eq(w.0[2] | w.0[3], 0, "the upper half of a packed pointer is zero");
    vp::eq(FatPointer::FAT_POINTER_PACKED_WIDTH as u64, 128, "packed width");
}
pub fn pointer_pack() {
    let p = any_pointer();
    let v = p.to_u256();
    for k in 0..4 {
        vp::observe(v.0[k]);
    }
    check_pointer(&p, &v);
    vp::eq(v.0[2] | v.0[3], 0, "the upper half of a packed pointer is zero");
    let q = FatPointer::from_u256(v);
    vp::check(q == p, "unpacking a packed pointer gives it back");
    let e = FatPointer::empty();
    vp::check(e.offset == 0 && e.memory_page == 0 && e.start == 0 && e.length == 0, "the empty pointer is all zero");
}
pub fn pointer_validate() {
    let p = any_pointer();
    let fresh = vp::b();
    let r = p.validate(fresh);
    vp::observe(r.bits());
    let off = fresh & (p.offset != 0);
    let over = p.start as u64 + p.length as u64 > u32::MAX as u64;
    vp::eq(
        r.contains(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED) as u64,
        off as u64,
        "non-zero offset is reported exactly for fresh pointers with one",
    );
    vp::eq(
        r.contains(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE) as u64,
        over as u64,
        "overflow is reported exactly when start + length does not fit 32 bits",
    );
    vp::eq(r.is_empty() as u64, !(off | over) as u64, "nothing else is reported");
    vp::eq(r.bits(), off as u64 | (over as u64) << 1, "exception bits");
}
pub fn pointer_bounds() {
    let p = any_pointer();
    let inb = p.validate_in_bounds();
    let sl = p.validate_as_slice();
    let tr = p.is_trivial();
    vp::observe(inb as u64 | (sl as u64) << 1 | (tr as u64) << 2);
    vp::eq(inb as u64, (p.offset < p.length) as u64, "in bounds means offset < length");
    vp::eq(sl as u64, (p.offset <= p.length) as u64, "a slice may also be empty: offset <= length");
    vp::eq(tr as u64, (p.offset == 0 && p.length == 0) as u64, "trivial means length and offset zero");
}
/// What validation is for: a validated fresh pointer never addresses outside 32 bits.
pub fn pointer_safety() {
    let p = any_pointer();
    let r = p.validate(true);
    vp::assume(r.is_empty());
    vp::eq(p.offset as u64, 0, "a valid fresh pointer starts at offset zero");
    vp::eq((p.start as u64 + p.length as u64) >> 32, 0, "a valid pointer ends within 32 bits");
    vp::check(p.validate_as_slice(), "a valid fresh pointer is a slice");
    let mut q = p;
    q.offset = vp::u32();
    vp::assume(q.validate(false).is_empty() && q.validate_in_bounds());
    let abs = q.start as u64 + q.offset as u64;
    vp::check(abs < p.start as u64 + p.length as u64, "an in-bounds offset addresses inside the slice");
    vp::check(abs < 1 << 32, "an in-bounds offset addresses within 32 bits");
}

fn far_mode(m: FarCallForwardPageType) -> u64 {
    match m {
        FarCallForwardPageType::UseHeap => 0,
        FarCallForwardPageType::ForwardFatPointer => 1,
        FarCallForwardPageType::UseAuxHeap => 2,
    }
}
fn ret_mode(m: RetForwardPageType) -> u64 {
    match m {
        RetForwardPageType::UseHeap => 0,
        RetForwardPageType::ForwardFatPointer => 1,
        RetForwardPageType::UseAuxHeap => 2,
    }
}
fn want_mode(b: u64) -> u64 {
    if b < 3 {
        b
    } else {
        0
    }
}
pub fn far_call() {
    let v = any_u256();
    let a = FarCallABI::from_u256(v);
    vp::observe(a.ergs_passed as u64 | (a.shard_id as u64) << 32 | far_mode(a.forwarding_mode) << 40);
    vp::observe(a.constructor_call as u64 | (a.to_system as u64) << 1);
    check_pointer(&a.memory_quasi_fat_pointer, &v);
    vp::eq(a.ergs_passed as u64, f(&v, 192, 32), "ergs are bits 192-223");
    vp::eq(far_mode(a.forwarding_mode), want_mode(byte(&v, 28)), "forwarding mode is byte 28, heap if unknown");
    vp::eq(a.shard_id as u64, byte(&v, 29), "shard is byte 29");
    vp::eq(a.constructor_call as u64, (byte(&v, 30) != 0) as u64, "constructor call is byte 30 non-zero");
    vp::eq(a.to_system as u64, (byte(&v, 31) != 0) as u64, "system call is byte 31 non-zero");
    vp::eq(FAR_CALL_FORWARDING_MODE_BYTE_IDX as u64, 28, "forwarding mode byte index");
    vp::eq(FAR_CALL_SHARD_ID_BYTE_IDX as u64, 29, "shard byte index");
    vp::eq(FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX as u64, 30, "constructor byte index");
    vp::eq(FAR_CALL_SYSTEM_CALL_BYTE_IDX as u64, 31, "system byte index");
}
pub fn ret() {
    let v = any_u256();
    let a = RetABI::from_u256(v);
    vp::observe(ret_mode(a.page_forwarding_mode));
    check_pointer(&a.memory_quasi_fat_pointer, &v);
    vp::eq(ret_mode(a.page_forwarding_mode), want_mode(byte(&v, 28)), "ret forwarding mode is byte 28, heap if unknown");
    vp::eq(RET_FORWARDING_MODE_BYTE_IDX as u64, 28, "ret forwarding mode byte index");
}
pub fn forward_modes() {
    let b = vp::u8();
    let x = far_mode(FarCallForwardPageType::from_u8(b));
    let y = ret_mode(RetForwardPageType::from_u8(b));
    vp::observe(x | y << 8);
    vp::eq(x, want_mode(b as u64), "far call forwarding mode of any byte");
    vp::eq(y, want_mode(b as u64), "ret forwarding mode of any byte");
    let k = vp::bits(2);
    vp::assume(k < 3);
    vp::eq(FarCallForwardPageType::from_u8(k as u8) as u8 as u64, k, "far call mode bytes round trip");
    vp::eq(RetForwardPageType::from_u8(k as u8) as u8 as u64, k, "ret mode bytes round trip");
}
pub fn near_call() {
    let v = any_u256();
    let a = NearCallABI::from_u256(v);
    vp::observe(a.ergs_passed as u64);
    vp::eq(a.ergs_passed as u64, f(&v, 0, 32), "near call ergs are bits 0-31");
}
pub fn precompile() {
    let v = any_u256();
    let a = PrecompileCallABI::from_u256(v);
    vp::observe(a.per_precompile_interpreted);
    vp::eq(a.input_memory_offset as u64, f(&v, 0, 32), "input offset is bits 0-31");
    vp::eq(a.input_memory_length as u64, f(&v, 32, 32), "input length is bits 32-63");
    vp::eq(a.output_memory_offset as u64, f(&v, 64, 32), "output offset is bits 64-95");
    vp::eq(a.output_memory_length as u64, f(&v, 96, 32), "output length is bits 96-127");
    vp::eq(a.per_precompile_interpreted, f(&v, 192, 64), "precompile data is bits 192-255");
}
fn check_inner(a: &PrecompileCallInnerABI, v: &U256) {
    vp::eq(a.input_memory_offset as u64, f(v, 0, 32), "inner: input offset is bits 0-31");
    vp::eq(a.input_memory_length as u64, f(v, 32, 32), "inner: input length is bits 32-63");
    vp::eq(a.output_memory_offset as u64, f(v, 64, 32), "inner: output offset is bits 64-95");
    vp::eq(a.output_memory_length as u64, f(v, 96, 32), "inner: output length is bits 96-127");
    vp::eq(a.memory_page_to_read as u64, f(v, 128, 32), "inner: page to read is bits 128-159");
    vp::eq(a.memory_page_to_write as u64, f(v, 160, 32), "inner: page to write is bits 160-191");
    vp::eq(a.precompile_interpreted_data, f(v, 192, 64), "inner: precompile data is bits 192-255");
}
pub fn precompile_inner() {
    let v = any_u256();
    let a = PrecompileCallInnerABI::from_u256(v);
    check_inner(&a, &v);
    let w = a.to_u256();
    for k in 0..4 {
        vp::observe(w.0[k]);
        vp::eq(w.0[k], v.0[k], "unpacking and packing the inner ABI is the identity");
    }
    let b = PrecompileCallInnerABI {
        input_memory_offset: vp::u32(),
        input_memory_length: vp::u32(),
        output_memory_offset: vp::u32(),
        output_memory_length: vp::u32(),
        memory_page_to_read: vp::u32(),
        memory_page_to_write: vp::u32(),
        precompile_interpreted_data: vp::u64(),
    };
    let w = b.to_u256();
    check_inner(&b, &w);
    vp::check(PrecompileCallInnerABI::from_u256(w) == b, "packing and unpacking the inner ABI is the identity");
    // the VM-level ABI sees the same fields
    let o = PrecompileCallABI::from_u256(w);
    vp::eq(o.input_memory_offset as u64, b.input_memory_offset as u64, "both ABIs agree on the input offset");
    vp::eq(o.output_memory_length as u64, b.output_memory_length as u64, "both ABIs agree on the output length");
    vp::eq(o.per_precompile_interpreted, b.precompile_interpreted_data, "both ABIs agree on the precompile data");
}
pub fn meta() {
    let m = VmMetaParameters {
        ergs_per_pubdata_byte: vp::u32(),
        heap_size: vp::u32(),
        aux_heap_size: vp::u32(),
        this_shard_id: vp::u8(),
        caller_shard_id: vp::u8(),
        code_shard_id: vp::u8(),
    };
    let v = m.to_u256();
    for k in 0..4 {
        vp::observe(v.0[k]);
    }
    vp::eq(f(&v, 0, 32), m.ergs_per_pubdata_byte as u64, "ergs per pubdata byte is bits 0-31");
    vp::eq(f(&v, 32, 32), 0, "bits 32-63 are zero");
    vp::eq(f(&v, 64, 32), m.heap_size as u64, "heap size is bits 64-95");
    vp::eq(f(&v, 96, 32), m.aux_heap_size as u64, "aux heap size is bits 96-127");
    vp::eq(f(&v, 128, 64), 0, "bits 128-191 are zero");
    vp::eq(f(&v, 192, 32), 0, "bits 192-223 are zero");
    vp::eq(byte(&v, 28), m.this_shard_id as u64, "this shard is byte 28");
    vp::eq(byte(&v, 29), m.caller_shard_id as u64, "caller shard is byte 29");
    vp::eq(byte(&v, 30), m.code_shard_id as u64, "code shard is byte 30");
    vp::eq(byte(&v, 31), 0, "byte 31 is zero");
}

// ---- versioned hashes -------------------------------------------------------------------------------------
type VH = VersionedHashGeneric<ContractCodeSha256>;
fn any_bytes<const N: usize>() -> [u8; N] {
    let mut r = [0u8; N];
    for x in r.iter_mut() {
        *x = vp::u8();
    }
    r
}
fn observe_bytes(b: &[u8]) {
    for c in b.chunks(8) {
        vp::observe(c.iter().fold(0u64, |a, x| a << 8 | *x as u64));
    }
}
fn eq_bytes(a: &[u8], b: &[u8], m: &'static str) {
    vp::check(a.len() == b.len(), m);
    for (x, y) in a.chunks(8).zip(b.chunks(8)) {
        vp::eq(x.iter().fold(0u64, |a, x| a << 8 | *x as u64), y.iter().fold(0u64, |a, x| a << 8 | *x as u64), m);
    }
}
pub fn hash_parse() {
    let raw: [u8; 32] = any_bytes();
    let h = VH::try_create_from_raw(raw);
    vp::observe(h.is_some() as u64);
    vp::eq(h.is_some() as u64, (raw[0] == 1) as u64, "parsed exactly if the version byte is 1");
    if let Some(h) = h {
        let l = h.layout_ref();
        vp::eq(l.extra_marker as u64, raw[1] as u64, "marker is byte 1");
        vp::eq(l.code_length_in_words as u64, (raw[2] as u64) << 8 | raw[3] as u64, "length is bytes 2-3, big-endian");
        eq_bytes(&l.partial_hash, &raw[4..], "digest is bytes 4-31");
        match h.serialize() {
            Some(s) => eq_bytes(&s, &raw, "serializing gives the bytes back"),
            None => vp::check(false, "a parsed hash serializes"),
        }
        match h.serialize_to_stored() {
            Some(s) => {
                let mut w = raw;
                w[1] = 0;
                observe_bytes(&s);
                eq_bytes(&s, &w, "the stored form only clears the marker");
            }
            None => vp::check(false, "a parsed hash has a stored form"),
        }
    }
}
pub fn hash_build() {
    let digest: [u8; 32] = any_bytes();
    let n = vp::u16();
    let h = VH::from_digest_and_preimage_num_words(digest, n);
    let l = h.layout_ref();
    vp::eq(l.extra_marker as u64, 0, "built as code at rest");
    vp::eq(l.code_length_in_words as u64, n as u64, "built with the given length");
    eq_bytes(&l.partial_hash, &digest[4..], "built from the last 28 digest bytes");
    let mut w = digest;
    w[0] = 1;
    w[1] = 0;
    w[2] = (n >> 8) as u8;
    w[3] = n as u8;
    let s = h.serialize().unwrap();
    observe_bytes(&s);
    eq_bytes(&s, &w, "serialized: version, marker, length, digest");
    eq_bytes(&h.serialize_to_stored().unwrap(), &w, "stored form of code at rest is the same");
    match VH::try_create_from_raw(s) {
        Some(g) => vp::check(g == h, "parsing the serialized hash gives it back"),
        None => vp::check(false, "the serialized hash parses"),
    }
    vp::eq(ContractCodeSha256::VERSION_BYTE as u64, 1, "version byte");
    vp::eq(ContractCodeSha256::CODE_AT_REST_MARKER as u64, 0, "at-rest marker");
    vp::eq(ContractCodeSha256::YET_CONSTRUCTED_MARKER as u64, 1, "constructor marker");
}
pub fn hash_storage() {
    let st = ContractCodeSha256Storage { code_length_in_words: vp::u16(), extra_marker: vp::u8(), partial_hash: any_bytes() };
    let s = ContractCodeSha256::serialize(st).unwrap();
    observe_bytes(&s);
    vp::eq(s[0] as u64, 1, "layout: version byte first");
    vp::eq(s[1] as u64, st.extra_marker as u64, "layout: then the marker");
    vp::eq((s[2] as u64) << 8 | s[3] as u64, st.code_length_in_words as u64, "layout: then the length");
    eq_bytes(&s[4..], &st.partial_hash, "layout: then the digest");
    match ContractCodeSha256::try_deserialize(s) {
        Some(x) => vp::check(x == st, "layout round trip"),
        None => vp::check(false, "layout parses"),
    }
    let t = ContractCodeSha256::serialize_to_stored(st).unwrap();
    vp::eq(t[1] as u64, 0, "stored layout has no marker");
    let mut u = s;
    u[1] = 0;
    eq_bytes(&t, &u, "stored layout differs only in the marker");
}
fn code_hash<const N: usize, E: VmEncodingMode<N>>(max: u64, words: usize, default_fn: bool) {
    let digest: [u8; 32] = any_bytes();
    let code: Vec<[u8; 32]> = (0..words)
        .map(|_| {
            let mut w = [0u8; 32];
            for k in 0..4 {
                w[8 * k..8 * k + 8].copy_from_slice(&vp::u64().to_be_bytes());
            }
            w
        })
        .collect();
    sha2::vp_set_digest(digest);
    let r = if default_fn { bytecode_to_code_hash(&code) } else { bytecode_to_code_hash_for_mode::<N, E>(&code) };
    let log = sha2::vp_take_log();
    let ok = words % 2 == 1 && words as u64 <= max;
    vp::eq(r.is_ok() as u64, ok as u64, "a bytecode hashes exactly if its length is odd and within the limit");
    if let Ok(h) = r {
        observe_bytes(&h);
        let mut w = digest;
        w[0] = 1;
        w[1] = 0;
        w[2] = (words >> 8) as u8;
        w[3] = words as u8;
        eq_bytes(&h, &w, "code hash: version, marker, length in words, last 28 bytes of the digest");
        vp::check(!log.is_empty(), "the code is hashed");
        let mut flat = Vec::new();
        for c in &code {
            flat.extend_from_slice(c);
        }
        for l in &log {
            eq_bytes(l, &flat, "what is hashed is the words in order, nothing else");
        }
    }
}
pub fn code_hash_short() {
    let n = vp::fork(vp::bits(4));
    code_hash::<8, EncodingModeProduction>(0xffff, n as usize, true)
}
pub fn code_hash_short_mode() {
    let n = vp::fork(vp::bits(4));
    code_hash::<8, EncodingModeProduction>(0xffff, n as usize, false)
}
pub fn code_hash_short_testing() {
    let n = vp::fork(vp::bits(4));
    code_hash::<16, EncodingModeTesting>(0xffff_ffff, n as usize, false)
}
/// Longer code: contents fixed by position, any length.
fn code_hash_fixed<const N: usize, E: VmEncodingMode<N>>(words: usize, default_fn: bool) {
    let digest: [u8; 32] = any_bytes();
    let mut flat = vec![0u8; 32 * words];
    for (k, x) in flat.chunks_mut(8).enumerate() {
        x.copy_from_slice(&(k as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15).to_be_bytes());
    }
    let code: Vec<[u8; 32]> = flat.chunks(32).map(|c| c.try_into().unwrap()).collect();
    sha2::vp_set_digest(digest);
    let r = if default_fn { bytecode_to_code_hash(&code) } else { bytecode_to_code_hash_for_mode::<N, E>(&code) };
    let log = sha2::vp_take_log();
    vp::eq(r.is_ok() as u64, (words % 2) as u64, "a bytecode hashes exactly if its length is odd");
    if let Ok(h) = r {
        observe_bytes(&h);
        let mut w = digest;
        w[0] = 1;
        w[1] = 0;
        w[2] = (words >> 8) as u8;
        w[3] = words as u8;
        eq_bytes(&h, &w, "code hash: version, marker, length in words, last 28 bytes of the digest");
        vp::check(!log.is_empty(), "the code is hashed");
        for l in &log {
            vp::check(*l == flat, "what is hashed is the words in order, nothing else");
        }
    }
}
pub fn code_hash_long() {
    let n = vp::bits(10);
    vp::assume(n <= 600);
    code_hash_fixed::<8, EncodingModeProduction>(vp::fork(n) as usize, true)
}
pub fn code_hash_longest() {
    const L: [usize; 8] = [1023, 1025, 4095, 32767, 32769, 40961, 65533, 65535];
    let n = vp::fork(vp::bits(3)) as usize;
    match vp::fork(vp::bits(1)) {
        0 => code_hash_fixed::<8, EncodingModeProduction>(L[n], false),
        _ => code_hash_fixed::<16, EncodingModeTesting>(L[n], false),
    }
}
/// Any length: only the length decides refusal. The content is not read before the length checks, so a
/// slice over one shared zero page stands for every content of the refused lengths.
pub fn code_hash_refused() {
    let n = vp::u64();
    vp::assume(n <= 70_000 && (n % 2 == 0 || n > 65535));
    // zero-filled backing store large enough for the longest slice
    let code: &'static [[u8; 32]] = Box::leak(vec![[0u8; 32]; 70_000].into_boxed_slice());
    let s = &code[..n as usize];
    let r = bytecode_to_code_hash(s);
    vp::observe(r.is_err() as u64);
    vp::eq(r.is_err() as u64, 1, "even or too long bytecode is refused");
    let r = bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(s);
    vp::eq(r.is_err() as u64, 1, "even or too long bytecode is refused for the mode, too");
    if n % 2 == 0 {
        let r = bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(s);
        vp::eq(r.is_err() as u64, 1, "even bytecode is refused in testing mode");
    }
}

// ---- conditions and helpers -------------------------------------------------------------------------------
pub fn conditions() {
    let k = vp::bits(3);
    let c = Condition::materialize_variant(k as usize);
    vp::observe(spec::cond_of(c));
    vp::eq(spec::cond_of(c), k, "condition codes stand for their conditions");
    vp::eq(c.variant_index() as u64, k, "condition code round trip");
    vp::eq(spec::cond_of(ALL_CONDITIONS[k as usize]), k, "all conditions are listed in order");
    vp::check(Condition::materialize_variant(spec::CONDITIONS[k as usize].variant_index()) == spec::CONDITIONS[k as usize], "condition to code and back");
    vp::eq(CONDITIONAL_BITS_WIDTH as u64, 3, "condition width");
    vp::eq(CONDITIONAL_BITS_SHIFT as u64, 13, "condition position");
}
pub fn conditions_range() {
    let k = vp::u64();
    vp::assume(k >= 8);
    vp::must_panic("a code of 8 or more is no condition", || Condition::materialize_variant(k as usize));
}
pub fn nibbles() {
    let x = vp::u8();
    let (lo, hi) = split_as_u4(x);
    vp::observe(lo as u64 | (hi as u64) << 8);
    vp::eq(lo as u64, x as u64 & 15, "low nibble first");
    vp::eq(hi as u64, x as u64 >> 4, "high nibble second");
    vp::eq(merge_u4(lo, hi) as u64, x as u64, "splitting and merging nibbles is the identity");
    let (a, b) = (vp::bits(4) as u8, vp::bits(4) as u8);
    let m = merge_u4(a, b);
    vp::eq(m as u64, a as u64 | (b as u64) << 4, "merged nibbles");
    let (c, d) = split_as_u4(m);
    vp::check(c == a && d == b, "merging and splitting nibbles is the identity");
}
pub fn pc_helpers() {
    let (x, a, b) = (vp::u64(), vp::u16(), vp::u16());
    let c = <u16 as AllowedPcOrImm>::from_u64_clipped(x);
    vp::observe(c as u64);
    vp::eq(c as u64, x & 0xffff, "u16 clip keeps the low bits");
    vp::eq(AllowedPcOrImm::as_u64(a), a as u64, "u16 widens unsigned");
    vp::eq(AllowedPcOrImm::wrapping_add(a, b) as u64, (a as u64 + b as u64) & 0xffff, "u16 addition wraps");
    vp::eq(AllowedPcOrImm::wrapping_sub(a, b) as u64, (a as u64 + 0x10000 - b as u64) & 0xffff, "u16 subtraction wraps");
    vp::eq(<u16 as AllowedPcOrImm>::max() as u64, 0xffff, "u16 maximum");
    let (a, b) = (vp::u32(), vp::u32());
    let c = <u32 as AllowedPcOrImm>::from_u64_clipped(x);
    vp::observe(c as u64);
    vp::eq(c as u64, x & 0xffff_ffff, "u32 clip keeps the low bits");
    vp::eq(AllowedPcOrImm::as_u64(a), a as u64, "u32 widens unsigned");
    vp::eq(AllowedPcOrImm::wrapping_add(a, b) as u64, (a as u64 + b as u64) & 0xffff_ffff, "u32 addition wraps");
    vp::eq(AllowedPcOrImm::wrapping_sub(a, b) as u64, (a as u64 + (1 << 32) - b as u64) & 0xffff_ffff, "u32 subtraction wraps");
    vp::eq(<u32 as AllowedPcOrImm>::max() as u64, 0xffff_ffff, "u32 maximum");
}
pub fn int_bytes() {
    let x = vp::u64();
    let b = AllowedIntegerRepresentation::<8>::encode_as_bytes(x);
    vp::eq(b.iter().fold(0u64, |a, k| a << 8 | *k as u64), x, "u64 as big-endian bytes");
    let x = vp::u128();
    let b = AllowedIntegerRepresentation::<16>::encode_as_bytes(x);
    let y = b.iter().fold(0u128, |a, k| a << 8 | *k as u128);
    vp::observe128(y);
    vp::eq(y as u64, x as u64, "u128 as big-endian bytes");
    vp::eq((y >> 64) as u64, (x >> 64) as u64, "u128 as big-endian bytes, upper half");
    let n = vp::u64();
    vp::eq(VariantMonotonicNumber::from_usize(n as usize).into_usize() as u64, n, "opcode number wrapper");
}

// ---- memory limits, pages, registers, addresses --------------------------------------------------------------
pub fn deref_limit() {
    let v = any_u256();
    let too_far = v > MAX_OFFSET_TO_DEREF;
    vp::observe(too_far as u64);
    let small = (v.0[1] | v.0[2] | v.0[3]) == 0 && v.0[0] < 1 << 32;
    vp::eq(!too_far as u64, (small && v.0[0] + 32 < 1 << 32) as u64, "an offset is allowed exactly if the 32 bytes read end below 2^32 without overflow");
    vp::eq(MAX_OFFSET_TO_DEREF_LOW_U32 as u64, (1 << 32) - 33, "deref limit as u32");
    let c = v < MAX_OFFSET_FOR_ADD_SUB;
    vp::eq(c as u64, small as u64, "an increment is allowed exactly if it fits 32 bits");
}
pub fn pages() {
    let kinds = [BOOTLOADER_CODE_PAGE, BOOTLOADER_STACK_PAGE, BOOTLOADER_HEAP_PAGE, BOOTLOADER_AUX_HEAP_PAGE];
    let off = |k: usize| (kinds[k] - BOOTLOADER_BASE_PAGE) as u64;
    // frames i and j, page kinds a and b
    let (i, j) = (vp::bits(28), vp::bits(28));
    let (a, b) = (vp::bits(2) as usize, vp::bits(2) as usize);
    let base = |n: u64| STARTING_BASE_PAGE as u64 + n * NEW_MEMORY_PAGES_PER_FAR_CALL as u64;
    let (p, q) = (base(i) + off(a), base(j) + off(b));
    vp::observe(p);
    vp::eq((p == q) as u64, (i == j && a == b) as u64, "pages of different frames or kinds differ");
    vp::check(p != UNMAPPED_PAGE as u64 && p > kinds[b] as u64 && p > BOOTLOADER_CALLDATA_PAGE as u64, "frame pages are beyond the bootloader's");
    vp::eq((kinds[a] == kinds[b]) as u64, (a == b) as u64, "bootloader pages are distinct");
    vp::check(kinds[a] != BOOTLOADER_CALLDATA_PAGE && kinds[a] != UNMAPPED_PAGE && BOOTLOADER_CALLDATA_PAGE != UNMAPPED_PAGE, "bootloader pages differ from calldata and unmapped");
    vp::eq(kinds[a] as u64, 8 + a as u64, "bootloader page numbers");
    vp::eq(BOOTLOADER_BASE_PAGE as u64, 8, "bootloader base page");
    vp::eq(UNMAPPED_PAGE as u64, 0, "unmapped page");
    vp::eq(MAX_PENDING_CYCLES as u64, 1, "pending cycles");
    vp::eq(system_params::NUM_SPONGES as u64, 4, "sponges");
    vp::eq(system_params::BOOTLOADER_MAX_MEMORY as u64, u32::MAX as u64, "bootloader memory");
    vp::eq(system_params::INITIAL_FRAME_SUCCESSFUL_EXIT_PC as u64, 0, "exit of the first frame");
    vp::eq(system_params::INITIAL_FRAME_FORMAL_EH_LOCATION as u64, u16::MAX as u64, "exception handler of the first frame");
    vp::eq(BOOTLOADER_CALLDATA_PAGE as u64, 7, "bootloader calldata page");
    vp::eq(STARTING_BASE_PAGE as u64, 2048, "first frame page");
    vp::eq(NEW_MEMORY_PAGES_PER_FAR_CALL as u64, 8, "pages per frame");
    vp::eq(STARTING_TIMESTAMP as u64, 1024, "first timestamp");
    vp::eq(TIME_DELTA_PER_CYCLE as u64, 4, "timestamps per cycle");
    vp::eq(INITIAL_SP_ON_FAR_CALL, 0, "initial stack pointer");
    vp::eq(LOG2_NUM_ADDRESSABLE_HEAP_BYTES as u64, 24, "heap size");
    vp::eq(MEMORY_GROWTH_ERGS_PER_BYTE as u64, 1, "memory growth price");
    vp::eq(system_params::NEW_FRAME_MEMORY_STIPEND as u64, 1024, "free memory of a frame");
}
pub fn registers() {
    let r = vp::bits(8) as u8;
    let n = (r == CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER) as u64
        + (r == CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER) as u64
        + CALL_SYSTEM_ABI_REGISTERS.contains(&r) as u64
        + CALL_RESERVED_RANGE.contains(&r) as u64
        + (r == CALL_IMPLICIT_PARAMETER_REG_IDX) as u64;
    vp::observe(n);
    vp::eq(n, ((r as usize) < REGISTERS_COUNT) as u64, "every register has exactly one role in a far call");
    vp::eq(CALL_SYSTEM_ABI_REGISTERS.contains(&r) as u64, (r >= 2 && r < 12) as u64, "system ABI registers");
    vp::eq(CALL_RESERVED_RANGE.contains(&r) as u64, (r >= 12 && r < 14) as u64, "reserved registers");
    vp::eq((r == CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER) as u64, (r == 0) as u64, "calldata register");
    vp::eq((r == CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER) as u64, (r == 1) as u64, "constructor marker register");
    vp::eq((r == CALL_IMPLICIT_PARAMETER_REG_IDX) as u64, (r == 14) as u64, "implicit parameter register");
    let m = (r == RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER) as u64
        + (r == RET_RESERVED_REGISTER_0) as u64
        + (r == RET_RESERVED_REGISTER_1) as u64
        + (r == RET_RESERVED_REGISTER_2) as u64;
    vp::eq(m, (r < 4) as u64, "return registers are the first four, each with one role");
    vp::eq((r == RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER) as u64, (r == 0) as u64, "returndata register");
    vp::eq(REGISTERS_COUNT as u64, 15, "number of registers");
}
fn address_low(a: &Address) -> Option<u64> {
    for k in 0..12 {
        if a.0[k] != 0 {
            return None;
        }
    }
    let mut r = 0u64;
    for k in 12..20 {
        r = r << 8 | a.0[k] as u64;
    }
    Some(r)
}
pub fn addresses() {
    use system_params as s;
    let i = vp::bits(4) as usize;
    let j = vp::bits(4) as usize;
    let list: [u16; 14] = [
        ADDRESS_ECRECOVER, ADDRESS_SHA256, ADDRESS_RIPEMD160, ADDRESS_IDENTITY, ADDRESS_BOOTLOADER, ADDRESS_ACCOUNT_CODE_STORAGE,
        ADDRESS_NONCE_HOLDER, ADDRESS_KNOWN_CODES_STORAGE, ADDRESS_IMMUTABLE_SIMULATOR, ADDRESS_CONTRACT_DEPLOYER,
        ADDRESS_FORCE_DEPLOYER, ADDRESS_L1_MESSENGER, ADDRESS_MSG_VALUE, ADDRESS_ETH_TOKEN,
    ];
    const WANT: [u16; 14] = [1, 2, 3, 4, 0x8001, 0x8002, 0x8003, 0x8004, 0x8005, 0x8006, 0x8007, 0x8008, 0x8009, 0x800a];
    vp::assume(i < 14 && j < 14);
    vp::observe(list[i] as u64);
    vp::eq(list[i] as u64, WANT[i] as u64, "address of the system contract");
    vp::eq((list[i] == list[j]) as u64, (i == j) as u64, "system contracts have distinct addresses");
    let more: [u16; 4] = [ADDRESS_SYSTEM_CONTEXT, s::ADDRESS_BOOTLOADER_UTILITIES, ADDRESS_EVENT_WRITER, ADDRESS_KECCAK256];
    const MORE: [u16; 4] = [0x800b, 0x800c, 0x800d, 0x8010];
    vp::eq(more[j & 3] as u64, MORE[j & 3] as u64, "address of the system contract (2)");
    vp::check(list[i] != more[j & 3], "system contracts have distinct addresses (2)");
    vp::eq(ADDRESS_UNRESTRICTED_SPACE, 1 << 16, "user space begins at 2^16");
    vp::check((list[i] as u64) < ADDRESS_UNRESTRICTED_SPACE, "system contracts are below user space");
    let formal: [&Address; 7] = [
        &s::BOOTLOADER_FORMAL_ADDRESS,
        &s::DEPLOYER_SYSTEM_CONTRACT_ADDRESS,
        &s::NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS,
        &s::KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS,
        &s::KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS,
        &s::SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS,
        &s::ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS,
    ];
    const FORMAL: [u64; 7] = [0x8001, 0x8002, 0x8003, 0x8004, 0x8010, 2, 1];
    for (a, w) in formal.iter().zip(FORMAL.iter()) {
        vp::eq(address_low(a).unwrap_or(!0), *w, "formal address is the 160-bit big-endian low address");
    }
    vp::eq(s::BOOTLOADER_FORMAL_ADDRESS_LOW as u64, ADDRESS_BOOTLOADER as u64, "bootloader addresses agree");
    vp::eq(s::DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW as u64, 0x8002, "code storage address");
    vp::eq(s::KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS as u64, ADDRESS_KECCAK256 as u64, "keccak addresses agree");
    vp::eq(s::SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS as u64, ADDRESS_SHA256 as u64, "sha256 addresses agree");
    vp::eq(s::ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS as u64, ADDRESS_ECRECOVER as u64, "ecrecover addresses agree");
    let aux = [s::STORAGE_AUX_BYTE, s::EVENT_AUX_BYTE, s::L1_MESSAGE_AUX_BYTE, s::PRECOMPILE_AUX_BYTE];
    vp::eq(aux[i & 3] as u64, (i & 3) as u64, "log kinds are told apart by their aux byte");
}

// ---- economics --------------------------------------------------------------------------------------------
pub fn price_floors() {
    use system_params as s;
    let msg = OPCODES_TABLE
        .iter()
        .zip(OPCODES_PRICES.iter())
        .filter(|(v, _)| v.opcode == Opcode::Log(LogOpcode::ToL1Message))
        .map(|x| *x.1)
        .min()
        .unwrap() as u64;
    let write = OPCODES_TABLE
        .iter()
        .zip(OPCODES_PRICES.iter())
        .filter(|(v, _)| v.opcode == Opcode::Log(LogOpcode::StorageWrite))
        .map(|x| *x.1)
        .min()
        .unwrap() as u64;
    // L1 messages: whatever a transaction does, it cannot fill the single-instance circuit
    let n = vp::bits(32);
    vp::observe(n);
    let limit = core::hint::black_box(s::MAX_TX_ERGS_LIMIT as u64);
    vp::eq(((n * msg <= limit) & (n > 512)) as u64, 0, "a transaction cannot send more than 512 messages to L1");
    // storage writes within a transfer stipend
    let stipend = vp::bits(32);
    let given = core::hint::black_box(s::MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64) - core::hint::black_box(s::MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64);
    let min = core::hint::black_box(s::MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION.min(s::MIN_STORAGE_WRITE_COST) as u64);
    vp::eq((((stipend <= given) | (stipend <= 2300)) & (stipend >= min)) as u64, 0, "a transfer stipend never pays the minimal price of a storage write");
    vp::eq((((stipend <= given) | (stipend <= 2300)) & (stipend >= write)) as u64, 0, "a transfer stipend never pays for a storage write");
    vp::eq(s::MIN_STORAGE_WRITE_COST as u64, 3501, "minimal storage write price");
    vp::eq(s::MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION as u64, 3501, "minimal storage write price against reentrancy");
}
pub fn call_depth() {
    use system_params as s;
    let d = vp::bits(33);
    let i = vp::bits(11);
    let v = OPCODES_TABLE[i as usize];
    let is_call = matches!(v.opcode, Opcode::NearCall(_) | Opcode::FarCall(_));
    vp::assume(is_call);
    let p = OPCODES_PRICES[i as usize] as u64;
    vp::observe(p);
    vp::check(p >= CALL_LIKE_ERGS_COST as u64, "every call costs at least the call-like price");
    let p = vp::fork(p);
    vp::assume(d * p <= s::VM_INITIAL_FRAME_ERGS as u64);
    vp::check(d < s::VM_MAX_STACK_DEPTH as u64, "no transaction nests calls beyond the stack limit");
    vp::eq(s::VM_MAX_STACK_DEPTH as u64, u32::MAX as u64 / 20 + 80, "stack depth limit");
    vp::eq(s::VM_INITIAL_FRAME_ERGS as u64, u32::MAX as u64, "initial ergs");
    vp::eq(CALL_LIKE_ERGS_COST as u64, 20, "call-like price");
}
/// Per-unit prices cover their circuit, for any number of circuits filled, and are minimal.
pub fn unit_prices() {
    use circuit_prices as c;
    use system_params as s;
    let list: [(u64, u64); 14] = [
        (c::VM_CYCLE_COST_IN_ERGS as u64, 23000),
        (c::RAM_PERMUTATION_COST_IN_ERGS as u64, 260000),
        (c::CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS as u64, 2 * 12100),
        (c::STORAGE_APPLICATION_COST_IN_ERGS as u64, 118),
        (c::CODE_DECOMMITTER_SORTER_COST_IN_ERGS as u64, 192500),
        (c::LOG_DEMUXER_COST_IN_ERGS as u64, 101500),
        (c::STORAGE_SORTER_COST_IN_ERGS as u64, 79000),
        (c::EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS as u64, 88000),
        (c::INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS as u64, 4600),
        (c::REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS as u64, 7400),
        (c::CODE_DECOMMITMENT_SORTER_COST_IN_ERGS as u64, 192500),
        (c::KECCAK256_CIRCUIT_COST_IN_ERGS as u64, 2050),
        (c::SHA256_CIRCUIT_COST_IN_ERGS as u64, 11500),
        (c::ECRECOVER_CIRCUIT_COST_IN_ERGS as u64, 72),
    ];
    let list = core::hint::black_box(list);
    let circuit = core::hint::black_box(s::ERGS_PER_CIRCUIT as u64);
    vp::eq(circuit, 80000, "price of a circuit");
    let i = vp::bits(4);
    vp::assume(i < 14);
    let (p, cap) = list[i as usize % 14];
    vp::observe(p);
    // the smallest price for which filling a circuit pays for it
    vp::eq(p, (circuit + cap - 1) / cap, "the unit price is the smallest that pays for a filled circuit");
}
pub fn pubdata() {
    use circuit_prices as c;
    use system_params as s;
    let bb = core::hint::black_box::<u64>;
    // k initial (or repeated) writes in a block, limited by pubdata alone or by the minimal prices
    let k = vp::bits(32);
    vp::observe(k);
    let (pub_max, tx_max) = (bb(s::MAX_PUBDATA_PER_BLOCK as u64), bb(s::MAX_TX_ERGS_LIMIT as u64));
    let limit = |bytes: u64, min: u64, cap: u64, m: &'static str| {
        vp::eq((((k * bytes <= pub_max) & (k * min <= tx_max)) & (k > cap)) as u64, 0, m)
    };
    let init_min = bb(c::INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS as u64);
    let rep_min = bb(c::REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS as u64);
    limit(bb(s::INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64), init_min, 4600, "initial writes fit their circuit");
    limit(bb(s::REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64), rep_min, 7400, "repeated writes fit their circuit");
    let write_min = bb(c::STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS as u64);
    vp::eq(write_min, init_min.max(rep_min), "the storage write minimum is the larger of both kinds");
    vp::eq(bb(s::INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64), 64, "initial write size");
    vp::eq(bb(s::REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64), 40, "repeated write size");
    vp::eq(bb(s::L1_MESSAGE_PUBDATA_BYTES as u64), 88, "message size");
    vp::eq(pub_max, 110000, "pubdata limit");
    vp::eq(tx_max, 80_000_000, "transaction limit");
}
/// The named prices the VM charges besides the per-opcode ones.
pub fn named_prices() {
    use circuit_prices as c;
    let i = vp::bits(4) as usize;
    let got: [u32; 16] = [
        RICH_ADDRESSING_OPCODE_ERGS,
        AVERAGE_OPCODE_ERGS,
        STORAGE_READ_IO_PRICE,
        STORAGE_WRITE_IO_PRICE,
        EVENT_IO_PRICE,
        L1_MESSAGE_IO_PRICE,
        CALL_LIKE_ERGS_COST,
        ERGS_PER_CODE_WORD_DECOMMITTMENT,
        INVALID_OPCODE_ERGS,
        c::L1_MESSAGE_MIN_COST_IN_ERGS,
        system_params::MSG_VALUE_SIMULATOR_ADDITIVE_COST,
        system_params::MSG_VALUE_SIMULATOR_MIN_USED_ERGS,
        system_params::DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD,
        system_params::MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY,
        system_params::ERGS_PER_CIRCUIT,
        c::VM_CYCLE_COST_IN_ERGS,
    ];
    const WANT: [u32; 16] = [6, 5, 150, 250, 25, 100, 20, 4, u32::MAX, 156250, 75500, 72000, 64000, 128, 80000, 4];
    vp::observe(got[i] as u64);
    vp::eq(got[i] as u64, WANT[i] as u64, "named price");
}

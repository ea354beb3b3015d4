//! Interface between a harness and the symbolic executor (wasm) or the replayer (native).
#[cfg(target_arch = "wasm64")]
mod imp {
    #[link(wasm_import_module = "env")]
    extern "C" {
        fn vp_sym(bits: u64) -> u64;
        fn vp_assume(c: i32);
        fn vp_assert(c: i32, p: *const u8, n: usize);
        fn vp_assert_eq(a: u64, b: u64, p: *const u8, n: usize);
        fn vp_observe(x: u64);
        fn vp_fork(x: u64) -> u64;
        fn vp_expect_trap(on: u64);
        fn vp_cover(p: *const u8, n: usize);
        fn vp_panic(p: *const u8, n: usize, line: u64);
        fn vp_out(p: *const u8, n: usize);
        fn vp_mode() -> u64;
        fn vp_spawn(stack: u64, tls: u64, arg: u64);
        fn vp_join();
    }
    pub fn begin() {
        std::panic::set_hook(Box::new(|i| {
            let (f, l) = i.location().map_or(("", 0), |x| (x.file(), x.line()));
            unsafe { vp_panic(f.as_ptr(), f.len(), l as u64) }
        }));
    }
    pub fn bits(n: u32) -> u64 {
        unsafe { vp_sym(n as u64) }
    }
    pub fn assume(c: bool) {
        unsafe { vp_assume(c as i32) }
    }
    pub fn check(c: bool, msg: &'static str) {
        unsafe { vp_assert(c as i32, msg.as_ptr(), msg.len()) }
    }
    /// a == b, decided by the solver on every path
    pub fn eq(a: u64, b: u64, msg: &'static str) {
        unsafe { vp_assert_eq(a, b, msg.as_ptr(), msg.len()) }
    }
    /// what runs before the harness, see props/history.rs
    pub fn mode() -> u64 {
        unsafe { vp_mode() }
    }
    pub fn observe(x: u64) {
        unsafe { vp_observe(x) }
    }
    pub fn fork(x: u64) -> u64 {
        unsafe { vp_fork(x) }
    }
    pub fn cover(m: &'static str) {
        unsafe { vp_cover(m.as_ptr(), m.len()) }
    }
    pub fn out(b: &[u8]) {
        unsafe { vp_out(b.as_ptr(), b.len()) }
    }
    /// Starts the second thread, which runs other_thread(arg). The executor decides who runs when.
    pub fn spawn(arg: u64) {
        let s = Box::leak(vec![0u128; 1 << 16].into_boxed_slice());
        let t = Box::leak(vec![0u128; 1 << 10].into_boxed_slice());
        unsafe { vp_spawn(s.as_ptr() as u64 + (16 << 16), t.as_ptr() as u64, arg) }
    }
    #[no_mangle]
    pub extern "C" fn vp_thread_main(arg: u64) {
        crate::other_thread(arg)
    }
    /// Waits until it is done.
    pub fn join() {
        unsafe { vp_join() }
    }
    /// The closure must panic; the path ends there.
    pub fn must_panic<R>(msg: &'static str, f: impl FnOnce() -> R) {
        unsafe { vp_expect_trap(1) };
        let _r = f();
        unsafe { vp_expect_trap(0) };
        check(false, msg);
    }
}

#[cfg(not(target_arch = "wasm64"))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Native {
        pub inputs: Vec<(u32, u64)>,
        pub pos: usize,
        pub trace: Vec<u64>,
        pub failures: Vec<String>,
        pub assume_failed: bool,
        pub out: Vec<u8>,
        pub second: Vec<(u32, u64)>, // inputs of the second thread
    }
    thread_local! {
        pub static N: RefCell<Native> = RefCell::new(Native::default());
        static OTHER: RefCell<Option<std::thread::JoinHandle<Native>>> = RefCell::new(None);
    }
    pub fn begin() {}
    pub fn bits(n: u32) -> u64 {
        N.with(|s| {
            let mut s = s.borrow_mut();
            let p = s.pos;
            s.pos += 1;
            match s.inputs.get(p) {
                Some(&(w, v)) => {
                    assert_eq!(w, n, "input width");
                    v
                }
                None => 0,
            }
        })
    }
    pub struct Stop;
    pub fn assume(c: bool) {
        if !c {
            N.with(|s| s.borrow_mut().assume_failed = true);
            std::panic::panic_any(Stop);
        }
    }
    pub fn check(c: bool, msg: &'static str) {
        if !c {
            N.with(|s| s.borrow_mut().failures.push(msg.to_string()));
        }
    }
    pub fn eq(a: u64, b: u64, msg: &'static str) {
        if a != b {
            N.with(|s| s.borrow_mut().failures.push(format!("{} (got {:#x}, expected {:#x})", msg, a, b)));
        }
    }
    pub fn mode() -> u64 {
        std::env::var("VP_MODE").ok().and_then(|x| x.parse().ok()).unwrap_or(0)
    }
    pub fn observe(x: u64) {
        N.with(|s| s.borrow_mut().trace.push(x));
    }
    pub fn fork(x: u64) -> u64 {
        x
    }
    pub fn spawn(arg: u64) {
        let mut n = Native::default();
        n.inputs = N.with(|s| std::mem::take(&mut s.borrow_mut().second));
        let h = std::thread::spawn(move || {
            N.with(|s| *s.borrow_mut() = n);
            let r = std::panic::catch_unwind(|| crate::other_thread(arg));
            let mut n = N.with(|s| std::mem::take(&mut *s.borrow_mut()));
            if let Err(e) = r {
                if e.downcast_ref::<Stop>().is_none() {
                    n.failures.push("the other thread panicked".into());
                }
            }
            n
        });
        OTHER.with(|s| *s.borrow_mut() = Some(h));
    }
    pub fn join() {
        if let Some(h) = OTHER.with(|s| s.borrow_mut().take()) {
            let n = h.join().unwrap();
            N.with(|s| {
                let mut s = s.borrow_mut();
                s.trace.extend(n.trace);
                s.failures.extend(n.failures);
                s.assume_failed |= n.assume_failed;
            });
        }
    }
    pub fn cover(_m: &'static str) {}
    pub fn out(b: &[u8]) {
        N.with(|s| s.borrow_mut().out.extend_from_slice(b));
    }
    pub fn must_panic<R>(msg: &'static str, f: impl FnOnce() -> R) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(_) => check(false, msg),
            Err(_) => std::panic::panic_any(Stop),
        }
    }
}
pub use imp::*;

pub fn b() -> bool {
    bits(1) == 1
}
pub fn u8() -> u8 {
    bits(8) as u8
}
pub fn u16() -> u16 {
    bits(16) as u16
}
pub fn u32() -> u32 {
    bits(32) as u32
}
pub fn u64() -> u64 {
    bits(64)
}
pub fn u128() -> u128 {
    let lo = bits(64) as u128;
    let hi = bits(64) as u128;
    lo | hi << 64
}
pub fn observe128(x: u128) {
    observe(x as u64);
    observe((x >> 64) as u64);
}

/// Build every lazily initialised table before anything is symbolic.
pub fn setup() {
    use zkevm_opcode_defs::*;
    let mut x = OPCODES_TABLE.len() + OPCODES_PROPS_INTEGER_BITMASKS.len() + OPCODES_PRICES.len();
    x += OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() + OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len();
    x += *NUM_LOGICAL_OPCODES + *NUM_INPUT_VARIANTS + *NUM_OUTPUT_VARIANTS + OPCODE_PROTOTYPES.len();
    x ^= *NOP_BITSPREAD_U64 as usize ^ *PANIC_BITSPREAD_U64 as usize;
    x += NOP_OPCODE_VARIANT.flags.len() + PANIC_OPCODE_VARIANT.flags.len();
    core::hint::black_box(x);
}

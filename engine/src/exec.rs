//! Symbolic executor for WebAssembly modules.
//!
//! Every wasm value is either concrete or a bit-vector expression over the inputs created by `vp_sym`.
//! Branches on symbolic conditions are decided by the SMT solver (both sides are followed when both are
//! feasible), loads from symbolic addresses become multiplexers over all reachable addresses, and
//! `vp_assert` asks the solver for a counterexample under the path condition.
use crate::expr::*;
use crate::smt::*;
use crate::wasm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::cell::Cell;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub c: u64,
    pub e: E,
}
fn cv(c: u64) -> V {
    V { c, e: 0 }
}

const PS: usize = 4096;
#[derive(Clone)]
struct Page {
    d: [u8; PS],
    s: Option<Box<[E; PS]>>,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,   // start of locals in stack
    opbase: u32, // start of operands
}

/// Everything known about a few input bits: which of their assignments the path condition allows. Stands for
/// the conjunction of the path constraints that are value tables over these bits.
struct Dom {
    bits: Vec<(u32, u8)>,
    set: Vec<u64>, // one bit per assignment
    e: Cell<E>,    // the same as an expression, when it was needed
}

/// A thread that is not running.
#[derive(Clone)]
struct Parked {
    frames: Vec<Frame>,
    stack: Vec<V>,
    globals: Vec<V>,
    wait: Wait,
}
#[derive(Clone, Copy, PartialEq)]
enum Wait {
    Ready,
    Memory(u64), // memory.atomic.wait on this address
    Join,
    Done,
}
/// Two threads, one of which runs. Memory accesses happen one after the other (sequential consistency).
#[derive(Clone)]
struct Threads {
    cur: u8,
    other: Parked,
    left: u32, // preemptions that may still happen
    seq: u64,  // switch points so far
    noted: bool, // this instruction's switch point was already passed
    since: u32,
    schedule: Vec<u64>,
    counts: BTreeMap<(u8, u32, u32), u32>,
    spins: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    stack: Vec<V>,
    pages: Vec<Option<Rc<Page>>>,
    mem_pages: u64,
    globals: Vec<V>,
    cons: Vec<E>,
    doms: Vec<Rc<Dom>>,
    model: Vec<u64>,
    inputs: Vec<E>,
    trace: Vec<V>,
    expect_trap: bool,
    steps: u64,
    panic_at: Option<(String, u64)>,
    out: Vec<u8>,
    thr: Option<Box<Threads>>,
    trace_of: Vec<u8>,
    inputs_of: Vec<u8>, // which thread created the input
    shared: Vec<(u64, u64)>, // address ranges of mutable statics
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u64)>,
    pub trace: Vec<u64>,
    pub at: String,
    pub threads: Option<(Vec<u8>, Vec<u64>)>, // whose the inputs are; the switch points taken
}

#[derive(Default)]
pub struct AssertStat {
    pub reached: u64,
    pub discharged: u64, // by an unsat answer
    pub trivial: u64,    // already a constant after simplification
    pub violated: u64,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_concretize: usize,
    pub mux_bits: u32,
    pub max_violations: usize,
    pub max_seconds: f64,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub cx: Ctx,
    pub sol: Solver,
    pub lim: Limits,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub asserts: BTreeMap<String, AssertStat>,
    pub covers: BTreeMap<String, u64>,
    pub funcs_hit: Vec<u64>,
    pub paths: u64,
    pub trapped_ok: u64,
    pub pruned: u64,
    pub forks: u64,
    pub branches: u64,
    pub by_table: u64, // branches decided by the domain of the few input bits they depend on
    pub steps: u64,
    pub sym_steps: u64,
    pub muxes: u64,
    pub samples: Vec<(Vec<(u8, u64)>, Vec<u64>, String, Vec<u8>)>,
    pub sample_seen: u64,
    pub sample_cap: usize,
    pub mode: u64,
    pub preemptions: u32,
    pub per_place: u32, // switch points per instruction and thread
    pub fixed: Option<Vec<u64>>, // concrete inputs instead of symbolic ones
    pub schedule: Option<Vec<u64>>, // preempt exactly at these switch points
    pub switches: u64,
    placed: HashMap<usize, u64>, // where passive data segments went
    alloc: Vec<bool>,         // the allocator's entry points
    alloc_lock: Option<u64>,  // its lock: what they access atomically
    quiet: Vec<bool>, // functions (the allocator's) in which no switch happens
    pub rng: u64,
    pub error: Option<String>,
    pub outputs: Vec<Vec<u8>>,
    sets: HashMap<(E, Vec<(u32, u8)>), Rc<Vec<u64>>>,
    start: Instant,
    seen_viol: BTreeSet<String>,
}

enum Flow {
    Next,
    Jump,    // pc already set
    EndPath, // path finished
    Kill,    // path infeasible or replaced by forked states
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, sol: Solver, lim: Limits, seed: u64) -> Self {
        Engine {
            m,
            cx: Ctx::new(),
            sol,
            lim,
            work: vec![],
            violations: vec![],
            asserts: BTreeMap::new(),
            covers: BTreeMap::new(),
            funcs_hit: vec![0; m.funcs.len()],
            paths: 0,
            trapped_ok: 0,
            pruned: 0,
            forks: 0,
            branches: 0,
            by_table: 0,
            steps: 0,
            sym_steps: 0,
            muxes: 0,
            samples: vec![],
            sample_seen: 0,
            sample_cap: 48,
            mode: 0,
            preemptions: 1,
            per_place: 3,
            fixed: None,
            schedule: None,
            switches: 0,
            placed: m.data.iter().enumerate().filter_map(|(k, d)| d.0.map(|a| (k, a))).collect(),
            alloc: m.funcs.iter().map(|f| f.name.contains("__rdl_")).collect(),
            alloc_lock: None,
            quiet: m
                .funcs
                .iter()
                .map(|f| ["dlmalloc", "__rdl_", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "__wasm_init", "__wasm_call"].iter().any(|x| f.name.contains(x)))
                .collect(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            error: None,
            outputs: vec![],
            sets: HashMap::new(),
            start: Instant::now(),
            seen_viol: BTreeSet::new(),
        }
    }
    fn rand(&mut self) -> u64 {
        let mut x = self.rng;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.rng = x;
        x
    }

    fn initial(&self, func: u32) -> State {
        let mut st = State {
            frames: vec![],
            stack: Vec::with_capacity(1024),
            pages: vec![],
            mem_pages: self.m.mem_min,
            globals: self.m.globals.iter().map(|&g| cv(g)).collect(),
            cons: vec![],
            doms: vec![],
            model: vec![],
            inputs: vec![],
            trace: vec![],
            expect_trap: false,
            steps: 0,
            panic_at: None,
            out: vec![],
            thr: None,
            trace_of: vec![],
            inputs_of: vec![],
            shared: vec![],
        };
        st.pages.resize((self.m.mem_min as usize) * (65536 / PS), None);
        for (off, d) in &self.m.data {
            let Some(off) = off else { continue };
            for (i, &b) in d.iter().enumerate() {
                st.put(off + i as u64, b, 0);
            }
        }
        let nimp = self.m.imports.len() as u32;
        let f = &self.m.funcs[(func - nimp) as usize];
        st.stack.resize(f.nlocals as usize, cv(0));
        st.frames.push(Frame { func: func - nimp, pc: 0, base: 0, opbase: f.nlocals });
        if let Some(s) = self.m.start {
            self.below(&mut st, s - nimp, &[]);
        }
        st
    }

    /// Make f run before whatever the topmost frame is about to start.
    fn below(&self, st: &mut State, f: u32, args: &[V]) {
        st.frames.last_mut().unwrap().pc = u32::MAX; // 0 once f has returned
        let fun = &self.m.funcs[f as usize];
        let base = st.stack.len();
        st.stack.extend_from_slice(args);
        st.stack.resize(base + fun.nlocals as usize, cv(0));
        let opbase = st.stack.len() as u32;
        st.frames.push(Frame { func: f, pc: 0, base: base as u32, opbase });
    }
    fn export(&self, name: &str, kind: u8) -> Option<u32> {
        self.m.exports.iter().find(|e| e.0 == name && e.1 == kind).map(|e| e.2)
    }

    // ---- threads -----------------------------------------------------------------------------------------
    fn switch(st: &mut State, wait: Wait) {
        let t = st.thr.as_mut().unwrap();
        let mine = Parked {
            frames: std::mem::take(&mut st.frames),
            stack: std::mem::take(&mut st.stack),
            globals: std::mem::take(&mut st.globals),
            wait,
        };
        let next = std::mem::replace(&mut t.other, mine);
        st.frames = next.frames;
        st.stack = next.stack;
        st.globals = next.globals;
        t.cur ^= 1;
        t.since = 0;
        t.noted = true; // a parked thread goes on with the instruction it was about to do
    }
    /// The running thread cannot go on: the other one does, or nothing does.
    fn give_way(&mut self, st: &mut State, wait: Wait) -> Flow {
        let ready = st.thr.as_ref().map_or(false, |t| t.other.wait == Wait::Ready || (t.other.wait == Wait::Join && wait == Wait::Done));
        if !ready {
            let m = st.model.clone();
            self.violation(st, "panic", "deadlock: no thread can go on", &m);
            self.finish(st, "panic");
            return Flow::EndPath;
        }
        Self::switch(st, wait);
        Flow::Jump
    }
    /// Before an access other threads may see: fork off the schedule in which the other thread runs first.
    fn switch_point(&mut self, st: &mut State) -> bool {
        let nofork = self.schedule.is_some();
        // no switch happens in the allocator, or while its (spinning) lock is taken
        let quiet = self.alloc_lock.map_or(false, |a| st.byte(a) != (0, 0)) || st.frames.iter().rev().take(8).any(|f| self.quiet[f.func as usize]);
        let (func, pc) = st.frames.last().map(|f| (f.func, f.pc)).unwrap();
        let t = st.thr.as_mut().unwrap();
        if t.noted || t.other.wait != Wait::Ready || quiet {
            return false;
        }
        t.noted = true;
        t.seq += 1;
        t.since += 1;
        if t.since > 20_000 {
            // spinning until the other thread does something
            t.spins += 1;
            if t.spins > 2_000 {
                let _ = self.fail("the threads spin without end".into());
                return false;
            }
            Self::switch(st, Wait::Ready);
            return true;
        }
        if nofork {
            let k = t.schedule.len();
            if self.schedule.as_ref().unwrap().get(k) == Some(&t.seq) {
                t.schedule.push(t.seq);
                Self::switch(st, Wait::Ready);
                return true;
            }
            return false;
        }
        if t.left == 0 {
            return false;
        }
        let c = t.counts.entry((t.cur, func, pc)).or_default();
        if *c >= self.per_place {
            return false;
        }
        *c += 1;
        let mut o = st.clone();
        let t = o.thr.as_mut().unwrap();
        t.left -= 1;
        t.schedule.push(t.seq);
        Self::switch(&mut o, Wait::Ready);
        self.switches += 1;
        self.work.push(o);
        false
    }
    fn is_shared(&mut self, st: &State, a: V, off: u64) -> bool {
        let a = if a.e == 0 { a.c } else { self.cx.eval(a.e, &st.model) };
        let a = a.wrapping_add(off);
        st.shared.iter().any(|r| r.0 <= a && a < r.1)
    }

    pub fn run(&mut self, export: &str) {
        let f = match self.m.exports.iter().find(|e| e.0 == export && e.1 == 0) {
            Some(e) => e.2,
            None => {
                self.error = Some(format!("no exported harness {}", export));
                return;
            }
        };
        let st = self.initial(f);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.error.is_some() {
                break;
            }
            if self.violations.len() >= self.lim.max_violations {
                break;
            }
            self.path(&mut st);
            if self.paths + self.pruned > self.lim.max_paths {
                self.error = Some(format!("more than {} paths", self.lim.max_paths));
            }
        }
    }

    fn fail(&mut self, s: String) -> Flow {
        if self.error.is_none() {
            self.error = Some(s);
        }
        Flow::Kill
    }

    fn where_(&self, st: &State) -> String {
        let n = st.frames.len();
        let mut v = vec![];
        for f in st.frames.iter().rev().take(6.min(n)) {
            v.push(format!("{}+{}", short(&self.m.funcs[f.func as usize].name), f.pc));
        }
        if let Some(t) = &st.thr {
            for (k, f) in t.other.frames.iter().rev().take(6).enumerate() {
                v.push(format!("{}{}+{}", if k == 0 { "other thread at " } else { "" }, short(&self.m.funcs[f.func as usize].name), f.pc));
            }
        }
        v.join(" < ")
    }

    fn finish(&mut self, st: &State, how: &str) {
        self.paths += 1;
        self.sample_seen += 1;
        let take = if self.samples.len() < self.sample_cap {
            Some(self.samples.len())
        } else {
            let r = (self.rand() % self.sample_seen) as usize;
            if r < self.sample_cap {
                Some(r)
            } else {
                None
            }
        };
        if let Some(i) = take {
            let (inp, tr) = self.snapshot(st, &st.model.clone());
            let rec = (inp, tr, how.to_string(), if st.thr.is_some() { st.inputs_of.clone() } else { vec![] });
            if i == self.samples.len() {
                self.samples.push(rec)
            } else {
                self.samples[i] = rec
            }
        }
        if !st.out.is_empty() {
            self.outputs.push(st.out.clone());
        }
    }

    fn snapshot(&mut self, st: &State, model: &[u64]) -> (Vec<(u8, u64)>, Vec<u64>) {
        let inp = st.inputs.iter().map(|&e| (self.cx.w(e), self.cx.eval(e, model))).collect();
        let mut tr: Vec<u64> = st.trace.iter().map(|v| if v.e != 0 { self.cx.eval(v.e, model) } else { v.c }).collect();
        if st.thr.is_some() {
            // the first thread's, then the other one's
            let of = |k: u8| tr.iter().zip(&st.trace_of).filter(|x| *x.1 == k).map(|x| *x.0).collect::<Vec<_>>();
            tr = [of(0), of(1)].concat();
        }
        (inp, tr)
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: &[u64]) {
        let key = format!("{}:{}", kind, msg);
        if !self.seen_viol.insert(key) {
            return;
        }
        let (inputs, trace) = self.snapshot(st, model);
        let at = self.where_(st);
        let threads = st.thr.as_ref().map(|t| (st.inputs_of.clone(), t.schedule.clone()));
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs, trace, at, threads });
    }

    fn trap(&mut self, st: &State, what: &str) -> Flow {
        if st.expect_trap {
            self.trapped_ok += 1;
            self.finish(st, "expected-panic");
        } else {
            let msg = match &st.panic_at {
                Some((f, l)) => format!("panic at {}:{}", f, l),
                None => format!("trap: {} in {}", what, self.where_(st)),
            };
            let m = st.model.clone();
            self.violation(st, "panic", &msg, &m);
            self.finish(st, "panic");
        }
        Flow::EndPath
    }

    /// Is cons /\ extra satisfiable? Ok(Some(model)) / Ok(None); Err on an inconclusive answer.
    fn sat(&mut self, st: &State, extra: E) -> Result<Option<Vec<u64>>, String> {
        if self.cx.as_const(extra) == Some(0) {
            return Ok(None);
        }
        if self.start.elapsed().as_secs_f64() > self.lim.max_seconds {
            return Err(format!("time limit of {} s", self.lim.max_seconds));
        }
        // independence: keep only constraints sharing inputs with the query (transitively)
        let mut vars: BTreeSet<u32> = self.cx.support(extra).iter().map(|x| x.0).collect();
        let all = self.constraints(st);
        let mut rest: Vec<E> = all.clone();
        let mut keep: Vec<E> = vec![];
        loop {
            let mut next = vec![];
            let mut changed = false;
            for c in rest {
                let s = self.cx.support(c);
                if s.iter().any(|x| vars.contains(&x.0)) {
                    for x in s.iter() {
                        vars.insert(x.0);
                    }
                    keep.push(c);
                    changed = true;
                } else {
                    next.push(c);
                }
            }
            rest = next;
            if !changed {
                break;
            }
        }
        keep.sort_unstable();
        keep.dedup();
        // input bits that have one value left on this path
        let mut fixed: Vec<(u32, u64, u64)> = vec![];
        for d in &st.doms {
            let mut any = 0usize; // positions that are 1 somewhere
            let mut all = !0usize; // positions that are 1 everywhere
            for (k, &word) in d.set.iter().enumerate() {
                let mut x = word;
                while x != 0 {
                    let a = k * 64 + x.trailing_zeros() as usize;
                    x &= x - 1;
                    any |= a;
                    all &= a;
                }
            }
            for (i, &(v, b)) in d.bits.iter().enumerate() {
                let (hi, lo) = (all >> i & 1 == 1, any >> i & 1 == 0);
                if hi || lo {
                    let j = match fixed.iter().position(|f| f.0 == v) {
                        Some(j) => j,
                        None => {
                            fixed.push((v, 0, 0));
                            fixed.len() - 1
                        }
                    };
                    fixed[j].1 |= 1 << b;
                    fixed[j].2 |= (hi as u64) << b;
                }
            }
        }
        let mut q = vec![];
        if fixed.is_empty() {
            q = keep;
            q.push(extra);
        } else {
            let mut memo = HashMap::new();
            for c in keep {
                let c = self.cx.specialize(c, &fixed, &mut memo);
                match self.cx.as_const(c) {
                    Some(1) => {}
                    _ => q.push(c),
                }
            }
            // the comparison itself stays for the solver to decide
            let k = self.cx.key(extra);
            let ka = self.cx.key(k.a);
            if k.op == Op::Not && ka.op == Op::Eq {
                let a = self.cx.specialize(ka.a, &fixed, &mut memo);
                let b = self.cx.specialize(ka.b, &fixed, &mut memo);
                q.push(self.cx.ne_raw(a, b));
            } else {
                q.push(self.cx.specialize(extra, &fixed, &mut memo));
            }
        }
        match self.sol.check(&self.cx, &q) {
            (Res::Sat, mut m) => {
                for &(v, b, x) in &fixed {
                    m[v as usize] = m[v as usize] & !b | x;
                }
                // inputs outside the slice keep their value in the current model
                let mut model = st.model.clone();
                if model.len() < m.len() {
                    model.resize(m.len(), 0);
                }
                for &v in &vars {
                    model[v as usize] = m[v as usize];
                }
                if !rest.is_empty() || true {
                    // defensive: the model must satisfy everything
                    for &c in &all {
                        if self.cx.eval(c, &model) != 1 {
                            return Err("solver model violates the path condition".into());
                        }
                    }
                    if self.cx.eval(extra, &model) != 1 {
                        return Err("solver model violates the query".into());
                    }
                }
                Ok(Some(model))
            }
            (Res::Unsat, _) => Ok(None),
            (Res::Unknown, _) => Err("solver returned unknown/timeout".into()),
        }
    }

    /// The path condition.
    fn constraints(&mut self, st: &State) -> Vec<E> {
        let mut r = st.cons.clone();
        for d in &st.doms {
            if d.e.get() == 0 {
                let v = (0..1usize << d.bits.len()).map(|a| d.set[a / 64] >> (a % 64) & 1).collect();
                d.e.set(self.cx.mk_tab(1, &d.bits, v));
            }
            if self.cx.as_const(d.e.get()).is_none() {
                r.push(d.e.get());
            }
        }
        r
    }
    /// The assignments of `bits` (a superset of the table's) for which the table is 1.
    fn table_set(&mut self, e: E, bits: &[(u32, u8)]) -> Rc<Vec<u64>> {
        let key = (e, bits.to_vec());
        if let Some(s) = self.sets.get(&key) {
            return s.clone();
        }
        if self.sets.len() > 20000 {
            self.sets.clear();
        }
        let s = Rc::new(self.table_set_of(e, bits));
        self.sets.insert(key, s.clone());
        s
    }
    fn table_set_of(&self, e: E, bits: &[(u32, u8)]) -> Vec<u64> {
        let t = self.cx.tab(e).unwrap();
        let n = 1usize << bits.len();
        let mut set = vec![0u64; n.div_ceil(64)];
        if t.bits[..] == bits[..] {
            for (a, &v) in t.vals.iter().enumerate() {
                set[a / 64] |= v << (a % 64);
            }
        } else {
            let pos: Vec<usize> = t.bits.iter().map(|b| bits.iter().position(|x| x == b).unwrap()).collect();
            for a in 0..n {
                let mut ix = 0;
                for (i, &p) in pos.iter().enumerate() {
                    ix |= (a >> p & 1) << i;
                }
                set[a / 64] |= t.vals[ix] << (a % 64);
            }
        }
        set
    }
    fn widen(d: &Dom, bits: &[(u32, u8)]) -> Vec<u64> {
        if d.bits[..] == bits[..] {
            return d.set.clone();
        }
        let n = 1usize << bits.len();
        let mut set = vec![0u64; n.div_ceil(64)];
        let pos: Vec<usize> = d.bits.iter().map(|b| bits.iter().position(|x| x == b).unwrap()).collect();
        for a in 0..n {
            let mut ix = 0;
            for (i, &p) in pos.iter().enumerate() {
                ix |= (a >> p & 1) << i;
            }
            set[a / 64] |= (d.set[ix / 64] >> (ix % 64) & 1) << (a % 64);
        }
        set
    }
    /// For a table: the bits of it and of the domains it touches, and those domains; None if they are too many.
    fn touching(&self, st: &State, c: E) -> Option<(Vec<(u32, u8)>, Vec<usize>)> {
        let mut bits: Vec<(u32, u8)> = self.cx.tab(c)?.bits.to_vec();
        let mut ds = vec![];
        for (i, d) in st.doms.iter().enumerate() {
            // domains never share bits with each other
            if d.bits.iter().any(|b| bits.contains(b)) {
                ds.push(i);
            }
        }
        for &i in &ds {
            bits.extend(st.doms[i].bits.iter());
        }
        bits.sort_unstable();
        bits.dedup();
        if bits.len() > self.cx.tab_max {
            return None;
        }
        Some((bits, ds))
    }
    /// Add c to the path condition.
    fn assume(&mut self, st: &mut State, c: E) {
        match self.touching(st, c) {
            None => st.cons.push(c),
            Some((bits, ds)) => {
                let mut set = self.table_set(c, &bits).to_vec();
                for &i in &ds {
                    for (x, y) in set.iter_mut().zip(Self::widen(&st.doms[i], &bits)) {
                        *x &= y;
                    }
                }
                self.replace(st, bits, &ds, set);
            }
        }
    }
    fn replace(&mut self, st: &mut State, bits: Vec<(u32, u8)>, ds: &[usize], set: Vec<u64>) {
        for &i in ds.iter().rev() {
            st.doms.remove(i);
        }
        st.doms.push(Rc::new(Dom { bits, set, e: Cell::new(0) }));
    }
    /// The assignments left to the bits of a table and of the domains it touches, when only domains bear on them.
    fn left(&mut self, st: &State, c: E) -> Option<(Vec<(u32, u8)>, Vec<u64>)> {
        let (bits, ds) = self.touching(st, c)?;
        for &k in &st.cons {
            let s = self.cx.support(k);
            if bits.iter().any(|&(v, b)| s.iter().any(|&(w, m)| w == v && m >> b & 1 == 1)) {
                return None;
            }
        }
        let n = 1usize << bits.len();
        let mut d = vec![!0u64; n.div_ceil(64)];
        if n < 64 {
            d[0] = (1 << n) - 1;
        }
        for &i in &ds {
            for (x, y) in d.iter_mut().zip(Self::widen(&st.doms[i], &bits)) {
                *x &= y;
            }
        }
        Some((bits, d))
    }
    /// Which outcomes of a table are feasible, when only domains bear on it: (what is left when true, when false).
    fn by_domain(&mut self, st: &State, c: E) -> Option<(Vec<(u32, u8)>, Vec<usize>, Vec<u64>, Vec<u64>)> {
        let (bits, d) = self.left(st, c)?;
        let ds = self.touching(st, c)?.1;
        let t = self.table_set(c, &bits);
        let yes = t.iter().zip(&d).map(|(x, y)| x & y).collect();
        let no = t.iter().zip(&d).map(|(x, y)| !x & y).collect();
        Some((bits, ds, yes, no))
    }

    /// Can c hold on this path? For steering only: assertions go to the solver.
    fn feasible(&mut self, st: &State, c: E) -> Result<Option<Vec<u64>>, String> {
        if let Some((bits, _, yes, _)) = self.by_domain(st, c) {
            self.by_table += 1;
            return Ok(yes.iter().position(|&x| x != 0).map(|w| {
                Self::with(&st.model, &bits, w * 64 + yes[w].trailing_zeros() as usize)
            }));
        }
        self.sat(st, c)
    }
    /// The model with these bits set to the assignment.
    fn with(model: &[u64], bits: &[(u32, u8)], a: usize) -> Vec<u64> {
        let mut m = model.to_vec();
        for (i, &(v, b)) in bits.iter().enumerate() {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = m[v as usize] & !(1 << b) | (a as u64 >> i & 1) << b;
        }
        m
    }

    fn known_truth(&self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.cx.as_const(c) {
            return Some(v == 1);
        }
        let k = self.cx.key(c);
        for &x in &st.cons {
            if x == c {
                return Some(true);
            }
            if k.op == Op::Not && k.a == x {
                return Some(false);
            }
            let kx = self.cx.key(x);
            if kx.op == Op::Not && kx.a == c {
                return Some(false);
            }
        }
        None
    }

    /// Decide a symbolic condition; when both sides are feasible the state for the other side is returned.
    fn decide(&mut self, st: &mut State, c: E) -> Result<(bool, Option<State>), String> {
        if let Some(b) = self.known_truth(st, c) {
            return Ok((b, None));
        }
        self.branches += 1;
        let cur = self.cx.eval(c, &st.model) == 1;
        if let Some((bits, ds, yes, no)) = self.by_domain(st, c) {
            self.by_table += 1;
            let (mine, other) = if cur { (yes, no) } else { (no, yes) };
            let Some(w) = other.iter().position(|&x| x != 0) else { return Ok((cur, None)) };
            self.forks += 1;
            let a = w * 64 + other[w].trailing_zeros() as usize;
            let mut o = st.clone();
            o.model = Self::with(&st.model, &bits, a);
            self.replace(&mut o, bits.clone(), &ds, other);
            self.replace(st, bits, &ds, mine);
            return Ok((cur, Some(o)));
        }
        let nc = self.cx.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        match self.sat(st, other)? {
            None => {
                // implied; remember it so that repeats need no query
                self.assume(st, mine);
                Ok((cur, None))
            }
            Some(model) => {
                self.forks += 1;
                let mut o = st.clone();
                self.assume(&mut o, other);
                o.model = model;
                self.assume(st, mine);
                Ok((cur, Some(o)))
            }
        }
    }

    /// All assignments of the (few) input bits e depends on that are compatible with the constraints over the
    /// same bits, with the value of e; None if e depends on more than `bits` bits.
    fn assignments(&mut self, st: &State, e: E, bits: u32) -> Option<(Vec<(u32, u8)>, Vec<(u64, u64)>)> {
        let s = self.cx.support(e);
        let n: u32 = s.iter().map(|x| x.1.count_ones()).sum();
        if n > bits {
            return None;
        }
        let mut bl: Vec<(u32, u8)> = vec![];
        for &(v, m) in s.iter() {
            for b in 0..64 {
                if m >> b & 1 == 1 {
                    bl.push((v, b));
                }
            }
        }
        let mut cs = vec![];
        for c in self.constraints(st) {
            let t = self.cx.support(c);
            if t.iter().all(|&(v, m)| s.iter().any(|&(v2, m2)| v2 == v && m & !m2 == 0)) {
                cs.push(c);
            }
        }
        let nv = self.cx.vars.len();
        let mut out = vec![];
        let mut model = vec![0u64; nv];
        for a in 0..(1u64 << n) {
            for (i, &(v, b)) in bl.iter().enumerate() {
                if a >> i & 1 == 1 {
                    model[v as usize] |= 1 << b;
                } else {
                    model[v as usize] &= !(1 << b);
                }
            }
            if cs.iter().all(|&c| self.cx.eval(c, &model) == 1) {
                out.push((a, self.cx.eval(e, &model)));
            }
        }
        Some((bl, out))
    }

    /// Feasible concrete values of e: with an exact enumeration by the solver.
    fn values(&mut self, st: &State, e: E) -> Result<Vec<(u64, Vec<u64>)>, String> {
        let mut out: Vec<(u64, Vec<u64>)> = vec![];
        let w = self.cx.w(e);
        if let Some((bits, left)) = self.left(st, e) {
            // a function of few bits, which only domains restrict: the values are read off its table
            self.by_table += 1;
            let t = self.cx.tab(e).unwrap();
            let pos: Vec<usize> = t.bits.iter().map(|b| bits.iter().position(|x| x == b).unwrap()).collect();
            let mut first: BTreeMap<u64, usize> = BTreeMap::new();
            for (k, &word) in left.iter().enumerate() {
                let mut x = word;
                while x != 0 {
                    let a = k * 64 + x.trailing_zeros() as usize;
                    x &= x - 1;
                    let mut ix = 0;
                    for (i, &p) in pos.iter().enumerate() {
                        ix |= (a >> p & 1) << i;
                    }
                    first.entry(t.vals[ix]).or_insert(a);
                }
            }
            for (v, a) in first {
                out.push((v, Self::with(&st.model, &bits, a)));
            }
            return Ok(out);
        }
        if let Some((_, asg)) = self.assignments(st, e, self.lim.mux_bits) {
            let seen: BTreeSet<u64> = asg.iter().map(|x| x.1).collect();
            for v in seen {
                let c = self.cx.cst(w, v);
                let q = self.cx.bin(Op::Eq, e, c);
                if let Some(m) = self.sat(st, q)? {
                    out.push((v, m));
                }
            }
            return Ok(out);
        }
        let mut probe = st.clone();
        let mut q = self.cx.cst(1, 1);
        loop {
            let m = if out.is_empty() { Some(st.model.clone()) } else { self.sat(&probe, q)? };
            match m {
                None => return Ok(out),
                Some(m) => {
                    let v = self.cx.eval(e, &m);
                    out.push((v, m.clone()));
                    if out.len() > self.lim.max_concretize {
                        return Err(format!("more than {} values for a concretized operand at {}", self.lim.max_concretize, self.where_(st)));
                    }
                    if out.len() > 1 {
                        self.assume(&mut probe, q);
                    }
                    let c = self.cx.cst(w, v);
                    let eq = self.cx.bin(Op::Eq, e, c);
                    q = self.cx.not(eq);
                }
            }
        }
    }

    /// Replace the operand at stack position i by each of its feasible values (one state each).
    fn concretize(&mut self, st: &mut State, i: usize) -> Flow {
        let e = st.stack[i].e;
        let w = self.cx.w(e);
        let vals = match self.values(st, e) {
            Ok(v) => v,
            Err(s) => return self.fail(s),
        };
        self.forks += vals.len().saturating_sub(1) as u64;
        for (v, m) in vals {
            let mut o = st.clone();
            let c = self.cx.cst(w, v);
            let q = self.cx.bin(Op::Eq, e, c);
            self.assume(&mut o, q);
            o.model = m;
            o.stack[i] = cv(v);
            self.work.push(o);
        }
        Flow::Kill
    }

    // ---- values ------------------------------------------------------------------------------------------
    fn ex(&mut self, v: V, w: u8) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.cx.cst(w, v.c)
        }
    }
    fn mk(&mut self, e: E) -> V {
        match self.cx.as_const(e) {
            Some(c) => cv(c),
            None => V { c: 0, e },
        }
    }
    /// width-1 condition of an i32 operand
    fn cond(&mut self, v: V) -> E {
        let v = self.nv(v, 32);
        let e = self.ex(v, 32);
        let z = self.cx.cst(32, 0);
        let q = self.cx.bin(Op::Eq, e, z);
        self.cx.not(q)
    }

    // ---- memory ------------------------------------------------------------------------------------------
    fn load_at(&mut self, st: &State, addr: u64, n: u8) -> Option<V> {
        if addr.checked_add(n as u64)? > st.mem_pages * 65536 {
            return None;
        }
        let (p, o) = ((addr as usize) / PS, (addr as usize) % PS);
        if o + n as usize <= PS {
            match &st.pages[p] {
                None => return Some(cv(0)),
                Some(pg) => {
                    let any = match &pg.s {
                        None => false,
                        Some(s) => s[o..o + n as usize].iter().any(|&x| x != 0),
                    };
                    if !any {
                        let mut b = [0u8; 8];
                        b[..n as usize].copy_from_slice(&pg.d[o..o + n as usize]);
                        return Some(cv(u64::from_le_bytes(b)));
                    }
                }
            }
        }
        let mut r: E = 0;
        for i in 0..n as u64 {
            let (d, s) = st.byte(addr + i);
            let x = if s != 0 { s } else { self.cx.cst(8, d as u64) };
            r = if r == 0 { x } else { self.cx.concat(x, r) };
        }
        Some(self.mk(r))
    }
    fn store_at(&mut self, st: &mut State, addr: u64, n: u8, v: V) -> bool {
        match addr.checked_add(n as u64) {
            Some(e) if e <= st.mem_pages * 65536 => {}
            _ => return false,
        }
        if v.e == 0 {
            let (p, o) = ((addr as usize) / PS, (addr as usize) % PS);
            if o + n as usize <= PS {
                let pg = st.page_mut(p);
                pg.d[o..o + n as usize].copy_from_slice(&v.c.to_le_bytes()[..n as usize]);
                if let Some(s) = &mut pg.s {
                    for x in &mut s[o..o + n as usize] {
                        *x = 0;
                    }
                }
                return true;
            }
            for i in 0..n as u64 {
                st.put(addr + i, (v.c >> (8 * i)) as u8, 0);
            }
        } else {
            for i in 0..n {
                let b = self.cx.extract(v.e, 8 * i, 8);
                match self.cx.as_const(b) {
                    Some(c) => st.put(addr + i as u64, c as u8, 0),
                    None => st.put(addr + i as u64, 0, b),
                }
            }
        }
        true
    }

    /// Load from a symbolic address: a function of the few input bits the address depends on, else fork.
    fn load_sym(&mut self, st: &mut State, ai: usize, off: u64, n: u8) -> Result<Option<V>, Flow> {
        let e = st.stack[ai].e;
        let w = self.cx.w(e);
        let (bl, asg) = match self.assignments(st, e, self.lim.mux_bits) {
            Some(x) => x,
            None => return Err(self.concretize(st, ai)),
        };
        self.muxes += 1;
        let mut cache: HashMap<u64, E> = HashMap::new();
        let mut leaf: Vec<E> = vec![0; 1 << bl.len()];
        for &(a, addr) in &asg {
            let x = if let Some(&x) = cache.get(&addr) {
                x
            } else {
                let x = match addr.checked_add(off).and_then(|t| self.load_at(st, t, n)) {
                    Some(v) => self.ex(v, 8 * n),
                    None => {
                        // out of bounds: is this address feasible at all?
                        let c = self.cx.cst(w, addr);
                        let q = self.cx.bin(Op::Eq, e, c);
                        match self.feasible(st, q) {
                            Ok(Some(_)) => return Err(self.concretize(st, ai)),
                            Ok(None) => 0,
                            Err(s) => return Err(self.fail(s)),
                        }
                    }
                };
                cache.insert(addr, x);
                x
            };
            leaf[a as usize] = x;
        }
        // assignments excluded by the path condition are don't-cares: reuse a neighbour's value
        let any = match leaf.iter().find(|&&x| x != 0) {
            Some(&x) => x,
            None => return Err(self.fail("symbolic load with no feasible address".into())),
        };
        let mut lastv = any;
        for x in leaf.iter_mut() {
            if *x == 0 {
                *x = lastv;
            } else {
                lastv = *x;
            }
        }
        let vals: Option<Vec<u64>> = leaf.iter().map(|&x| self.cx.as_const(x)).collect();
        let r = match vals {
            Some(v) if bl.len() <= self.cx.tab_max => self.cx.mk_tab(8 * n, &bl, v),
            _ => self.tree(&bl, &leaf, bl.len(), 0),
        };
        Ok(Some(self.mk(r)))
    }
    /// decision tree over input bits, from the last one down
    fn tree(&mut self, bl: &[(u32, u8)], leaf: &[E], k: usize, prefix: usize) -> E {
        if k == 0 {
            return leaf[prefix];
        }
        let lo = self.tree(bl, leaf, k - 1, prefix);
        let hi = self.tree(bl, leaf, k - 1, prefix | 1 << (k - 1));
        let (v, b) = bl[k - 1];
        let ve = self.cx.var_expr(v);
        let c = self.cx.extract(ve, b, 1);
        self.cx.ite(c, hi, lo)
    }

    fn store_sym(&mut self, st: &mut State, ai: usize, off: u64, n: u8, val: V) -> Result<(), Flow> {
        let e = st.stack[ai].e;
        let w = self.cx.w(e);
        let asg = match self.assignments(st, e, self.lim.mux_bits) {
            Some((_, x)) => x,
            None => return Err(self.concretize(st, ai)),
        };
        let addrs: BTreeSet<u64> = asg.iter().map(|x| x.1).collect();
        let oob = addrs
            .iter()
            .any(|a| a.checked_add(off).and_then(|t| t.checked_add(n as u64)).map_or(true, |t| t > st.mem_pages * 65536));
        if addrs.len() > 64 || oob {
            return Err(self.concretize(st, ai));
        }
        let ve = self.ex(val, 8 * n);
        for a in addrs {
            let c = self.cx.cst(w, a);
            let q = self.cx.bin(Op::Eq, e, c);
            let old = self.load_at(st, a + off, n).unwrap();
            let oe = self.ex(old, 8 * n);
            let x = self.cx.ite(q, ve, oe);
            let v = self.mk(x);
            self.store_at(st, a + off, n, v);
        }
        Ok(())
    }

    fn rd_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n {
            s.push(st.byte(p + i).0);
        }
        String::from_utf8_lossy(&s).to_string()
    }

    // ---- main loop ---------------------------------------------------------------------------------------
    fn path(&mut self, st: &mut State) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.lim.max_seconds {
                self.error = Some(format!("time limit of {} s at {}", self.lim.max_seconds, self.where_(st)));
                return;
            }
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.max_steps {
                self.error = Some(format!("step bound {} exceeded at {}", self.lim.max_steps, self.where_(st)));
                return;
            }
            match self.step(st) {
                Flow::Next => {
                    let f = st.frames.last_mut().unwrap();
                    f.pc = f.pc.wrapping_add(1);
                    if let Some(t) = &mut st.thr {
                        t.noted = false;
                    }
                }
                Flow::Jump => {}
                Flow::EndPath => return,
                Flow::Kill => return,
            }
            if self.error.is_some() {
                return;
            }
        }
    }

    fn branch(&self, st: &mut State, target: u32, height: u32, arity: u32) {
        let fr = st.frames.last_mut().unwrap();
        let h = (fr.opbase + height) as usize;
        fr.pc = target;
        let n = st.stack.len();
        let a = arity as usize;
        if n - a != h {
            for i in 0..a {
                st.stack[h + i] = st.stack[n - a + i];
            }
            st.stack.truncate(h + a);
        }
    }

    fn enter(&mut self, st: &mut State, f: u32) -> Flow {
        let fun = &self.m.funcs[f as usize];
        self.funcs_hit[f as usize] += 1;
        if fun.name.ends_with("rust_begin_unwind") {
            // a panic: it never returns, and what is left is building the message
            if st.expect_trap {
                return self.trap(st, "panic");
            }
            // one concrete run suffices to learn where
            for id in 0..self.cx.vars.len() as u32 {
                let v = self.cx.var_expr(id);
                let c = self.cx.cst(self.cx.w(v), st.model.get(id as usize).copied().unwrap_or(0));
                let q = self.cx.bin(Op::Eq, v, c);
                self.assume(st, q);
            }
        }
        let base = st.stack.len() - fun.nparams as usize;
        st.stack.resize(base + fun.nlocals as usize, cv(0));
        let opbase = st.stack.len() as u32;
        if st.frames.len() > 5000 {
            return self.fail("call depth".into());
        }
        st.frames.push(Frame { func: f, pc: 0, base: base as u32, opbase });
        Flow::Jump
    }

    fn step(&mut self, st: &mut State) -> Flow {
        let fr = st.frames.last().unwrap();
        let m: &'m Module = self.m;
        let fun = &m.funcs[fr.func as usize];
        let i = fun.code[fr.pc as usize];
        let base = fr.base as usize;
        macro_rules! pop {
            () => {
                st.stack.pop().unwrap()
            };
        }
        macro_rules! push {
            ($v:expr) => {{
                let v = $v;
                st.stack.push(v)
            }};
        }
        match i.op {
            op::LGET => {
                let v = st.stack[base + i.a as usize];
                push!(v);
            }
            op::LSET => {
                let v = pop!();
                st.stack[base + i.a as usize] = v;
            }
            op::LTEE => {
                let v = *st.stack.last().unwrap();
                st.stack[base + i.a as usize] = v;
            }
            op::GGET => push!(st.globals[i.a as usize]),
            op::GSET => {
                let v = pop!();
                st.globals[i.a as usize] = v;
            }
            op::CONST => push!(cv(i.imm)),
            op::DROP => {
                pop!();
            }
            op::BR => {
                self.branch(st, i.a, i.b, i.imm as u32);
                return Flow::Jump;
            }
            op::BR_IF | op::BR_IFZ => {
                let v = pop!();
                let want = i.op == op::BR_IF;
                let taken = if v.e == 0 {
                    (v.c as u32 != 0) == want
                } else {
                    self.sym_steps += 1;
                    let c = self.cond(v);
                    match self.decide(st, c) {
                        Err(s) => return self.fail(s),
                        Ok((b, other)) => {
                            if let Some(mut o) = other {
                                if (!b) == want {
                                    self.branch(&mut o, i.a, i.b, i.imm as u32);
                                } else {
                                    o.frames.last_mut().unwrap().pc += 1;
                                }
                                self.work.push(o);
                            }
                            b == want
                        }
                    }
                };
                if taken {
                    self.branch(st, i.a, i.b, i.imm as u32);
                    return Flow::Jump;
                }
            }
            op::BR_TABLE => {
                let t = &fun.tables[i.a as usize];
                let v = *st.stack.last().unwrap();
                let v = self.nv(v, 32);
                if v.e == 0 {
                    pop!();
                    let x = (v.c as u32 as usize).min(t.len() - 1);
                    let b = t[x];
                    self.branch(st, b.target, b.height, b.arity);
                    return Flow::Jump;
                }
                // group by target
                self.sym_steps += 1;
                pop!();
                self.branches += 1;
                let mut groups: Vec<(BrT, Vec<usize>)> = vec![];
                for (x, b) in t.iter().enumerate() {
                    match groups.iter_mut().find(|g| g.0.target == b.target && g.0.height == b.height) {
                        Some(g) => g.1.push(x),
                        None => groups.push((*b, vec![x])),
                    }
                }
                let d = t.len() - 1;
                let mut any = 0u64;
                for (b, xs) in groups {
                    let mut q = self.cx.cst(1, 0);
                    for x in xs {
                        let r = if x == d {
                            let c = self.cx.cst(32, d as u64);
                            let l = self.cx.bin(Op::Ult, v.e, c);
                            self.cx.not(l)
                        } else {
                            let c = self.cx.cst(32, x as u64);
                            self.cx.bin(Op::Eq, v.e, c)
                        };
                        q = self.cx.bin(Op::Or, q, r);
                    }
                    match self.feasible(st, q) {
                        Err(s) => return self.fail(s),
                        Ok(None) => {}
                        Ok(Some(model)) => {
                            let mut o = st.clone();
                            self.assume(&mut o, q);
                            o.model = model;
                            self.branch(&mut o, b.target, b.height, b.arity);
                            self.work.push(o);
                            any += 1;
                        }
                    }
                }
                self.forks += any.saturating_sub(1);
                return Flow::Kill;
            }
            op::RET => {
                let nr = fun.nresults as usize;
                let n = st.stack.len();
                for k in 0..nr {
                    st.stack[base + k] = st.stack[n - nr + k];
                }
                st.stack.truncate(base + nr);
                st.frames.pop();
                match st.frames.last_mut() {
                    None => {
                        if st.thr.as_ref().map_or(false, |t| t.cur == 1) {
                            return self.give_way(st, Wait::Done);
                        }
                        self.finish(st, "returned");
                        return Flow::EndPath;
                    }
                    Some(f) => {
                        f.pc = f.pc.wrapping_add(1);
                        return Flow::Jump;
                    }
                }
            }
            op::CALL => {
                let nimp = m.imports.len() as u32;
                if i.a < nimp {
                    return self.import(st, i.a);
                }
                return self.enter(st, i.a - nimp);
            }
            op::CALL_IND => {
                let n = st.stack.len() - 1;
                if st.stack[n].e != 0 {
                    return self.concretize(st, n);
                }
                let x = pop!().c as usize;
                let f = match m.table.get(x).copied().flatten() {
                    Some(f) => f,
                    None => return self.trap(st, "call_indirect"),
                };
                let nimp = m.imports.len() as u32;
                if f < nimp {
                    return self.import(st, f);
                }
                let g = f - nimp;
                if m.types[m.funcs[g as usize].ty as usize] != m.types[i.a as usize] {
                    return self.trap(st, "call_indirect signature");
                }
                return self.enter(st, g);
            }
            op::UNREACHABLE => return self.trap(st, "unreachable"),
            op::SELECT => {
                let c = pop!();
                let b = pop!();
                let a = pop!();
                if c.e == 0 {
                    push!(if c.c as u32 != 0 { a } else { b });
                } else if a.e == 0 && b.e == 0 && a.c == b.c {
                    push!(a);
                } else {
                    let q = self.cond(c);
                    // the width is known from a symbolic operand, otherwise chosen to hold both constants
                    let w = if a.e != 0 {
                        self.cx.w(a.e)
                    } else if b.e != 0 {
                        self.cx.w(b.e)
                    } else {
                        0
                    };
                    if w == 0 {
                        // ambiguous width: represent as 64-bit, truncated on use
                        let x = self.cx.cst(64, a.c);
                        let y = self.cx.cst(64, b.c);
                        let r = self.cx.ite(q, x, y);
                        let v = self.mk(r);
                        push!(v);
                    } else {
                        let x = self.ex(a, w);
                        let y = self.ex(b, w);
                        let r = self.cx.ite(q, x, y);
                        let v = self.mk(r);
                        push!(v);
                    }
                }
            }
            0x28..=0x35 => {
                let (n, signed, rw): (u8, bool, u8) = match i.op {
                    0x28 | 0x2a => (4, false, 32),
                    0x29 | 0x2b => (8, false, 64),
                    0x2c => (1, true, 32),
                    0x2d => (1, false, 32),
                    0x2e => (2, true, 32),
                    0x2f => (2, false, 32),
                    0x30 => (1, true, 64),
                    0x31 => (1, false, 64),
                    0x32 => (2, true, 64),
                    0x33 => (2, false, 64),
                    0x34 => (4, true, 64),
                    _ => (4, false, 64),
                };
                let ai = st.stack.len() - 1;
                let a = st.stack[ai];
                if st.thr.is_some() && self.is_shared(st, a, i.imm) && self.switch_point(st) {
                    return Flow::Jump;
                }
                let v = if a.e == 0 {
                    a.c.checked_add(i.imm).and_then(|t| self.load_at(st, t, n))
                } else {
                    self.sym_steps += 1;
                    self.norm(st, ai, 64);
                    match self.load_sym(st, ai, i.imm, n) {
                        Ok(v) => v,
                        Err(f) => return f,
                    }
                };
                let v = match v {
                    Some(v) => v,
                    None => return self.trap(st, "out of bounds load"),
                };
                pop!();
                let r = if v.e == 0 {
                    cv(if signed { sx(v.c, 8 * n) as u64 & mask(rw) } else { v.c })
                } else {
                    let e = if signed { self.cx.sext(v.e, rw) } else { self.cx.zext(v.e, rw) };
                    self.mk(e)
                };
                push!(r);
            }
            0x36..=0x3e => {
                let n: u8 = match i.op {
                    0x36 | 0x38 => 4,
                    0x37 | 0x39 => 8,
                    0x3a => 1,
                    0x3b => 2,
                    0x3c => 1,
                    0x3d => 2,
                    _ => 4,
                };
                let l = st.stack.len();
                let mut v = st.stack[l - 1];
                let a = st.stack[l - 2];
                if st.thr.is_some() && self.is_shared(st, a, i.imm) && self.switch_point(st) {
                    return Flow::Jump;
                }
                if v.e != 0 && self.cx.w(v.e) > 8 * n {
                    let x = self.cx.extract(v.e, 0, 8 * n);
                    v = self.mk(x);
                }
                if v.e == 0 {
                    v.c &= mask(8 * n);
                }
                if a.e != 0 {
                    self.sym_steps += 1;
                    self.norm(st, l - 2, 64);
                    if let Err(f) = self.store_sym(st, l - 2, i.imm, n, v) {
                        return f;
                    }
                } else {
                    let ok = match a.c.checked_add(i.imm) {
                        Some(t) => self.store_at(st, t, n, v),
                        None => false,
                    };
                    if !ok {
                        return self.trap(st, "out of bounds store");
                    }
                }
                st.stack.truncate(l - 2);
            }
            op::MSIZE => push!(cv(st.mem_pages)),
            op::MGROW => {
                let v = pop!();
                if v.e != 0 {
                    return self.fail("symbolic memory.grow".into());
                }
                let old = st.mem_pages;
                if old + v.c > 65536 {
                    push!(cv(!0));
                } else {
                    st.mem_pages += v.c;
                    st.pages.resize((st.mem_pages as usize) * (65536 / PS), None);
                    push!(cv(old));
                }
            }
            op::MCOPY | op::MFILL => {
                let l = st.stack.len();
                for k in [l - 1, l - 3] {
                    if st.stack[k].e != 0 {
                        return self.concretize(st, k);
                    }
                }
                if i.op == op::MCOPY && st.stack[l - 2].e != 0 {
                    return self.concretize(st, l - 2);
                }
                let n = st.stack[l - 1].c;
                let s = st.stack[l - 2];
                let d = st.stack[l - 3].c;
                let lim = st.mem_pages * 65536;
                let bad = |x: u64| x.checked_add(n).map_or(true, |t| t > lim);
                if bad(d) || (i.op == op::MCOPY && bad(s.c)) {
                    return self.trap(st, "out of bounds memory.copy/fill");
                }
                if i.op == op::MFILL {
                    let b = if s.e != 0 { self.cx.extract(s.e, 0, 8) } else { 0 };
                    for k in 0..n {
                        st.put(d + k, s.c as u8, b);
                    }
                } else if d <= s.c {
                    for k in 0..n {
                        let (b, e) = st.byte(s.c + k);
                        st.put(d + k, b, e);
                    }
                } else {
                    for k in (0..n).rev() {
                        let (b, e) = st.byte(s.c + k);
                        st.put(d + k, b, e);
                    }
                }
                st.stack.truncate(l - 3);
            }
            op::MINIT => {
                let l = st.stack.len();
                let (d, s, n) = (st.stack[l - 3].c, st.stack[l - 2].c as usize, st.stack[l - 1].c as usize);
                let seg = &m.data[i.a as usize];
                if s + n > seg.1.len() || d + n as u64 > st.mem_pages * 65536 {
                    return self.trap(st, "out of bounds memory.init");
                }
                self.placed.insert(i.a as usize, d);
                for k in 0..n {
                    st.put(d + k as u64, seg.1[s + k], 0);
                }
                st.stack.truncate(l - 3);
            }
            op::DDROP => {}
            _ if i.op >= op::ATOMIC => return self.atomic(st, i),
            _ => return self.numeric(st, i),
        }
        Flow::Next
    }
    fn atomic(&mut self, st: &mut State, i: Ins) -> Flow {
        let s = i.op - op::ATOMIC;
        let nargs = match s {
            0x00 => 2,
            0x01 | 0x02 => 3,
            0x10..=0x16 => 1,
            0x17..=0x47 => 2,
            _ => 3,
        };
        let l = st.stack.len();
        let to = st.stack[l - nargs];
        if self.alloc_lock.is_none() && self.alloc[st.frames.last().unwrap().func as usize] {
            self.alloc_lock = Some(to.c.wrapping_add(i.imm));
        }
        if st.thr.is_some() && (to.e != 0 || Some(to.c.wrapping_add(i.imm)) != self.alloc_lock) && self.switch_point(st) {
            return Flow::Jump;
        }
        if to.e != 0 {
            return self.concretize(st, l - nargs);
        }
        let a = match st.stack[l - nargs].c.checked_add(i.imm) {
            Some(a) => a,
            None => return self.trap(st, "out of bounds atomic access"),
        };
        let args: Vec<V> = st.stack[l - nargs + 1..].to_vec();
        // (bytes, width of the value) of the seven access shapes
        const SHAPE: [(u8, u8); 7] = [(4, 32), (8, 64), (1, 32), (2, 32), (1, 64), (2, 64), (4, 64)];
        let (n, w) = match s {
            0x10..=0x4e => SHAPE[(s as usize - 0x10) % 7],
            0x02 => (8, 64),
            _ => (4, 32),
        };
        if a % n as u64 != 0 {
            return self.trap(st, "unaligned atomic access");
        }
        if s == 0 {
            let mut woken = 0;
            if let Some(t) = &mut st.thr {
                if t.other.wait == Wait::Memory(a) && args[0].c as u32 != 0 {
                    t.other.wait = Wait::Ready;
                    woken = 1;
                }
            }
            st.stack.truncate(l - nargs);
            st.stack.push(cv(woken));
            return Flow::Next;
        }
        let old = match self.load_at(st, a, n) {
            Some(v) => v,
            None => return self.trap(st, "out of bounds atomic access"),
        };
        if s <= 2 {
            if old.e != 0 || args[0].e != 0 || args[1].e != 0 {
                return self.fail("a thread waits on a symbolic value".into());
            }
            st.stack.truncate(l - nargs);
            if old.c != args[0].c & mask(w) {
                st.stack.push(cv(1));
                return Flow::Next;
            }
            let f = st.frames.last_mut().unwrap();
            f.pc += 1;
            if args[1].c as i64 >= 0 {
                // a wait that ends by itself
                st.stack.push(cv(2));
                if st.thr.as_ref().map_or(false, |t| t.other.wait == Wait::Ready) {
                    Self::switch(st, Wait::Ready);
                }
                return Flow::Jump;
            }
            st.stack.push(cv(0));
            return self.give_way(st, Wait::Memory(a));
        }
        let narrow = |me: &mut Self, v: V| -> V {
            if v.e == 0 {
                cv(v.c & mask(8 * n))
            } else if me.cx.w(v.e) > 8 * n {
                let x = me.cx.extract(v.e, 0, 8 * n);
                me.mk(x)
            } else {
                v
            }
        };
        let new = match s {
            0x10..=0x16 => None,
            0x17..=0x1d => Some(narrow(self, args[0])),
            0x1e..=0x47 => {
                let x = narrow(self, args[0]);
                let (p, q) = (self.ex(old, 8 * n), self.ex(x, 8 * n));
                let r = match (s - 0x1e) / 7 {
                    5 => q,
                    0 => self.cx.bin(Op::Add, p, q),
                    1 => self.cx.bin(Op::Sub, p, q),
                    2 => self.cx.bin(Op::And, p, q),
                    3 => self.cx.bin(Op::Or, p, q),
                    4 => self.cx.bin(Op::Xor, p, q),
                    _ => q,
                };
                Some(self.mk(r))
            }
            _ => {
                let (x, y) = (narrow(self, args[0]), narrow(self, args[1]));
                let (p, q, z) = (self.ex(old, 8 * n), self.ex(x, 8 * n), self.ex(y, 8 * n));
                let c = self.cx.bin(Op::Eq, p, q);
                let r = self.cx.ite(c, z, p);
                Some(self.mk(r))
            }
        };
        if let Some(v) = new {
            self.store_at(st, a, n, v);
        }
        st.stack.truncate(l - nargs);
        if !matches!(s, 0x17..=0x1d) {
            let e = self.ex(old, 8 * n);
            let e = self.cx.zext(e, w);
            let v = self.mk(e);
            st.stack.push(v);
        }
        Flow::Next
    }

    /// Normalise the width of a symbolic operand (constants chosen by `select` may be wider than their type).
    fn norm(&mut self, st: &mut State, k: usize, w: u8) {
        let e = st.stack[k].e;
        if e != 0 && self.cx.w(e) > w {
            let x = self.cx.extract(e, 0, w);
            st.stack[k] = self.mk(x);
        }
    }
    fn nv(&mut self, v: V, w: u8) -> V {
        if v.e != 0 {
            let we = self.cx.w(v.e);
            if we > w {
                let x = self.cx.extract(v.e, 0, w);
                return self.mk(x);
            }
            assert_eq!(we, w);
        }
        v
    }

    fn numeric(&mut self, st: &mut State, i: Ins) -> Flow {
        let o = i.op;
        match o {
            // eqz
            0x45 | 0x50 => {
                let v = st.stack.pop().unwrap();
                let w = if o == 0x45 { 32 } else { 64 };
                let v = self.nv(v, w);
                let r = if v.e == 0 {
                    cv((v.c == 0) as u64)
                } else {
                    let z = self.cx.cst(w, 0);
                    let q = self.cx.bin(Op::Eq, v.e, z);
                    let x = self.cx.zext(q, 32);
                    self.mk(x)
                };
                st.stack.push(r);
            }
            // comparisons
            0x46..=0x4f | 0x51..=0x5a => {
                let (w, k) = if o < 0x50 { (32u8, o - 0x46) } else { (64u8, o - 0x51) };
                let b = st.stack.pop().unwrap();
                let a = st.stack.pop().unwrap();
                let (a, b) = (self.nv(a, w), self.nv(b, w));
                if a.e == 0 && b.e == 0 {
                    let (x, y) = (a.c, b.c);
                    let (sa, sb) = (sx(x, w), sx(y, w));
                    let r = match k {
                        0 => x == y,
                        1 => x != y,
                        2 => sa < sb,
                        3 => x < y,
                        4 => sa > sb,
                        5 => x > y,
                        6 => sa <= sb,
                        7 => x <= y,
                        8 => sa >= sb,
                        _ => x >= y,
                    };
                    st.stack.push(cv(r as u64));
                } else {
                    self.sym_steps += 1;
                    let x = self.ex(a, w);
                    let y = self.ex(b, w);
                    let cx = &mut self.cx;
                    let q = match k {
                        0 => cx.bin(Op::Eq, x, y),
                        1 => {
                            let t = cx.bin(Op::Eq, x, y);
                            cx.not(t)
                        }
                        2 => cx.bin(Op::Slt, x, y),
                        3 => cx.bin(Op::Ult, x, y),
                        4 => cx.bin(Op::Slt, y, x),
                        5 => cx.bin(Op::Ult, y, x),
                        6 => {
                            let t = cx.bin(Op::Slt, y, x);
                            cx.not(t)
                        }
                        7 => {
                            let t = cx.bin(Op::Ult, y, x);
                            cx.not(t)
                        }
                        8 => {
                            let t = cx.bin(Op::Slt, x, y);
                            cx.not(t)
                        }
                        _ => {
                            let t = cx.bin(Op::Ult, x, y);
                            cx.not(t)
                        }
                    };
                    let r = cx.zext(q, 32);
                    let v = self.mk(r);
                    st.stack.push(v);
                }
            }
            // clz ctz popcnt
            0x67..=0x69 | 0x79..=0x7b => {
                let (w, k) = if o < 0x79 { (32u8, o - 0x67) } else { (64u8, o - 0x79) };
                let v = st.stack.pop().unwrap();
                let v = self.nv(v, w);
                let r = if v.e == 0 {
                    cv(match k {
                        0 => (v.c.leading_zeros() - (64 - w as u32)) as u64,
                        1 => (v.c.trailing_zeros().min(w as u32)) as u64,
                        _ => v.c.count_ones() as u64,
                    })
                } else {
                    self.sym_steps += 1;
                    let e = v.e;
                    let mut r;
                    match k {
                        0 => {
                            r = self.cx.cst(w, w as u64);
                            for b in 0..w {
                                let t = self.cx.extract(e, b, 1);
                                let n = self.cx.cst(w, (w - 1 - b) as u64);
                                r = self.cx.ite(t, n, r);
                            }
                        }
                        1 => {
                            r = self.cx.cst(w, w as u64);
                            for b in (0..w).rev() {
                                let t = self.cx.extract(e, b, 1);
                                let n = self.cx.cst(w, b as u64);
                                r = self.cx.ite(t, n, r);
                            }
                        }
                        _ => {
                            r = self.cx.cst(w, 0);
                            for b in 0..w {
                                let t = self.cx.extract(e, b, 1);
                                let t = self.cx.zext(t, w);
                                r = self.cx.bin(Op::Add, r, t);
                            }
                        }
                    }
                    self.mk(r)
                };
                st.stack.push(r);
            }
            // binary integer arithmetic
            0x6a..=0x78 | 0x7c..=0x8a => {
                let (w, k) = if o < 0x7c { (32u8, o - 0x6a) } else { (64u8, o - 0x7c) };
                let n = st.stack.len();
                let (b, a) = (st.stack[n - 1], st.stack[n - 2]);
                let (a, b) = (self.nv(a, w), self.nv(b, w));
                let m = mask(w);
                if a.e == 0 && b.e == 0 {
                    let (x, y) = (a.c, b.c);
                    let sh = (y % w as u64) as u32;
                    let r = match k {
                        0 => x.wrapping_add(y),
                        1 => x.wrapping_sub(y),
                        2 => x.wrapping_mul(y),
                        3 | 4 | 5 | 6 => {
                            if y == 0 {
                                return self.trap(st, "division by zero");
                            }
                            let (sa, sb) = (sx(x, w), sx(y, w));
                            match k {
                                3 => {
                                    if sb == -1 && sa == sx(1u64 << (w - 1), w) {
                                        return self.trap(st, "division overflow");
                                    }
                                    (sa / sb) as u64
                                }
                                4 => x / y,
                                5 => sa.wrapping_rem(sb) as u64,
                                _ => x % y,
                            }
                        }
                        7 => x & y,
                        8 => x | y,
                        9 => x ^ y,
                        10 => x << sh,
                        11 => (sx(x, w) >> sh) as u64,
                        12 => x >> sh,
                        13 => {
                            if w == 32 {
                                (x as u32).rotate_left(sh) as u64
                            } else {
                                x.rotate_left(sh)
                            }
                        }
                        _ => {
                            if w == 32 {
                                (x as u32).rotate_right(sh) as u64
                            } else {
                                x.rotate_right(sh)
                            }
                        }
                    };
                    st.stack.truncate(n - 2);
                    st.stack.push(cv(r & m));
                    return Flow::Next;
                }
                self.sym_steps += 1;
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                if (3..=6).contains(&k) {
                    // zero divisor (and signed overflow) are traps
                    let z = self.cx.cst(w, 0);
                    let mut bad = self.cx.bin(Op::Eq, y, z);
                    if k == 3 {
                        let mn = self.cx.cst(w, 1u64 << (w - 1));
                        let mo = self.cx.cst(w, m);
                        let q1 = self.cx.bin(Op::Eq, x, mn);
                        let q2 = self.cx.bin(Op::Eq, y, mo);
                        let q = self.cx.bin(Op::And, q1, q2);
                        bad = self.cx.bin(Op::Or, bad, q);
                    }
                    match self.decide(st, bad) {
                        Err(s) => return self.fail(s),
                        Ok((b, other)) => {
                            if b {
                                if let Some(o) = other {
                                    self.work.push(o); // re-executes with the divisor non-zero
                                }
                                return self.trap(st, "division by zero");
                            }
                            if let Some(o) = other {
                                self.trap(&o, "division by zero");
                            }
                        }
                    }
                }
                let cx = &mut self.cx;
                let r = match k {
                    0 => cx.bin(Op::Add, x, y),
                    1 => cx.bin(Op::Sub, x, y),
                    2 => cx.bin(Op::Mul, x, y),
                    3 => cx.bin(Op::SDiv, x, y),
                    4 => cx.bin(Op::UDiv, x, y),
                    5 => cx.bin(Op::SRem, x, y),
                    6 => cx.bin(Op::URem, x, y),
                    7 => cx.bin(Op::And, x, y),
                    8 => cx.bin(Op::Or, x, y),
                    9 => cx.bin(Op::Xor, x, y),
                    _ => {
                        let wm = cx.cst(w, w as u64 - 1);
                        let s = cx.bin(Op::And, y, wm);
                        match k {
                            10 => cx.bin(Op::Shl, x, s),
                            11 => cx.bin(Op::AShr, x, s),
                            12 => cx.bin(Op::LShr, x, s),
                            _ => {
                                let ng = cx.cst(w, 0);
                                let t = cx.bin(Op::Sub, ng, s);
                                let t = cx.bin(Op::And, t, wm);
                                let (l, r) = if k == 13 { (s, t) } else { (t, s) };
                                let p = cx.bin(Op::Shl, x, l);
                                let q = cx.bin(Op::LShr, x, r);
                                cx.bin(Op::Or, p, q)
                            }
                        }
                    }
                };
                st.stack.truncate(n - 2);
                let v = self.mk(r);
                st.stack.push(v);
            }
            0xa7 => {
                let v = st.stack.pop().unwrap();
                let r = if v.e == 0 {
                    cv(v.c & mask(32))
                } else {
                    let x = self.cx.extract(v.e, 0, 32);
                    self.mk(x)
                };
                st.stack.push(r);
            }
            0xac | 0xad => {
                let v = st.stack.pop().unwrap();
                let v = self.nv(v, 32);
                let r = if v.e == 0 {
                    cv(if o == 0xac { sx(v.c, 32) as u64 } else { v.c })
                } else {
                    let x = if o == 0xac { self.cx.sext(v.e, 64) } else { self.cx.zext(v.e, 64) };
                    self.mk(x)
                };
                st.stack.push(r);
            }
            0xc0..=0xc4 => {
                let (w, n): (u8, u8) = match o {
                    0xc0 => (32, 8),
                    0xc1 => (32, 16),
                    0xc2 => (64, 8),
                    0xc3 => (64, 16),
                    _ => (64, 32),
                };
                let v = st.stack.pop().unwrap();
                let r = if v.e == 0 {
                    cv(sx(v.c & mask(n), n) as u64 & mask(w))
                } else {
                    let x = self.cx.extract(v.e, 0, n);
                    let x = self.cx.sext(x, w);
                    self.mk(x)
                };
                st.stack.push(r);
            }
            _ => {
                let w = self.where_(st);
                return self.fail(format!("unsupported wasm instruction {:#x} at {}", o, w));
            }
        }
        Flow::Next
    }

    /// Where statics that can change are: all of the module's data but read-only data and the main thread's locals.
    fn statics(&self, st: &State) -> Vec<(u64, u64)> {
        let g = |n: &str| self.export(n, 3).map(|i| st.globals[i as usize].c);
        let (Some(lo), Some(hi)) = (g("__global_base").or(Some(1 << 20)), g("__heap_base")) else { return vec![] };
        let mut out = vec![(lo, hi)];
        let mut cut = |a: u64, b: u64| {
            let mut r = vec![];
            for &(x, y) in &out {
                if b <= x || y <= a {
                    r.push((x, y));
                } else {
                    if x < a {
                        r.push((x, a));
                    }
                    if b < y {
                        r.push((b, y));
                    }
                }
            }
            out = r;
        };
        for (k, (_, d)) in self.m.data.iter().enumerate() {
            if self.m.data_names.get(k).map_or(false, |n| n.starts_with(".rodata")) {
                if let Some(&a) = self.placed.get(&k) {
                    cut(a, a + d.len() as u64);
                }
            }
        }
        if let (Some(a), Some(n)) = (g("__tls_base"), g("__tls_size")) {
            cut(a, a + n);
        }
        out
    }

    fn import(&mut self, st: &mut State, f: u32) -> Flow {
        let imp = &self.m.imports[f as usize];
        let ty = &self.m.types[imp.ty as usize];
        let na = ty.params.len();
        let n = st.stack.len();
        let args: Vec<V> = st.stack[n - na..].to_vec();
        macro_rules! conc {
            ($k:expr) => {{
                if args[$k].e != 0 {
                    return self.concretize(st, n - na + $k);
                }
                args[$k].c
            }};
        }
        let mut ret: Option<V> = None;
        match imp.name.as_str() {
            "vp_sym" => {
                let bits = conc!(0) as u8;
                assert!(bits >= 1 && bits <= 64);
                let ord = st.inputs.len() as u32;
                let e = match &self.fixed {
                    None => self.cx.var(ord, bits),
                    Some(f) => {
                        let x = f.get(ord as usize).copied().unwrap_or(0);
                        self.cx.cst(bits, x & mask(bits))
                    }
                };
                st.inputs.push(e);
                st.inputs_of.push(st.thr.as_ref().map_or(0, |t| t.cur));
                while st.model.len() < self.cx.vars.len() {
                    st.model.push(0);
                }
                let z = self.cx.zext(e, 64);
                ret = Some(self.mk(z));
            }
            "vp_assume" => {
                let v = args[0];
                if v.e == 0 {
                    if v.c as u32 == 0 {
                        self.pruned += 1;
                        return Flow::Kill;
                    }
                } else {
                    let c = self.cond(v);
                    match self.known_truth(st, c) {
                        Some(true) => {}
                        Some(false) => {
                            self.pruned += 1;
                            return Flow::Kill;
                        }
                        None => {
                            if self.cx.eval(c, &st.model) != 1 {
                                match self.sat(st, c) {
                                    Err(s) => return self.fail(s),
                                    Ok(None) => {
                                        self.pruned += 1;
                                        return Flow::Kill;
                                    }
                                    Ok(Some(m)) => st.model = m,
                                }
                            }
                            self.assume(st, c);
                        }
                    }
                }
            }
            "vp_assert" => {
                let p = conc!(1);
                let l = conc!(2);
                let msg = self.rd_str(st, p, l);
                let v = args[0];
                self.asserts.entry(msg.clone()).or_default().reached += 1;
                if v.e == 0 {
                    if v.c as u32 == 0 {
                        self.asserts.get_mut(&msg).unwrap().violated += 1;
                        let m = st.model.clone();
                        self.violation(st, "assert", &msg, &m);
                        self.finish(st, "violated");
                        return Flow::EndPath;
                    }
                    self.asserts.get_mut(&msg).unwrap().trivial += 1;
                } else {
                    let c = self.cond(v);
                    let nc = self.cx.not(c);
                    match self.known_truth(st, c) {
                        Some(true) => self.asserts.get_mut(&msg).unwrap().trivial += 1,
                        _ => match self.sat(st, nc) {
                            Err(s) => return self.fail(format!("{} on assertion: {}", s, msg)),
                            Ok(None) => {
                                self.asserts.get_mut(&msg).unwrap().discharged += 1;
                            }
                            Ok(Some(m)) => {
                                self.asserts.get_mut(&msg).unwrap().violated += 1;
                                self.violation(st, "assert", &msg, &m);
                                // go on with the assertion assumed, if that is possible
                                match self.sat(st, c) {
                                    Err(s) => return self.fail(s),
                                    Ok(None) => {
                                        self.finish(st, "violated");
                                        return Flow::EndPath;
                                    }
                                    Ok(Some(m)) => {
                                        st.model = m;
                                        self.assume(st, c);
                                    }
                                }
                            }
                        },
                    }
                }
            }
            "vp_assert_eq" => {
                let p = conc!(2);
                let l = conc!(3);
                let msg = self.rd_str(st, p, l);
                self.asserts.entry(msg.clone()).or_default().reached += 1;
                let a = self.nv(args[0], 64);
                let b = self.nv(args[1], 64);
                if a.e == 0 && b.e == 0 {
                    if a.c != b.c {
                        self.asserts.get_mut(&msg).unwrap().violated += 1;
                        let m = st.model.clone();
                        self.violation(st, "assert", &msg, &m);
                        self.finish(st, "violated");
                        return Flow::EndPath;
                    }
                    self.asserts.get_mut(&msg).unwrap().trivial += 1;
                } else {
                    let (ea, eb) = (self.ex(a, 64), self.ex(b, 64));
                    let ne = self.cx.ne_raw(ea, eb);
                    match self.sat(st, ne) {
                        Err(s) => return self.fail(format!("{} on assertion: {}", s, msg)),
                        Ok(None) => {
                            self.asserts.get_mut(&msg).unwrap().discharged += 1;
                        }
                        Ok(Some(m)) => {
                            self.asserts.get_mut(&msg).unwrap().violated += 1;
                            self.violation(st, "assert", &msg, &m);
                            let c = self.cx.bin(Op::Eq, ea, eb);
                            match self.sat(st, c) {
                                Err(s) => return self.fail(s),
                                Ok(None) => {
                                    self.finish(st, "violated");
                                    return Flow::EndPath;
                                }
                                Ok(Some(m)) => {
                                    st.model = m;
                                    self.assume(st, c);
                                }
                            }
                        }
                    }
                }
            }
            "vp_mode" => ret = Some(cv(self.mode)),
            "vp_spawn" => {
                // (top of its stack, its block of thread-local storage, argument of vp_thread_main)
                let (sp, tls, arg) = (conc!(0), conc!(1), conc!(2));
                let need = (self.export("vp_thread_main", 0), self.export("__wasm_init_tls", 0), self.export("__stack_pointer", 3));
                let (Some(main), Some(init), Some(spg)) = need else { return self.fail("not a build with threads".into()) };
                if st.thr.is_some() {
                    return self.fail("a third thread".into());
                }
                let (nimp, mut g) = (self.m.imports.len() as u32, st.globals.clone());
                g[spg as usize] = cv(sp);
                let me = (std::mem::take(&mut st.frames), std::mem::take(&mut st.stack));
                let f = &self.m.funcs[(main - nimp) as usize];
                st.stack.push(cv(arg));
                st.stack.resize(f.nlocals as usize, cv(0));
                st.frames.push(Frame { func: main - nimp, pc: 0, base: 0, opbase: f.nlocals });
                self.below(st, init - nimp, &[cv(tls)]);
                let other = Parked { frames: std::mem::replace(&mut st.frames, me.0), stack: std::mem::replace(&mut st.stack, me.1), globals: g, wait: Wait::Ready };
                st.thr = Some(Box::new(Threads {
                    cur: 0,
                    other,
                    left: self.preemptions,
                    seq: 0,
                    noted: false,
                    since: 0,
                    schedule: vec![],
                    counts: BTreeMap::new(),
                    spins: 0,
                }));
                st.shared = self.statics(st);
            }
            "vp_join" => match st.thr.as_ref().map(|t| t.other.wait) {
                None | Some(Wait::Done) => {}
                _ => {
                    st.frames.last_mut().unwrap().pc += 1;
                    return self.give_way(st, Wait::Join);
                }
            },
            "vp_fork" => {
                let v = conc!(0);
                ret = Some(cv(v));
            }
            "vp_observe" => {
                let v = self.nv(args[0], 64);
                st.trace.push(v);
                st.trace_of.push(st.thr.as_ref().map_or(0, |t| t.cur));
            }
            "vp_expect_trap" => {
                st.expect_trap = conc!(0) != 0;
            }
            "vp_cover" => {
                let p = conc!(0);
                let l = conc!(1);
                let msg = self.rd_str(st, p, l);
                *self.covers.entry(msg).or_default() += 1;
            }
            "vp_out" => {
                let p = conc!(0);
                let l = conc!(1);
                for k in 0..l {
                    let (b, s) = st.byte(p + k);
                    if s != 0 {
                        return self.fail("symbolic output".into());
                    }
                    st.out.push(b);
                }
            }
            "vp_panic" => {
                let p = conc!(0);
                let l = conc!(1);
                let ln = conc!(2);
                let file = self.rd_str(st, p, l);
                if st.panic_at.is_none() {
                    st.panic_at = Some((file, ln));
                }
            }
            x => return self.fail(format!("unknown import {}.{}", imp.module, x)),
        }
        st.stack.truncate(n - na);
        if let Some(r) = ret {
            st.stack.push(r);
        }
        Flow::Next
    }
}

impl State {
    fn byte(&self, a: u64) -> (u8, E) {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        match self.pages.get(p) {
            Some(Some(pg)) => (pg.d[o], pg.s.as_ref().map_or(0, |s| s[o])),
            _ => (0, 0),
        }
    }
    fn page_mut(&mut self, p: usize) -> &mut Page {
        let slot = &mut self.pages[p];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { d: [0; PS], s: None }));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
    fn put(&mut self, a: u64, b: u8, e: E) {
        let (p, o) = ((a as usize) / PS, (a as usize) % PS);
        let pg = self.page_mut(p);
        pg.d[o] = b;
        match &mut pg.s {
            Some(s) => s[o] = e,
            None => {
                if e != 0 {
                    let mut s = Box::new([0; PS]);
                    s[o] = e;
                    pg.s = Some(s);
                }
            }
        }
    }
}

pub fn short(n: &str) -> String {
    // legacy mangling: _ZN<len><id>...17h<hash>E
    let Some(mut s) = n.strip_prefix("_ZN") else { return n.to_string() };
    let mut parts = vec![];
    loop {
        let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
        if d.is_empty() {
            break;
        }
        let l: usize = d.parse().unwrap();
        s = &s[d.len()..];
        if s.len() < l {
            break;
        }
        let p = &s[..l];
        s = &s[l..];
        if p.len() == 17 && p.starts_with('h') {
            continue;
        }
        parts.push(
            p.replace("$LT$", "<")
                .replace("$GT$", ">")
                .replace("$u20$", " ")
                .replace("$RF$", "&")
                .replace("$C$", ",")
                .replace("$u7b$", "{")
                .replace("$u7d$", "}")
                .replace("..", "::"),
        );
    }
    parts.join("::")
}

//! Hash-consed bit-vector expressions (width 1..=64) with local simplification.
use std::collections::HashMap;

pub type E = u32; // index into Ctx.nodes; 0 is reserved ("no expression")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Nil,
    Const(u64),
    Var(u32),
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract(u8), // low bit; width = node width
    ZExt,
    SExt,
    Tab(u32), // function of a few input bits given by its value table
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: Key,
    pub kz: u64, // bits known to be zero
    pub ko: u64, // bits known to be one
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Key, E>,
    pub vars: Vec<(u32, u8)>, // (ordinal, width)
    varmap: HashMap<(u32, u8), E>,
    memo: Vec<(u32, u64)>,
    stamp: u32,
    supp: HashMap<E, std::rc::Rc<Vec<(u32, u64)>>>,
    pub tabs: Vec<Tab>,
    tabmap: HashMap<(u8, Tab), u32>,
    totab: HashMap<E, Option<E>>,
    tabops: HashMap<Key, E>, // results of operations with a table operand
    pub tab_max: usize,
}

pub type Bits = std::rc::Rc<Vec<(u32, u8)>>; // (variable id, bit)
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Tab {
    pub bits: Bits,
    pub vals: std::rc::Rc<Vec<u64>>, // indexed by the bits, first one least significant
}


pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

pub fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

impl Ctx {
    pub fn new() -> Self {
        let nil = Node {
            k: Key { op: Op::Nil, w: 0, a: 0, b: 0, c: 0 },
            kz: 0,
            ko: 0,
        };
        Ctx {
            nodes: vec![nil],
            map: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            memo: vec![],
            stamp: 0,
            supp: HashMap::new(),
            tabs: vec![],
            tabmap: HashMap::new(),
            totab: HashMap::new(),
            tabops: HashMap::new(),
            tab_max: 12,
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].k.w
    }
    #[inline]
    pub fn key(&self, e: E) -> Key {
        self.nodes[e as usize].k
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u64> {
        match self.nodes[e as usize].k.op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn kz(&self, e: E) -> u64 {
        self.nodes[e as usize].kz
    }
    pub fn ko(&self, e: E) -> u64 {
        self.nodes[e as usize].ko
    }
    pub fn umin(&self, e: E) -> u64 {
        self.ko(e)
    }
    pub fn umax(&self, e: E) -> u64 {
        !self.kz(e) & mask(self.w(e))
    }

    fn intern(&mut self, op: Op, w: u8, a: E, b: E, c: E) -> E {
        let k = Key { op, w, a, b, c };
        if let Some(&e) = self.map.get(&k) {
            return e;
        }
        let (kz, ko) = self.known(&k);
        let m = mask(w);
        let (kz, ko) = (kz & m, ko & m);
        if !matches!(op, Op::Const(_)) && (kz | ko) == m {
            return self.cst(w, ko);
        }
        let id = self.nodes.len() as E;
        self.nodes.push(Node { k, kz, ko });
        self.map.insert(k, id);
        id
    }

    /// a != b, kept as a node even where the simplifier could fold it: the solver gets to decide it.
    pub fn ne_raw(&mut self, a: E, b: E) -> E {
        let raw = |s: &mut Self, op: Op, a: E, b: E| {
            let k = Key { op, w: 1, a, b, c: 0 };
            let id = s.nodes.len() as E;
            s.nodes.push(Node { k, kz: 0, ko: 0 });
            id
        };
        let q = raw(self, Op::Eq, a, b);
        raw(self, Op::Not, q, 0)
    }

    fn known(&self, k: &Key) -> (u64, u64) {
        let m = mask(k.w);
        let z = |e: E| self.nodes[e as usize].kz;
        let o = |e: E| self.nodes[e as usize].ko;
        match k.op {
            Op::Const(v) => (!v & m, v),
            Op::Tab(t) => {
                let (mut z, mut o) = (m, m);
                for &v in self.tabs[t as usize].vals.iter() {
                    z &= !v;
                    o &= v;
                }
                (z, o)
            }
            Op::Not => (o(k.a), z(k.a)),
            Op::And => (z(k.a) | z(k.b), o(k.a) & o(k.b)),
            Op::Or => (z(k.a) & z(k.b), o(k.a) | o(k.b)),
            Op::Xor => (
                (z(k.a) & z(k.b)) | (o(k.a) & o(k.b)),
                (z(k.a) & o(k.b)) | (o(k.a) & z(k.b)),
            ),
            Op::Ite => (z(k.b) & z(k.c), o(k.b) & o(k.c)),
            Op::ZExt => (z(k.a) | (m & !mask(self.w(k.a))), o(k.a)),
            Op::SExt => {
                let wa = self.w(k.a);
                let top = m & !mask(wa);
                let sb = 1u64 << (wa - 1);
                let mut kz = z(k.a);
                let mut ko = o(k.a);
                if kz & sb != 0 {
                    kz |= top;
                }
                if ko & sb != 0 {
                    ko |= top;
                }
                (kz, ko)
            }
            Op::Concat => {
                let wb = self.w(k.b) as u32;
                ((z(k.a) << wb) | z(k.b), (o(k.a) << wb) | o(k.b))
            }
            Op::Extract(lo) => (z(k.a) >> lo, o(k.a) >> lo),
            Op::Add => {
                // known-bits addition (as in LLVM's KnownBits::computeForAddCarry)
                let (az, ao, bz, bo) = (z(k.a), o(k.a), z(k.b), o(k.b));
                let possz = (!az).wrapping_add(!bz);
                let posso = ao.wrapping_add(bo);
                let ckz = !(possz ^ az ^ bz);
                let cko = posso ^ ao ^ bo;
                let known = (az | ao) & (bz | bo) & (ckz | cko);
                (!possz & known, posso & known)
            }
            Op::Mul => {
                let tz = (!z(k.a)).trailing_zeros().min(64) + (!z(k.b)).trailing_zeros().min(64);
                let mut kz = if tz >= 64 { !0 } else { (1u64 << tz) - 1 };
                // leading zeros
                let ma = !z(k.a) & mask(k.w);
                let mb = !z(k.b) & mask(k.w);
                let p = (ma as u128) * (mb as u128);
                if p <= m as u128 {
                    let bits = 128 - p.leading_zeros();
                    kz |= m & !(if bits >= 64 { !0 } else { (1u64 << bits) - 1 });
                }
                (kz, 0)
            }
            _ => (0, 0),
        }
    }

    pub fn cst(&mut self, w: u8, v: u64) -> E {
        self.intern(Op::Const(v & mask(w)), w, 0, 0, 0)
    }
    pub fn var(&mut self, ord: u32, w: u8) -> E {
        if let Some(&e) = self.varmap.get(&(ord, w)) {
            return e;
        }
        let id = self.vars.len() as u32;
        self.vars.push((ord, w));
        let e = self.intern(Op::Var(id), w, 0, 0, 0);
        self.varmap.insert((ord, w), e);
        e
    }

    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let k = Key { op: Op::Extract(lo), w, a: e, b: 0, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.extract_(e, lo, w);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn extract_(&mut self, e: E, lo: u8, w: u8) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        let n = self.nodes[e as usize];
        let m = mask(w);
        let kz = (n.kz >> lo) & m;
        let ko = (n.ko >> lo) & m;
        if (kz | ko) == m {
            return self.cst(w, ko);
        }
        if let Op::Tab(_) = n.k.op {
            return self.tab_map(e, w, |v| (v >> lo) & m);
        }
        match n.k.op {
            Op::Extract(l2) => return self.extract(n.k.a, lo + l2, w),
            Op::Concat => {
                let wb = self.w(n.k.b);
                if lo + w <= wb {
                    return self.extract(n.k.b, lo, w);
                }
                if lo >= wb {
                    return self.extract(n.k.a, lo - wb, w);
                }
                let lowpart = self.extract(n.k.b, lo, wb - lo);
                let hipart = self.extract(n.k.a, 0, w - (wb - lo));
                return self.concat(hipart, lowpart);
            }
            Op::ZExt => {
                let wa = self.w(n.k.a);
                if lo + w <= wa {
                    return self.extract(n.k.a, lo, w);
                }
                if lo < wa {
                    let x = self.extract(n.k.a, lo, wa - lo);
                    return self.zext(x, w);
                }
            }
            Op::SExt => {
                let wa = self.w(n.k.a);
                if lo + w <= wa {
                    return self.extract(n.k.a, lo, w);
                }
                if lo < wa {
                    let x = self.extract(n.k.a, lo, wa - lo);
                    return self.sext(x, w);
                }
                let s = self.extract(n.k.a, wa - 1, 1);
                return self.sext(s, w);
            }
            Op::And => {
                if let Some(c) = self.as_const(n.k.b) {
                    if (c >> lo) & m == m {
                        return self.extract(n.k.a, lo, w);
                    }
                }
            }
            Op::Or => {
                if let Some(c) = self.as_const(n.k.b) {
                    if (c >> lo) & m == 0 {
                        return self.extract(n.k.a, lo, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Op::Extract(lo), w, e, 0, 0)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let k = Key { op: Op::Concat, w: 0, a, b, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.concat_(a, b);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn concat_(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        debug_assert!(w <= 64);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(w, (x << wb) | y);
        }
        if self.as_const(a) == Some(0) {
            return self.zext(b, w);
        }
        if let Some(r) = self.tab_two(a, b, w, |x, y| (x << wb) | y, false) {
            return r;
        }
        let (ka, kb) = (self.key(a), self.key(b));
        if ka.op == Op::ZExt {
            let x = self.concat(ka.a, b);
            return self.zext(x, w);
        }
        if ka.op == Op::Concat {
            let r = self.concat(ka.b, b);
            return self.concat(ka.a, r);
        }
        if let (Op::Extract(la), Op::Extract(lb)) = (ka.op, kb.op) {
            if ka.a == kb.a && la == lb + wb {
                return self.extract(ka.a, lb, w);
            }
        }
        // a = extract(b, lo = wb)  where b itself is the low part of a wider node is covered above;
        // a is extract of x at wb and b is a full low extract handled too.
        if kb.op == Op::Concat {
            let kba = self.key(kb.a);
            let wba = kba.w;
            let wlow = self.w(kb.b);
            if let (Op::Extract(la), Op::Extract(lb)) = (ka.op, kba.op) {
                if ka.a == kba.a && la == lb + wba {
                    let x = self.extract(ka.a, lb, wa + wba);
                    return self.concat(x, kb.b);
                }
            }
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(kb.a)) {
                let c = self.cst(wa + wba, (x << wba) | y);
                let _ = wlow;
                return self.concat(c, kb.b);
            }
        }
        self.intern(Op::Concat, w, a, b, 0)
    }

    pub fn zext(&mut self, e: E, w: u8) -> E {
        let k = Key { op: Op::ZExt, w, a: e, b: 0, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.zext_(e, w);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn zext_(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.as_const(e) {
            return self.cst(w, v);
        }
        let k = self.key(e);
        if let Op::Tab(_) = k.op {
            return self.tab_map(e, w, |v| v);
        }
        if k.op == Op::ZExt {
            return self.zext(k.a, w);
        }
        self.intern(Op::ZExt, w, e, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let k = Key { op: Op::SExt, w, a: e, b: 0, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.sext_(e, w);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn sext_(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.as_const(e) {
            return self.cst(w, sx(v, we) as u64);
        }
        if self.kz(e) >> (we - 1) & 1 == 1 {
            return self.zext(e, w);
        }
        let k = self.key(e);
        if let Op::Tab(_) = k.op {
            return self.tab_map(e, w, |v| sx(v, we) as u64 & mask(w));
        }
        if k.op == Op::SExt {
            return self.sext(k.a, w);
        }
        self.intern(Op::SExt, w, e, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let k = Key { op: Op::Not, w: 0, a, b: 0, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.not_(a);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn not_(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.as_const(a) {
            return self.cst(w, !v);
        }
        let k = self.key(a);
        if let Op::Tab(_) = k.op {
            return self.tab_map(a, w, |v| !v & mask(w));
        }
        if k.op == Op::Not {
            return k.a;
        }
        self.intern(Op::Not, w, a, 0, 0)
    }

    /// Bit segments of e from low to high: (width, expr).
    fn segs(&mut self, e: E, out: &mut Vec<E>) {
        let k = self.key(e);
        match k.op {
            Op::Concat => {
                self.segs(k.b, out);
                self.segs(k.a, out);
            }
            Op::ZExt => {
                self.segs(k.a, out);
                let wa = self.w(k.a);
                let z = self.cst(k.w - wa, 0);
                out.push(z);
            }
            _ => {
                // split off bits known to be zero at both ends
                let live = !self.kz(e) & mask(k.w);
                if live == 0 || self.as_const(e).is_some() {
                    out.push(e);
                    return;
                }
                let lo = live.trailing_zeros() as u8;
                let hi = 64 - live.leading_zeros() as u8;
                if lo > 0 {
                    let z = self.cst(lo, 0);
                    out.push(z);
                }
                let x = self.extract(e, lo, hi - lo);
                out.push(x);
                if hi < k.w {
                    let z = self.cst(k.w - hi, 0);
                    out.push(z);
                }
            }
        }
    }

    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // both operands are segment lists whose set bits do not overlap
        let w = self.w(a);
        let m = mask(w);
        if (self.kz(a) | self.kz(b)) & m != m {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        let mut cuts = vec![];
        for s in [&sa, &sb] {
            let mut p = 0u8;
            for &x in s.iter() {
                p += self.w(x);
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut res: E = 0;
        let mut p = 0u8;
        for c in cuts {
            let xa = self.extract(a, p, c - p);
            let xb = self.extract(b, p, c - p);
            let part = if self.as_const(xa) == Some(0) {
                xb
            } else if self.as_const(xb) == Some(0) {
                xa
            } else if self.as_const(xa).is_some() || self.as_const(xb).is_some() {
                return None;
            } else {
                return None;
            };
            res = if res == 0 { part } else { self.concat(part, res) };
            p = c;
        }
        Some(res)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let k = Key { op, w: 0, a, b, c: 0 };
        let tab = self.tab(k.a).is_some() || (k.b != 0 && self.tab(k.b).is_some());
        if tab {
            if let Some(&r) = self.tabops.get(&k) {
                return r;
            }
        }
        let r = self.bin_(op, a, b);
        if tab {
            self.tabops.insert(k, r);
        }
        r
    }
    fn bin_(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let wo = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
            return self.cst(wo, fold(op, x, y, w));
        }
        let m = mask(w);
        {
            let cmp = matches!(op, Op::Eq | Op::Ult | Op::Slt);
            let wo = if cmp { 1 } else { w };
            if let Some(r) = self.tab_two(a, b, wo, |x, y| fold(op, x, y, w), cmp) {
                return r;
            }
        }
        // canonical: constant on the right for commutative operators
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if (self.kz(a) | self.kz(b)) & m == m {
                    return self.bin(Op::Or, a, b);
                }
                if let Some(y) = cb {
                    let k = self.key(a);
                    if k.op == Op::Add {
                        if let Some(z) = self.as_const(k.b) {
                            let c = self.cst(w, z.wrapping_add(y));
                            return self.bin(Op::Add, k.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let c = self.cst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.cst(w, y.trailing_zeros() as u64);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.cst(w, y.trailing_zeros() as u64);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let c = self.cst(w, y - 1);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    // bits of a that may be set
                    let may = !self.kz(a) & m;
                    if may & !y == 0 {
                        return a;
                    }
                    // contiguous run
                    let y = y & may;
                    if y != 0 {
                        let lo = y.trailing_zeros() as u8;
                        let run = (y >> lo).trailing_ones() as u8;
                        if y == mask(run) << lo {
                            let x = self.extract(a, lo, run);
                            let x = if lo > 0 {
                                let z = self.cst(lo, 0);
                                self.concat(x, z)
                            } else {
                                x
                            };
                            return self.zext(x, w);
                        }
                    }
                    let k = self.key(a);
                    if k.op == Op::And {
                        if let Some(z) = self.as_const(k.b) {
                            let c = self.cst(w, z & y);
                            return self.bin(Op::And, k.a, c);
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
                if (self.kz(a) | self.kz(b)) & m == m {
                    return self.bin(Op::Or, a, b);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(s) = cb {
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u64 {
                        if op == Op::AShr {
                            let t = self.extract(a, w - 1, 1);
                            return self.sext(t, w);
                        }
                        return self.cst(w, 0);
                    }
                    let s = s as u8;
                    match op {
                        Op::Shl => {
                            let x = self.extract(a, 0, w - s);
                            let z = self.cst(s, 0);
                            return self.concat(x, z);
                        }
                        Op::LShr => {
                            let x = self.extract(a, s, w - s);
                            return self.zext(x, w);
                        }
                        _ => {
                            let x = self.extract(a, s, w - s);
                            return self.sext(x, w);
                        }
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if (self.kz(a) & self.ko(b)) | (self.ko(a) & self.kz(b)) != 0 {
                    return self.cst(1, 0);
                }
                if w == 1 {
                    match cb {
                        Some(1) => return a,
                        Some(_) => return self.not(a),
                        None => {}
                    }
                }
                if let Some(y) = cb {
                    let k = self.key(a);
                    match k.op {
                        Op::ZExt => {
                            let wa = self.w(k.a);
                            let c = self.cst(wa, y);
                            return self.bin(Op::Eq, k.a, c);
                        }
                        Op::Ite => {
                            let (t, f) = (self.as_const(k.b), self.as_const(k.c));
                            match (t, f) {
                                (Some(t), Some(f)) => {
                                    return if t == y && f == y {
                                        self.cst(1, 1)
                                    } else if t == y {
                                        k.a
                                    } else if f == y {
                                        self.not(k.a)
                                    } else {
                                        self.cst(1, 0)
                                    };
                                }
                                _ => {}
                            }
                        }
                        Op::Add => {
                            if let Some(z) = self.as_const(k.b) {
                                let c = self.cst(w, y.wrapping_sub(z));
                                return self.bin(Op::Eq, k.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.as_const(k.b) {
                                let c = self.cst(w, y ^ z);
                                return self.bin(Op::Eq, k.a, c);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, k.a, k.b);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (ka, kb) = (self.key(a), self.key(b));
                    if ka.op == Op::ZExt && kb.op == Op::ZExt && self.w(ka.a) == self.w(kb.a) {
                        return self.bin(Op::Eq, ka.a, kb.a);
                    }
                    if a > b {
                        return self.bin(Op::Eq, b, a);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if self.umax(a) < self.umin(b) {
                    return self.cst(1, 1);
                }
                if self.umin(a) >= self.umax(b) {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                let (ka, kb) = (self.key(a), self.key(b));
                if ka.op == Op::ZExt {
                    let wa = self.w(ka.a);
                    if let Some(y) = cb {
                        // y <= umax(a) here, so y fits
                        let c = self.cst(wa, y);
                        return self.bin(Op::Ult, ka.a, c);
                    }
                    if kb.op == Op::ZExt && self.w(kb.a) == wa {
                        return self.bin(Op::Ult, ka.a, kb.a);
                    }
                }
                if kb.op == Op::ZExt {
                    if let Some(x) = ca {
                        let wb = self.w(kb.a);
                        let c = self.cst(wb, x);
                        return self.bin(Op::Ult, c, kb.a);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.cst(1, 0);
                }
                let s = 1u64 << (w - 1);
                if self.kz(a) & s != 0 && self.kz(b) & s != 0 {
                    return self.bin(Op::Ult, a, b);
                }
                if self.ko(a) & s != 0 && self.kz(b) & s != 0 {
                    return self.cst(1, 1);
                }
                if self.kz(a) & s != 0 && self.ko(b) & s != 0 {
                    return self.cst(1, 0);
                }
                if self.ko(a) & s != 0 && self.ko(b) & s != 0 {
                    return self.bin(Op::Ult, a, b);
                }
            }
            _ => {}
        }
        let wo = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        self.intern(op, wo, a, b, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        debug_assert_eq!(self.w(a), self.w(b));
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let k = self.key(c);
        if k.op == Op::Not {
            return self.ite(k.a, b, a);
        }
        let w = self.w(a);
        if let Some(r) = self.tab_ite(c, a, b) {
            return r;
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                _ => {}
            }
        }
        self.intern(Op::Ite, w, c, a, b)
    }

    /// Concrete evaluation under an assignment indexed by variable id.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.stamp = self.stamp.wrapping_add(1);
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u64 {
        let k = self.nodes[e as usize].k;
        if let Op::Const(v) = k.op {
            return v;
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let m = mask(k.w);
        let r = match k.op {
            Op::Nil => panic!("nil"),
            Op::Const(v) => v,
            Op::Var(i) => model.get(i as usize).copied().unwrap_or(0) & m,
            Op::Tab(t) => {
                let t = &self.tabs[t as usize];
                let mut ix = 0usize;
                for (i, &(v, b)) in t.bits.iter().enumerate() {
                    ix |= ((model.get(v as usize).copied().unwrap_or(0) >> b & 1) as usize) << i;
                }
                t.vals[ix]
            }
            Op::Not => !self.ev(k.a, model),
            Op::Ite => {
                if self.ev(k.a, model) == 1 {
                    self.ev(k.b, model)
                } else {
                    self.ev(k.c, model)
                }
            }
            Op::Concat => {
                let wb = self.w(k.b);
                let a = self.ev(k.a, model);
                let b = self.ev(k.b, model);
                (a << wb) | b
            }
            Op::Extract(lo) => self.ev(k.a, model) >> lo,
            Op::ZExt => self.ev(k.a, model),
            Op::SExt => {
                let wa = self.w(k.a);
                let v = self.ev(k.a, model);
                sx(v, wa) as u64
            }
            _ => {
                let wa = self.w(k.a);
                let a = self.ev(k.a, model);
                let b = self.ev(k.b, model);
                fold(k.op, a, b, wa)
            }
        } & m;
        self.memo[e as usize] = (self.stamp, r);
        r
    }

    /// The input bits an expression depends on: sorted (variable id, bit mask); None when more than `lim` bits.
    pub fn support(&mut self, e: E) -> std::rc::Rc<Vec<(u32, u64)>> {
        if let Some(s) = self.supp.get(&e) {
            return s.clone();
        }
        let k = self.key(e);
        let r: Vec<(u32, u64)> = match k.op {
            Op::Const(_) | Op::Nil => vec![],
            Op::Var(i) => vec![(i, mask(k.w))],
            Op::Tab(t) => {
                let mut m = std::collections::BTreeMap::new();
                for &(v, b) in self.tabs[t as usize].bits.iter() {
                    *m.entry(v).or_insert(0u64) |= 1 << b;
                }
                m.into_iter().collect()
            }
            Op::Extract(lo) => match self.key(k.a).op {
                Op::Var(i) => vec![(i, mask(k.w) << lo)],
                _ => self.support(k.a).to_vec(),
            },
            _ => {
                let mut m = std::collections::BTreeMap::new();
                for x in [k.a, k.b, k.c] {
                    if x != 0 {
                        for &(v, b) in self.support(x).iter() {
                            *m.entry(v).or_insert(0u64) |= b;
                        }
                    }
                }
                m.into_iter().collect()
            }
        };
        let r = std::rc::Rc::new(r);
        self.supp.insert(e, r.clone());
        r
    }
    // ---- value tables ----
    pub fn tab(&self, e: E) -> Option<&Tab> {
        match self.nodes[e as usize].k.op {
            Op::Tab(t) => Some(&self.tabs[t as usize]),
            _ => None,
        }
    }
    pub fn mk_tab(&mut self, w: u8, bits: &[(u32, u8)], vals: Vec<u64>) -> E {
        let (mut bits, mut vals) = (bits.to_vec(), vals);
        // drop bits the function does not depend on
        let mut i = 0;
        while i < bits.len() {
            let st = 1usize << i;
            let dep = (0..vals.len()).any(|x| x & st == 0 && vals[x] != vals[x | st]);
            if dep {
                i += 1;
            } else {
                vals = (0..vals.len() / 2).map(|x| vals[((x >> i) << (i + 1)) | (x & (st - 1))]).collect();
                bits.remove(i);
            }
        }
        if bits.is_empty() {
            return self.cst(w, vals[0]);
        }
        let t = Tab { bits: std::rc::Rc::new(bits), vals: std::rc::Rc::new(vals) };
        let id = match self.tabmap.get(&(w, t.clone())) {
            Some(&i) => i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tabmap.insert((w, t), i);
                i
            }
        };
        self.intern(Op::Tab(id), w, 0, 0, 0)
    }
    /// The expression as a value table (constants as they are); None when it depends on too many input bits.
    fn to_tab(&mut self, e: E) -> Option<E> {
        if self.as_const(e).is_some() || self.tab(e).is_some() {
            return Some(e);
        }
        if let Some(&r) = self.totab.get(&e) {
            return r;
        }
        let s = self.support(e);
        let n: u32 = s.iter().map(|x| x.1.count_ones()).sum();
        let r = if n as usize > self.tab_max {
            None
        } else {
            let mut bits: Vec<(u32, u8)> = vec![];
            for &(v, m) in s.iter() {
                bits.extend((0..64u8).filter(|b| m >> b & 1 == 1).map(|b| (v, b)));
            }
            let mut model = vec![0u64; self.vars.len()];
            let mut vals = Vec::with_capacity(1 << n);
            for a in 0..1u64 << n {
                for (i, &(v, b)) in bits.iter().enumerate() {
                    let m = &mut model[v as usize];
                    *m = *m & !(1 << b) | (a >> i & 1) << b;
                }
                vals.push(self.eval(e, &model));
            }
            let w = self.w(e);
            Some(self.mk_tab(w, &bits, vals))
        };
        self.totab.insert(e, r);
        r
    }
    fn tab_map(&mut self, e: E, w: u8, f: impl Fn(u64) -> u64) -> E {
        let t = self.tab(e).unwrap().clone();
        let v = t.vals.iter().map(|&x| f(x)).collect();
        self.mk_tab(w, &t.bits, v)
    }
    fn tab_expand(&self, e: E, bits: &[(u32, u8)]) -> Option<Vec<u64>> {
        let n = 1usize << bits.len();
        if let Some(c) = self.as_const(e) {
            return Some(vec![c; n]);
        }
        let t = self.tab(e)?;
        if t.bits[..] == bits[..] {
            return Some(t.vals.to_vec());
        }
        let pos: Vec<usize> = t.bits.iter().map(|b| bits.iter().position(|x| x == b).unwrap()).collect();
        Some(
            (0..n)
                .map(|a| {
                    let mut ix = 0;
                    for (i, &p) in pos.iter().enumerate() {
                        ix |= (a >> p & 1) << i;
                    }
                    t.vals[ix]
                })
                .collect(),
        )
    }
    fn tab_union(&self, es: &[E]) -> Option<Vec<(u32, u8)>> {
        let mut u: Vec<(u32, u8)> = vec![];
        for &e in es {
            if self.as_const(e).is_some() {
                continue;
            }
            u.extend(self.tab(e)?.bits.iter());
        }
        u.sort();
        u.dedup();
        if u.is_empty() || u.len() > self.tab_max {
            return None;
        }
        Some(u)
    }
    /// Pointwise operation when both operands are tables or constants. With `cmp`, a comparison of two
    /// tables whose outcome is the same everywhere stays symbolic: it is left to the solver to find out.
    fn tab_two(&mut self, a: E, b: E, w: u8, f: impl Fn(u64, u64) -> u64, cmp: bool) -> Option<E> {
        let (a, b) = if self.tab(a).is_some() {
            (a, self.to_tab(b)?)
        } else if self.tab(b).is_some() {
            (self.to_tab(a)?, b)
        } else {
            return None;
        };
        let u = self.tab_union(&[a, b])?;
        let x = self.tab_expand(a, &u)?;
        let y = self.tab_expand(b, &u)?;
        let v: Vec<u64> = x.iter().zip(&y).map(|(&p, &q)| f(p, q)).collect();
        if cmp && self.as_const(a).is_none() && self.as_const(b).is_none() && v.iter().all(|&t| t == v[0]) && a != b {
            return None;
        }
        Some(self.mk_tab(w, &u, v))
    }
    fn tab_ite(&mut self, c: E, a: E, b: E) -> Option<E> {
        if self.tab(c).is_none() && self.tab(a).is_none() && self.tab(b).is_none() {
            return None;
        }
        let (c, a, b) = (self.to_tab(c)?, self.to_tab(a)?, self.to_tab(b)?);
        let u = self.tab_union(&[c, a, b])?;
        let z = self.tab_expand(c, &u)?;
        let x = self.tab_expand(a, &u)?;
        let y = self.tab_expand(b, &u)?;
        let v: Vec<u64> = (0..z.len()).map(|i| if z[i] == 1 { x[i] } else { y[i] }).collect();
        let w = self.w(a);
        Some(self.mk_tab(w, &u, v))
    }

    /// The expression with some input bits replaced by their values: (variable, which bits, their values).
    pub fn specialize(&mut self, e: E, fixed: &[(u32, u64, u64)], memo: &mut HashMap<E, E>) -> E {
        let s = self.support(e);
        if !s.iter().any(|&(v, m)| fixed.iter().any(|f| f.0 == v && f.1 & m != 0)) {
            return e;
        }
        // operands come before the nodes using them
        let mut todo = vec![e];
        let mut need = std::collections::BTreeSet::new();
        while let Some(x) = todo.pop() {
            if x != 0 && !memo.contains_key(&x) && need.insert(x) {
                let k = self.key(x);
                todo.extend([k.a, k.b, k.c]);
            }
        }
        for x in need {
            let k = self.key(x);
            let g = |y: E| if y == 0 { 0 } else { memo[&y] };
            let (a, b, c) = (g(k.a), g(k.b), g(k.c));
            let r = match k.op {
                Op::Nil | Op::Const(_) => x,
                Op::Var(i) => match fixed.iter().find(|f| f.0 == i) {
                    None => x,
                    Some(&(_, m, v)) => {
                        let mut r = 0;
                        let mut lo = 0u8;
                        while lo < k.w {
                            let is = m >> lo & 1;
                            let mut hi = lo;
                            while hi < k.w && m >> hi & 1 == is {
                                hi += 1;
                            }
                            let p = if is == 1 { self.cst(hi - lo, v >> lo) } else { self.extract(x, lo, hi - lo) };
                            r = if r == 0 { p } else { self.concat(p, r) };
                            lo = hi;
                        }
                        r
                    }
                },
                Op::Tab(t) => {
                    let t = self.tabs[t as usize].clone();
                    let set = |&(v, b): &(u32, u8)| fixed.iter().find(|f| f.0 == v && f.1 >> b & 1 == 1).map(|f| f.2 >> b & 1);
                    let base: usize = t.bits.iter().enumerate().map(|(i, b)| (set(b).unwrap_or(0) as usize) << i).sum();
                    let free: Vec<usize> = (0..t.bits.len()).filter(|&i| set(&t.bits[i]).is_none()).collect();
                    let bits: Vec<(u32, u8)> = free.iter().map(|&i| t.bits[i]).collect();
                    let vals = (0..1usize << free.len())
                        .map(|y| t.vals[free.iter().enumerate().fold(base, |z, (j, &i)| z | (y >> j & 1) << i)])
                        .collect();
                    self.mk_tab(k.w, &bits, vals)
                }
                Op::Not => self.not(a),
                Op::Ite => self.ite(a, b, c),
                Op::Concat => self.concat(a, b),
                Op::Extract(lo) => self.extract(a, lo, k.w),
                Op::ZExt => self.zext(a, k.w),
                Op::SExt => self.sext(a, k.w),
                op => self.bin(op, a, b),
            };
            memo.insert(x, r);
        }
        memo[&e]
    }
    pub fn var_expr(&mut self, id: u32) -> E {
        let (o, w) = self.vars[id as usize];
        self.var(o, w)
    }
}

pub fn fold(op: Op, x: u64, y: u64, w: u8) -> u64 {
    let m = mask(w);
    m & match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u64
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u64
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = y.min(w as u64 - 1);
            (sx(x, w) >> s) as u64
        }
        Op::Eq => return (x == y) as u64,
        Op::Ult => return (x < y) as u64,
        Op::Slt => return (sx(x, w) < sx(y, w)) as u64,
        _ => panic!("fold {:?}", op),
    }
}

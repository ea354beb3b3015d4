//! WebAssembly (memory64) module parser; function bodies are flattened to code with resolved branches.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FuncType {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub struct Ins {
    pub op: u16,
    pub a: u32, // local/global/func index, branch target, ...
    pub b: u32, // stack height to cut to / second immediate
    pub imm: u64, // constant, memory offset, arity ...
}

pub mod op {
    // internal control codes (wasm numeric/memory codes are used as they are)
    pub const UNREACHABLE: u16 = 0x00;
    pub const BR: u16 = 0x200; // a=target b=height imm=arity
    pub const BR_IF: u16 = 0x201;
    pub const BR_IFZ: u16 = 0x202; // branch if zero (if/else lowering)
    pub const BR_TABLE: u16 = 0x203; // a=index of table
    pub const RET: u16 = 0x204;
    pub const CALL: u16 = 0x10;
    pub const CALL_IND: u16 = 0x11;
    pub const DROP: u16 = 0x1a;
    pub const SELECT: u16 = 0x1b;
    pub const LGET: u16 = 0x20;
    pub const LSET: u16 = 0x21;
    pub const LTEE: u16 = 0x22;
    pub const GGET: u16 = 0x23;
    pub const GSET: u16 = 0x24;
    pub const MSIZE: u16 = 0x3f;
    pub const MGROW: u16 = 0x40;
    pub const CONST: u16 = 0x41; // i32/i64/f32/f64 constants: imm
    pub const MCOPY: u16 = 0x300;
    pub const MFILL: u16 = 0x301;
    pub const SAT: u16 = 0x310; // 0xfc 0..7
    pub const MINIT: u16 = 0x320; // a=segment
    pub const DDROP: u16 = 0x321;
    pub const ATOMIC: u16 = 0x400; // + sub-opcode of the 0xfe prefix
}

#[derive(Clone, Copy, Debug)]
pub struct BrT {
    pub target: u32,
    pub height: u32,
    pub arity: u32,
}

pub struct Func {
    pub ty: u32,
    pub nlocals: u32, // including params
    pub nparams: u32,
    pub nresults: u32,
    pub code: Vec<Ins>,
    pub tables: Vec<Vec<BrT>>,
    pub name: String,
}

pub struct Import {
    pub module: String,
    pub name: String,
    pub ty: u32,
}

pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<Import>, // function imports only
    pub funcs: Vec<Func>,     // defined functions
    pub table: Vec<Option<u32>>,
    pub mem_min: u64,
    pub mem_max: Option<u64>,
    pub globals: Vec<u64>,
    pub exports: Vec<(String, u8, u32)>,
    pub data: Vec<(Option<u64>, Vec<u8>)>, // no address: passive
    pub data_names: Vec<String>,
    pub start: Option<u32>,
}

struct R<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.d[self.p];
        self.p += 1;
        b
    }
    fn u(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return r;
            }
        }
    }
    fn s(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn name(&mut self) -> String {
        let n = self.u() as usize;
        let s = String::from_utf8_lossy(&self.d[self.p..self.p + n]).to_string();
        self.p += n;
        s
    }
    fn limits(&mut self) -> (u64, Option<u64>, bool) {
        let f = self.u8();
        let min = self.u();
        let max = if f & 1 != 0 { Some(self.u()) } else { None };
        (min, max, f & 4 != 0)
    }
    fn const_expr(&mut self) -> u64 {
        let mut v = 0;
        loop {
            match self.u8() {
                0x41 => v = self.s() as u32 as u64,
                0x42 => v = self.s() as u64,
                0x43 => {
                    v = u32::from_le_bytes(self.d[self.p..self.p + 4].try_into().unwrap()) as u64;
                    self.p += 4
                }
                0x44 => {
                    v = u64::from_le_bytes(self.d[self.p..self.p + 8].try_into().unwrap());
                    self.p += 8
                }
                0x23 => {
                    panic!("global.get in constant expression")
                }
                0x0b => return v,
                x => panic!("const expr op {:x}", x),
            }
        }
    }
}

pub fn parse(d: &[u8]) -> Module {
    assert_eq!(&d[0..8], b"\0asm\x01\0\0\0");
    let mut r = R { d, p: 8 };
    let mut m = Module {
        types: vec![],
        imports: vec![],
        funcs: vec![],
        table: vec![],
        mem_min: 0,
        mem_max: None,
        globals: vec![],
        exports: vec![],
        data: vec![],
        data_names: vec![],
        start: None,
    };
    let mut ftypes: Vec<u32> = vec![];
    let mut names: std::collections::HashMap<u32, String> = Default::default();
    let mut bodies: Vec<(usize, usize)> = vec![];
    while r.p < d.len() {
        let id = r.u8();
        let len = r.u() as usize;
        let end = r.p + len;
        match id {
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let c = r.u();
                            for _ in 0..c {
                                let i = r.u() as u32;
                                let nm = r.name();
                                names.insert(i, nm);
                            }
                        }
                        if sid == 9 {
                            let c = r.u();
                            for _ in 0..c {
                                let i = r.u() as usize;
                                let nm = r.name();
                                if m.data_names.len() <= i {
                                    m.data_names.resize(i + 1, String::new());
                                }
                                m.data_names[i] = nm;
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                let n = r.u();
                for _ in 0..n {
                    assert_eq!(r.u8(), 0x60);
                    let pc = r.u();
                    let params = (0..pc).map(|_| r.u8()).collect();
                    let rc = r.u();
                    let results = (0..rc).map(|_| r.u8()).collect();
                    m.types.push(FuncType { params, results });
                }
            }
            2 => {
                let n = r.u();
                for _ in 0..n {
                    let module = r.name();
                    let name = r.name();
                    match r.u8() {
                        0 => {
                            let ty = r.u() as u32;
                            m.imports.push(Import { module, name, ty });
                        }
                        2 => {
                            let (min, max, _) = r.limits();
                            m.mem_min = min;
                            m.mem_max = max;
                        }
                        k => panic!("unsupported import kind {} {}.{}", k, module, name),
                    }
                }
            }
            3 => {
                let n = r.u();
                for _ in 0..n {
                    ftypes.push(r.u() as u32);
                }
            }
            4 => {
                let n = r.u();
                for _ in 0..n {
                    let _t = r.u8();
                    let (min, _, _) = r.limits();
                    m.table.resize(min as usize, None);
                }
            }
            5 => {
                let n = r.u();
                for _ in 0..n {
                    let (min, max, _) = r.limits();
                    m.mem_min = min;
                    m.mem_max = max;
                }
            }
            6 => {
                let n = r.u();
                for _ in 0..n {
                    let _t = r.u8();
                    let _m = r.u8();
                    let v = r.const_expr();
                    m.globals.push(v);
                }
            }
            7 => {
                let n = r.u();
                for _ in 0..n {
                    let nm = r.name();
                    let k = r.u8();
                    let i = r.u() as u32;
                    m.exports.push((nm, k, i));
                }
            }
            8 => m.start = Some(r.u() as u32),
            9 => {
                let n = r.u();
                for _ in 0..n {
                    let f = r.u();
                    assert_eq!(f, 0, "element segment kind");
                    let off = r.const_expr() as usize;
                    let c = r.u() as usize;
                    for i in 0..c {
                        let fi = r.u() as u32;
                        if m.table.len() <= off + i {
                            m.table.resize(off + i + 1, None);
                        }
                        m.table[off + i] = Some(fi);
                    }
                }
            }
            10 => {
                let n = r.u();
                for _ in 0..n {
                    let sz = r.u() as usize;
                    bodies.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                let n = r.u();
                for _ in 0..n {
                    let f = r.u();
                    if f == 2 {
                        r.u();
                    }
                    let off = if f == 1 { None } else { Some(r.const_expr()) };
                    let c = r.u() as usize;
                    m.data.push((off, d[r.p..r.p + c].to_vec()));
                    r.p += c;
                }
            }
            _ => {}
        }
        r.p = end;
    }
    let nimp = m.imports.len() as u32;
    // function types by index, for call heights
    let mut alltypes: Vec<u32> = m.imports.iter().map(|i| i.ty).collect();
    alltypes.extend(&ftypes);
    for (i, (s, e)) in bodies.into_iter().enumerate() {
        let ty = ftypes[i];
        let name = names
            .get(&(nimp + i as u32))
            .cloned()
            .unwrap_or_else(|| format!("func{}", nimp + i as u32));
        let f = compile(&m, &alltypes, ty, d, s, e, name);
        m.funcs.push(f);
    }
    m
}

struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 else 4 func
    height: u32,
    nparams: u32,
    nres: u32,
    start: u32,
    fix: Vec<(u32, Option<u32>)>, // (ins index, table entry) to patch with end
    else_fix: Option<u32>,
    dead: bool, // entered while dead
}

fn blocktype(m: &Module, r: &mut R) -> (u32, u32) {
    let b = r.d[r.p];
    if b == 0x40 {
        r.p += 1;
        return (0, 0);
    }
    if b & 0xc0 == 0x40 {
        r.p += 1;
        return (0, 1);
    }
    let t = r.s() as usize;
    (m.types[t].params.len() as u32, m.types[t].results.len() as u32)
}

fn compile(m: &Module, alltypes: &[u32], ty: u32, d: &[u8], s: usize, e: usize, name: String) -> Func {
    let mut r = R { d: &d[..e], p: s };
    let t = &m.types[ty as usize];
    let nparams = t.params.len() as u32;
    let nresults = t.results.len() as u32;
    let mut nlocals = nparams;
    let g = r.u();
    for _ in 0..g {
        let n = r.u();
        let _ = r.u8();
        nlocals += n as u32;
    }
    let mut code: Vec<Ins> = vec![];
    let mut tables: Vec<Vec<BrT>> = vec![];
    let mut ctl: Vec<Ctl> = vec![Ctl {
        kind: 4,
        height: 0,
        nparams: 0,
        nres: nresults,
        start: 0,
        fix: vec![],
        else_fix: None,
        dead: false,
    }];
    let mut h: u32 = 0; // operand height above locals
    let mut dead = false;
    macro_rules! emit {
        ($op:expr,$a:expr,$b:expr,$imm:expr) => {
            if !dead {
                code.push(Ins { op: $op, a: $a, b: $b, imm: $imm })
            }
        };
    }
    fn target(ctl: &mut Vec<Ctl>, l: u64, at: u32, te: Option<u32>) -> BrT {
        let n = ctl.len();
        let c = &mut ctl[n - 1 - l as usize];
        if c.kind == 1 {
            BrT { target: c.start, height: c.height, arity: c.nparams }
        } else {
            c.fix.push((at, te));
            BrT { target: 0, height: c.height, arity: c.nres }
        }
    }
    while r.p < e {
        let o = r.u8();
        match o {
            0x00 => {
                emit!(op::UNREACHABLE, 0, 0, 0);
                dead = true;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (np, nr) = blocktype(m, &mut r);
                ctl.push(Ctl {
                    kind: if o == 3 { 1 } else { 0 },
                    height: if dead { 0 } else { h - np },
                    nparams: np,
                    nres: nr,
                    start: code.len() as u32,
                    fix: vec![],
                    else_fix: None,
                    dead,
                });
            }
            0x04 => {
                let (np, nr) = blocktype(m, &mut r);
                let mut ef = None;
                if !dead {
                    h -= 1;
                    ef = Some(code.len() as u32);
                }
                emit!(op::BR_IFZ, 0, h, np as u64);
                ctl.push(Ctl {
                    kind: 2,
                    height: if dead { 0 } else { h - np },
                    nparams: np,
                    nres: nr,
                    start: 0,
                    fix: vec![],
                    else_fix: ef,
                    dead,
                });
            }
            0x05 => {
                let n = ctl.len() - 1;
                let at = code.len() as u32;
                if !dead {
                    let c = &mut ctl[n];
                    let (hh, ar) = (c.height, c.nres);
                    c.fix.push((at, None));
                    emit!(op::BR, 0, hh, ar as u64);
                }
                let c = &mut ctl[n];
                c.kind = 3;
                if let Some(f) = c.else_fix.take() {
                    let t = code.len() as u32;
                    code[f as usize].a = t;
                    code[f as usize].b = c.height;
                }
                dead = c.dead;
                h = c.height + c.nparams;
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let t = code.len() as u32;
                if let Some(f) = c.else_fix {
                    code[f as usize].a = t;
                    code[f as usize].b = c.height;
                }
                for (at, te) in c.fix {
                    match te {
                        None => code[at as usize].a = t,
                        Some(x) => {
                            let ti = code[at as usize].a as usize;
                            tables[ti][x as usize].target = t
                        }
                    }
                }
                dead = c.dead;
                h = c.height + c.nres;
                if c.kind == 4 {
                    emit!(op::RET, 0, 0, 0);
                }
            }
            0x0c => {
                let l = r.u();
                if !dead {
                    let at = code.len() as u32;
                    let b = target(&mut ctl, l, at, None);
                    emit!(op::BR, b.target, b.height, b.arity as u64);
                }
                dead = true;
            }
            0x0d => {
                let l = r.u();
                if !dead {
                    h -= 1;
                    let at = code.len() as u32;
                    let b = target(&mut ctl, l, at, None);
                    emit!(op::BR_IF, b.target, b.height, b.arity as u64);
                }
            }
            0x0e => {
                let n = r.u();
                let mut ls = vec![];
                for _ in 0..=n {
                    ls.push(r.u());
                }
                if !dead {
                    h -= 1;
                    let at = code.len() as u32;
                    let ti = tables.len() as u32;
                    let mut tb = vec![];
                    for (i, l) in ls.into_iter().enumerate() {
                        tb.push(target(&mut ctl, l, at, Some(i as u32)));
                    }
                    tables.push(tb);
                    emit!(op::BR_TABLE, ti, 0, 0);
                }
                dead = true;
            }
            0x0f => {
                emit!(op::RET, 0, 0, 0);
                dead = true;
            }
            0x10 => {
                let f = r.u() as u32;
                let t = &m.types[alltypes[f as usize] as usize];
                if !dead {
                    h = h - t.params.len() as u32 + t.results.len() as u32;
                }
                emit!(op::CALL, f, 0, 0);
            }
            0x11 => {
                let ti = r.u() as u32;
                let _tb = r.u();
                let t = &m.types[ti as usize];
                if !dead {
                    h = h - 1 - t.params.len() as u32 + t.results.len() as u32;
                }
                emit!(op::CALL_IND, ti, 0, 0);
            }
            0x1a => {
                emit!(op::DROP, 0, 0, 0);
                if !dead {
                    h -= 1
                }
            }
            0x1b | 0x1c => {
                if o == 0x1c {
                    let n = r.u();
                    for _ in 0..n {
                        r.u8();
                    }
                }
                emit!(op::SELECT, 0, 0, 0);
                if !dead {
                    h -= 2
                }
            }
            0x20..=0x24 => {
                let i = r.u() as u32;
                emit!(o as u16, i, 0, 0);
                if !dead {
                    match o {
                        0x20 | 0x23 => h += 1,
                        0x21 | 0x24 => h -= 1,
                        _ => {}
                    }
                }
            }
            0x28..=0x3e => {
                let al = r.u();
                if al & 0x40 != 0 {
                    let _ = r.u();
                }
                let off = r.u();
                emit!(o as u16, 0, 0, off);
                if !dead && o >= 0x36 {
                    h -= 2
                }
            }
            0x3f => {
                r.u8();
                emit!(op::MSIZE, 0, 0, 0);
                if !dead {
                    h += 1
                }
            }
            0x40 => {
                r.u8();
                emit!(op::MGROW, 0, 0, 0);
            }
            0x41 => {
                let v = r.s() as u32 as u64;
                emit!(op::CONST, 0, 0, v);
                if !dead {
                    h += 1
                }
            }
            0x42 => {
                let v = r.s() as u64;
                emit!(op::CONST, 0, 0, v);
                if !dead {
                    h += 1
                }
            }
            0x43 => {
                let v = u32::from_le_bytes(r.d[r.p..r.p + 4].try_into().unwrap()) as u64;
                r.p += 4;
                emit!(op::CONST, 0, 0, v);
                if !dead {
                    h += 1
                }
            }
            0x44 => {
                let v = u64::from_le_bytes(r.d[r.p..r.p + 8].try_into().unwrap());
                r.p += 8;
                emit!(op::CONST, 0, 0, v);
                if !dead {
                    h += 1
                }
            }
            0x45..=0xc4 => {
                emit!(o as u16, 0, 0, 0);
                let unary = matches!(o, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
                if !dead && !unary {
                    h -= 1
                }
            }
            0xfc => {
                let s = r.u();
                match s {
                    0..=7 => emit!(op::SAT + s as u16, 0, 0, 0),
                    8 => {
                        let seg = r.u() as u32;
                        r.u8();
                        emit!(op::MINIT, seg, 0, 0);
                        if !dead {
                            h -= 3
                        }
                    }
                    9 => {
                        let seg = r.u() as u32;
                        emit!(op::DDROP, seg, 0, 0);
                    }
                    10 => {
                        r.u8();
                        r.u8();
                        emit!(op::MCOPY, 0, 0, 0);
                        if !dead {
                            h -= 3
                        }
                    }
                    11 => {
                        r.u8();
                        emit!(op::MFILL, 0, 0, 0);
                        if !dead {
                            h -= 3
                        }
                    }
                    _ => panic!("0xfc {}", s),
                }
            }
            0xfe => {
                let s = r.u() as u16;
                if s == 3 {
                    r.u8(); // fence: nothing to do when every access is ordered
                } else {
                    let al = r.u();
                    if al & 0x40 != 0 {
                        let _ = r.u();
                    }
                    let off = r.u();
                    emit!(op::ATOMIC + s, 0, 0, off);
                    if !dead {
                        h -= match s {
                            0x00 => 1,
                            0x01 | 0x02 => 2,
                            0x10..=0x16 => 0,
                            0x17..=0x1d => 2,
                            0x1e..=0x47 => 1,
                            0x48..=0x4e => 2,
                            _ => panic!("0xfe {:#x}", s),
                        }
                    }
                }
            }
            x => panic!("wasm opcode {:#x} in {}", x, name),
        }
    }
    Func { ty, nlocals, nparams, nresults, code, tables, name }
}

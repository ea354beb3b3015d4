//! SMT-LIB2 back end: one long-lived solver process, push/pop per query.
use crate::expr::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    pub name: String,
    child: Child,
    sin: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: Vec<bool>,
    declared: usize,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub timeout_ms: u64,
    dump: Option<std::fs::File>,
    pub slowest: f64,
    since_restart: u64,
}

fn spawn(name: &str, timeout_ms: u64) -> Child {
    let mut c = match name {
        "cvc5" => {
            let mut c = Command::new("cvc5");
            c.args(["--incremental", "--produce-models", "--lang=smt2", &format!("--tlimit-per={}", timeout_ms)]);
            c
        }
        n => {
            let mut c = Command::new(n);
            c.args(["-in", "-smt2", &format!("-t:{}", timeout_ms)]);
            c
        }
    };
    c.stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start solver {}: {}", name, e))
}

impl Solver {
    pub fn new(name: &str, timeout_ms: u64, dump: Option<&str>) -> Self {
        let mut child = spawn(name, timeout_ms);
        let sin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver {
            name: name.to_string(),
            child,
            sin,
            out,
            emitted: vec![],
            declared: 0,
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            timeout_ms,
            dump: dump.map(|p| std::fs::File::create(p).unwrap()),
            slowest: 0.0,
            since_restart: 0,
        };
        s.prelude();
        s
    }
    fn prelude(&mut self) {
        self.send("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    }
    pub fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let mut child = spawn(&self.name, self.timeout_ms);
        self.sin = child.stdin.take().unwrap();
        self.out = BufReader::new(child.stdout.take().unwrap());
        self.child = child;
        self.emitted.clear();
        self.declared = 0;
        self.since_restart = 0;
        self.prelude();
    }
    fn send(&mut self, s: &str) {
        if let Some(d) = &mut self.dump {
            let _ = d.write_all(s.as_bytes());
        }
        self.sin.write_all(s.as_bytes()).expect("solver pipe");
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.out.read_line(&mut l).expect("solver read");
        if n == 0 {
            return "(error \"solver closed\")".into();
        }
        l.trim().to_string()
    }

    fn emit(&mut self, cx: &Ctx, e: E, buf: &mut String) {
        // iterative post-order
        let mut st = vec![(e, false)];
        if self.emitted.len() < cx.nodes.len() {
            self.emitted.resize(cx.nodes.len() + 4096, false);
        }
        while let Some((e, done)) = st.pop() {
            if self.emitted[e as usize] {
                continue;
            }
            let k = cx.key(e);
            if matches!(k.op, Op::Const(_) | Op::Var(_)) {
                continue;
            }
            if !done {
                st.push((e, true));
                for x in [k.a, k.b, k.c] {
                    if x != 0 && !self.emitted[x as usize] {
                        st.push((x, false));
                    }
                }
                continue;
            }
            self.emitted[e as usize] = true;
            if let Op::Tab(t) = k.op {
                emit_tab(e, k.w, &cx.tabs[t as usize], buf);
                continue;
            }
            let n = |x: E| name(cx, x);
            let body = match k.op {
                Op::Not => format!("(bvnot {})", n(k.a)),
                Op::Add => format!("(bvadd {} {})", n(k.a), n(k.b)),
                Op::Sub => format!("(bvsub {} {})", n(k.a), n(k.b)),
                Op::Mul => format!("(bvmul {} {})", n(k.a), n(k.b)),
                Op::UDiv => format!("(bvudiv {} {})", n(k.a), n(k.b)),
                Op::SDiv => format!("(bvsdiv {} {})", n(k.a), n(k.b)),
                Op::URem => format!("(bvurem {} {})", n(k.a), n(k.b)),
                Op::SRem => format!("(bvsrem {} {})", n(k.a), n(k.b)),
                Op::And => format!("(bvand {} {})", n(k.a), n(k.b)),
                Op::Or => format!("(bvor {} {})", n(k.a), n(k.b)),
                Op::Xor => format!("(bvxor {} {})", n(k.a), n(k.b)),
                Op::Shl => format!("(bvshl {} {})", n(k.a), n(k.b)),
                Op::LShr => format!("(bvlshr {} {})", n(k.a), n(k.b)),
                Op::AShr => format!("(bvashr {} {})", n(k.a), n(k.b)),
                Op::Eq => format!("(ite (= {} {}) #b1 #b0)", n(k.a), n(k.b)),
                Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", n(k.a), n(k.b)),
                Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", n(k.a), n(k.b)),
                Op::Ite => format!("(ite (= {} #b1) {} {})", n(k.a), n(k.b), n(k.c)),
                Op::Concat => format!("(concat {} {})", n(k.a), n(k.b)),
                Op::Extract(lo) => format!("((_ extract {} {}) {})", lo + k.w - 1, lo, n(k.a)),
                Op::ZExt => format!("((_ zero_extend {}) {})", k.w - cx.w(k.a), n(k.a)),
                Op::SExt => format!("((_ sign_extend {}) {})", k.w - cx.w(k.a), n(k.a)),
                _ => unreachable!(),
            };
            buf.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", e, k.w, body));
        }
    }

    /// Satisfiability of the conjunction of width-1 expressions; the model is indexed by variable id.
    pub fn check(&mut self, cx: &Ctx, cs: &[E]) -> (Res, Vec<u64>) {
        let t0 = Instant::now();
        if self.since_restart > 20000 {
            self.restart();
        }
        self.since_restart += 1;
        let mut buf = String::new();
        while self.declared < cx.vars.len() {
            let (_, w) = cx.vars[self.declared];
            buf.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", self.declared, w));
            self.declared += 1;
        }
        for &c in cs {
            self.emit(cx, c, &mut buf);
        }
        buf.push_str("(push 1)\n");
        for &c in cs {
            buf.push_str(&format!("(assert (= {} #b1))\n", name(cx, c)));
        }
        buf.push_str("(check-sat)\n");
        self.send(&buf);
        self.sin.flush().unwrap();
        let l = self.line();
        self.queries += 1;
        let mut model = vec![];
        let r = match l.as_str() {
            "sat" => {
                self.sat += 1;
                model = vec![0u64; cx.vars.len()];
                if !cx.vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    for i in 0..cx.vars.len() {
                        q.push_str(&format!("v{} ", i));
                    }
                    q.push_str("))\n");
                    self.send(&q);
                    self.sin.flush().unwrap();
                    // read a balanced s-expression
                    let mut txt = String::new();
                    let mut depth = 0i64;
                    loop {
                        let l = self.line();
                        for ch in l.chars() {
                            if ch == '(' {
                                depth += 1
                            } else if ch == ')' {
                                depth -= 1
                            }
                        }
                        txt.push_str(&l);
                        txt.push(' ');
                        if depth <= 0 {
                            break;
                        }
                    }
                    let toks: Vec<&str> = txt
                        .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
                        .filter(|s| !s.is_empty())
                        .collect();
                    let mut i = 0;
                    let mut got = 0;
                    while i + 1 < toks.len() {
                        if let Some(n) = toks[i].strip_prefix('v') {
                            if let Ok(id) = n.parse::<usize>() {
                                let v = toks[i + 1];
                                let val = if let Some(h) = v.strip_prefix("#x") {
                                    u64::from_str_radix(h, 16).unwrap()
                                } else if let Some(b) = v.strip_prefix("#b") {
                                    u64::from_str_radix(b, 2).unwrap()
                                } else {
                                    panic!("model value {}", v)
                                };
                                model[id] = val;
                                got += 1;
                            }
                        }
                        i += 2;
                    }
                    assert_eq!(got, cx.vars.len(), "incomplete model: {}", txt);
                }
                Res::Sat
            }
            "unsat" => {
                self.unsat += 1;
                Res::Unsat
            }
            x => {
                // "unknown", "timeout" or an (error ...) line: inconclusive
                if x.starts_with("(error") {
                    eprintln!("solver: {}", x);
                }
                self.unknown += 1;
                self.time += t0.elapsed().as_secs_f64();
                self.restart();
                return (Res::Unknown, vec![]);
            }
        };
        self.send("(pop 1)\n");
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest {
            self.slowest = dt;
        }
        (r, model)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn lit(w: u8, v: u64) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

/// A value table is emitted as reduced decision trees over its input bits: one per run of output bits that
/// depend on the same input bits.
fn emit_tab(e: E, w: u8, t: &Tab, buf: &mut String) {
    use std::fmt::Write as _;
    let n = t.bits.len();
    // deps[i]: the output bits that depend on input bit i
    let mut deps = vec![0u64; n];
    for (i, d) in deps.iter_mut().enumerate() {
        let st = 1usize << i;
        for x in 0..t.vals.len() {
            if x & st == 0 {
                *d |= t.vals[x] ^ t.vals[x | st];
            }
        }
    }
    let dep = |b: u8| (0..n).filter(|&i| deps[i] >> b & 1 == 1).collect::<Vec<_>>();
    let mut parts: Vec<String> = vec![];
    let mut cnt = 0;
    let mut lo = 0u8;
    while lo < w {
        let on = dep(lo);
        let mut hi = lo + 1;
        while hi < w && dep(hi) == on {
            hi += 1;
        }
        let k = hi - lo;
        let bits: Vec<(u32, u8)> = on.iter().map(|&i| t.bits[i]).collect();
        let vals: Vec<u64> = (0..1usize << on.len())
            .map(|y| {
                let x = on.iter().enumerate().fold(0usize, |z, (j, &i)| z | (y >> j & 1) << i);
                t.vals[x] >> lo & mask(k)
            })
            .collect();
        parts.push(tree(e, k, &bits, &vals, &mut cnt, buf));
        lo = hi;
    }
    parts.reverse();
    let body = if parts.len() == 1 { parts.remove(0) } else { format!("(concat {})", parts.join(" ")) };
    let _ = writeln!(buf, "(define-fun n{} () (_ BitVec {}) {})", e, w, body);
}
fn tree(e: E, w: u8, bits: &[(u32, u8)], vals: &[u64], cnt: &mut u32, buf: &mut String) -> String {
    use std::collections::HashMap;
    use std::fmt::Write as _;
    let mut layer: Vec<String> = vals.iter().map(|&v| lit(w, v)).collect();
    for &(v, b) in bits {
        let mut memo: HashMap<(String, String), String> = HashMap::new();
        let mut next = Vec::with_capacity(layer.len() / 2);
        for p in layer.chunks(2) {
            if p[0] == p[1] {
                next.push(p[0].clone());
                continue;
            }
            let k = (p[0].clone(), p[1].clone());
            let nm = memo.entry(k).or_insert_with(|| {
                let nm = format!("n{}_{}", e, *cnt);
                *cnt += 1;
                let _ = writeln!(
                    buf,
                    "(define-fun {} () (_ BitVec {}) (ite (= ((_ extract {} {}) v{}) #b1) {} {}))",
                    nm, w, b, b, v, p[1], p[0]
                );
                nm
            });
            next.push(nm.clone());
        }
        layer = next;
    }
    layer.remove(0)
}

fn name(cx: &Ctx, e: E) -> String {
    let k = cx.key(e);
    match k.op {
        Op::Const(v) => lit(k.w, v),
        Op::Var(i) => format!("v{}", i),
        _ => format!("n{}", e),
    }
}

//! wsym: SMT-based symbolic execution of a wasm module.
//!   wsym MODULE.wasm EXPORT [--solver z3] [--timeout-ms N] [--seed N] [--max-seconds N] [--out FILE.json] ...
mod exec;
mod expr;
mod smt;
mod wasm;
use exec::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u8, u64)]) -> String {
    let p: Vec<String> = v.iter().map(|(w, x)| format!("[{},\"{:#x}\"]", w, x)).collect();
    format!("[{}]", p.join(","))
}
fn nums(v: &[u64]) -> String {
    let p: Vec<String> = v.iter().map(|x| format!("\"{:#x}\"", x)).collect();
    format!("[{}]", p.join(","))
}

fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| -> String {
        a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let path = &a[1];
    let export = &a[2];
    let t0 = std::time::Instant::now();
    let bytes = std::fs::read(path).expect("module");
    let m = wasm::parse(&bytes);
    let solver = opt("--solver", "z3-new");
    let dump = opt("--dump", "");
    let sol = smt::Solver::new(&solver, opt("--timeout-ms", "60000").parse().unwrap(), if dump.is_empty() { None } else { Some(&dump) });
    let lim = Limits {
        max_steps: opt("--max-steps", "100000000000").parse().unwrap(),
        max_paths: opt("--max-paths", "200000").parse().unwrap(),
        max_concretize: opt("--max-concretize", "70000").parse().unwrap(),
        mux_bits: opt("--mux-bits", "12").parse().unwrap(),
        max_violations: opt("--max-violations", "6").parse().unwrap(),
        max_seconds: opt("--max-seconds", "800").parse().unwrap(),
    };
    let mut e = Engine::new(&m, sol, lim, opt("--seed", "1").parse().unwrap());
    e.cx.tab_max = opt("--mux-bits", "12").parse().unwrap();
    e.sample_cap = opt("--samples", "32").parse().unwrap();
    e.mode = opt("--mode", "0").parse().unwrap();
    e.preemptions = opt("--preemptions", "1").parse().unwrap();
    e.per_place = opt("--per-place", "3").parse().unwrap();
    let list = |n: &str| -> Option<Vec<u64>> {
        a.iter().position(|x| x == n).map(|i| a[i + 1].split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x.trim_start_matches("0x"), 16).unwrap()).collect())
    };
    e.fixed = list("--fixed"); // comma-separated hexadecimal numbers
    e.schedule = list("--schedule");
    e.run(export);
    let mut o = String::new();
    let _ = writeln!(o, "{{\"harness\":{},", js(export));
    let _ = writeln!(o, "\"error\":{},", e.error.as_ref().map_or("null".into(), |s| js(s)));
    let _ = writeln!(
        o,
        "\"paths\":{},\"expected_panics\":{},\"pruned\":{},\"forks\":{},\"branches\":{},\"by_table\":{},\"steps\":{},\"sym_steps\":{},\"muxes\":{},\"switches\":{},\"nodes\":{},\"inputs_declared\":{},",
        e.paths, e.trapped_ok, e.pruned, e.forks, e.branches, e.by_table, e.steps, e.sym_steps, e.muxes, e.switches, e.cx.nodes.len(), e.cx.vars.len()
    );
    let _ = writeln!(
        o,
        "\"solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"wall_s\":{:.3},",
        js(&solver), e.sol.queries, e.sol.sat, e.sol.unsat, e.sol.unknown, e.sol.time, e.sol.slowest, t0.elapsed().as_secs_f64()
    );
    let v: Vec<String> = e
        .asserts
        .iter()
        .map(|(k, s)| {
            format!(
                "{}:{{\"reached\":{},\"unsat\":{},\"constant\":{},\"violated\":{}}}",
                js(k), s.reached, s.discharged, s.trivial, s.violated
            )
        })
        .collect();
    let _ = writeln!(o, "\"asserts\":{{{}}},", v.join(",\n"));
    let v: Vec<String> = e.covers.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let _ = writeln!(o, "\"covers\":{{{}}},", v.join(","));
    let v: Vec<String> = e
        .violations
        .iter()
        .map(|x| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"at\":{},\"inputs\":{},\"trace\":{}{}}}",
                js(&x.kind), js(&x.msg), js(&x.at), inputs(&x.inputs), nums(&x.trace),
                x.threads.as_ref().map_or(String::new(), |t| format!(",\"inputs_of\":{:?},\"schedule\":{}", t.0, nums(&t.1)))
            )
        })
        .collect();
    let _ = writeln!(o, "\"violations\":[{}],", v.join(",\n"));
    let v: Vec<String> = e
        .samples
        .iter()
        .map(|x| format!("{{\"inputs\":{},\"inputs_of\":{:?},\"trace\":{},\"end\":{}}}", inputs(&x.0), x.3, nums(&x.1), js(&x.2)))
        .collect();
    let _ = writeln!(o, "\"samples\":[{}],", v.join(",\n"));
    let v: Vec<String> = e.outputs.iter().map(|x| js(&String::from_utf8_lossy(x))).collect();
    let _ = writeln!(o, "\"outputs\":[{}],", v.join(","));
    let mut names: Vec<String> = e
        .funcs_hit
        .iter()
        .enumerate()
        .filter(|x| *x.1 > 0)
        .map(|(i, _)| short(&m.funcs[i].name))
        .collect();
    names.sort();
    names.dedup();
    let v: Vec<String> = names.iter().map(|x| js(x)).collect();
    let _ = writeln!(o, "\"functions\":[{}]}}", v.join(","));
    let f = opt("--out", "");
    if f.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(f, o).unwrap();
    }
    if e.error.is_some() {
        2
    } else if !e.violations.is_empty() {
        1
    } else {
        0
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

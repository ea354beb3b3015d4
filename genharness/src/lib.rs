//! Harnesses for the circuit price generator.
#[path = "../../harness/src/vp.rs"]
pub mod vp;

fn other_thread(_: u64) {}

use zkevm_opcode_defs::circuit_prices as c;
use zkevm_opcode_defs::system_params as s;

/// Value of `pub const NAME: u32 = VALUE;` in the text; !0 if there is not exactly one.
fn constant(text: &str, name: &str) -> u64 {
    let mut r = !0u64;
    let mut n = 0;
    for l in text.lines() {
        let l = match l.trim().strip_prefix("pub const ") {
            Some(l) => l,
            None => continue,
        };
        let (nm, rest) = match l.split_once(':') {
            Some(x) => x,
            None => continue,
        };
        if nm.trim() != name {
            continue;
        }
        n += 1;
        let v = rest.split_once('=').map_or("", |x| x.1).trim().trim_end_matches(';').trim();
        r = v.replace('_', "").parse::<u32>().map_or(!0, |v| v as u64);
    }
    if n == 1 {
        r
    } else {
        !0
    }
}

const N: usize = 18;
/// Name, published value, and what the price has to be: 1 circuit over its capacity (rounded up), or a given value.
fn rows() -> [(&'static str, u64, u64); N] {
    let circuit = s::ERGS_PER_CIRCUIT as u64;
    let tx = s::MAX_TX_ERGS_LIMIT as u64;
    let block = s::MAX_PUBDATA_PER_BLOCK as u64;
    let up = |a: u64, b: u64| (a + b - 1) / b;
    let min = |cap: u64, bytes: u64| if block <= cap * bytes { 0 } else { up(tx, cap) };
    let init = min(4600, s::INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64);
    let rep = min(7400, s::REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64);
    macro_rules! r {
        ($n:ident, $v:expr) => {
            (stringify!($n), c::$n as u64, $v)
        };
    }
    [
        r!(VM_CYCLE_COST_IN_ERGS, up(circuit, 23000)),
        r!(RAM_PERMUTATION_COST_IN_ERGS, up(circuit, 260000)),
        r!(CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS, up(circuit, 2 * 12100)),
        r!(STORAGE_APPLICATION_COST_IN_ERGS, up(circuit, 118)),
        r!(CODE_DECOMMITTER_SORTER_COST_IN_ERGS, up(circuit, 192500)),
        r!(LOG_DEMUXER_COST_IN_ERGS, up(circuit, 101500)),
        r!(STORAGE_SORTER_COST_IN_ERGS, up(circuit, 79000)),
        r!(EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS, up(circuit, 88000)),
        r!(INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS, up(circuit, 4600)),
        r!(REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS, up(circuit, 7400)),
        r!(CODE_DECOMMITMENT_SORTER_COST_IN_ERGS, up(circuit, 192500)),
        r!(L1_MESSAGE_MIN_COST_IN_ERGS, up(tx, 512)),
        r!(INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS, init),
        r!(REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS, rep),
        r!(STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS, init.max(rep)),
        r!(KECCAK256_CIRCUIT_COST_IN_ERGS, up(circuit, 2050)),
        r!(SHA256_CIRCUIT_COST_IN_ERGS, up(circuit, 11500)),
        r!(ECRECOVER_CIRCUIT_COST_IN_ERGS, up(circuit, 72)),
    ]
}

/// Running the generator reproduces every price the crate publishes, and both are the specified ones.
fn generator() {
    wrap::run();
    let files = shim::captured::take();
    vp::check(files.len() == 1, "the generator writes one file");
    let ok = files.first().map_or(false, |f| f.0.trim_start_matches("./") == "src/circuit_prices.rs");
    vp::check(ok, "the generator writes src/circuit_prices.rs");
    let text = files.first().map_or(String::new(), |f| String::from_utf8_lossy(&f.1).into_owned());
    let rows = core::hint::black_box(rows());
    let gen: Vec<u64> = rows.iter().map(|r| constant(&text, r.0)).collect();
    let i = vp::bits(5) as usize;
    vp::assume(i < N);
    vp::observe(gen[i]);
    vp::eq(gen[i], rows[i].1, "the generated price is the published one");
    vp::eq(gen[i], rows[i].2, "the generated price is the smallest that pays for its circuit");
    // whatever else the file contains, it is constants and comments
    let l = vp::bits(6) as usize;
    let bad: Vec<u64> = (0..64)
        .map(|k| text.lines().nth(k).map_or(0, |l| !(l.trim().is_empty() || l.starts_with("//") || l.starts_with("pub const ") && l.ends_with(';')) as u64))
        .collect();
    vp::eq(bad[l], 0, "the generated file is a list of constants");
}

mod exports {
    #[no_mangle]
    pub extern "C" fn gen_generator() {
        crate::vp::begin();
        crate::vp::setup();
        super::generator()
    }
}
pub fn lookup(n: &str) -> Option<fn()> {
    if n == "gen_generator" {
        return Some(|| {
            crate::vp::setup();
            generator()
        });
    }
    None
}

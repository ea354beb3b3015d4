// Runs one harness natively on concrete inputs:
//   replay HARNESS width:hex width:hex ...
// or, with "-", reads many input lines from stdin and prints one JSON result line per input line.
use vharness::vp;

type Inputs = Vec<(u32, u64)>;
fn run(f: fn(), (inputs, second): (Inputs, Inputs)) -> String {
    vp::N.with(|s| {
        let mut s = s.borrow_mut();
        *s = vp::Native::default();
        s.inputs = inputs;
        s.second = second;
    });
    let r = std::panic::catch_unwind(f);
    let mut panic = None;
    if let Err(e) = r {
        if e.downcast_ref::<vp::Stop>().is_none() {
            panic = Some(
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into()),
            );
        }
    }
    vp::N.with(|s| {
        let s = s.borrow();
        let q = |x: &str| format!("\"{}\"", x.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
        let tr: Vec<String> = s.trace.iter().map(|x| format!("\"{:#x}\"", x)).collect();
        let fl: Vec<String> = s.failures.iter().map(|x| q(x)).collect();
        format!(
            "{{\"trace\":[{}],\"failures\":[{}],\"panic\":{},\"assume_failed\":{},\"consumed\":{}}}",
            tr.join(","),
            fl.join(","),
            panic.map_or("null".to_string(), |p| q(&p)),
            s.assume_failed,
            s.pos
        )
    })
}

/// `2/width:hex` is an input of the second thread.
fn parse<'a>(it: impl Iterator<Item = &'a str>) -> (Inputs, Inputs) {
    let mut r = (vec![], vec![]);
    for x in it.filter(|x| !x.is_empty()) {
        let (to, x) = match x.strip_prefix("2/") {
            Some(x) => (&mut r.1, x),
            None => (&mut r.0, x),
        };
        let (w, v) = x.split_once(':').expect("width:hex");
        to.push((w.parse().unwrap(), u64::from_str_radix(v.trim_start_matches("0x"), 16).unwrap()));
    }
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let Some(f) = vharness::lookup(&a[1]) else {
        eprintln!("no harness {}", a[1]);
        std::process::exit(4);
    };
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("VP_QUIET").is_none() && i.payload().downcast_ref::<vp::Stop>().is_none() {
            eprintln!("{}", i);
        }
    }));
    if a.get(2).map(|s| s.as_str()) == Some("-") {
        for l in std::io::stdin().lines() {
            println!("{}", run(f, parse(l.unwrap().split_whitespace())));
        }
    } else {
        println!("{}", run(f, parse(a[2..].iter().map(|s| s.as_str()))));
    }
}

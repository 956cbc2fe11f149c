//! Search and replay driver.  It runs the real crate in /repo against independent executable
//! readings of the properties: (a) to find a failing input when a proof obligation fails, (b) as a
//! bounded stand-in, labelled as such, where a function is outside the verifier's reach.
mod core;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod docs;
mod p17;
mod p18;
mod p19;
mod p20;
mod p22;
mod p23;

use crate::core::Cx;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.first().cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let effort = get("--effort").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--only");
    std::panic::set_hook(Box::new(|_| {}));
    let mut cx = Cx::new(seed, effort, only);
    cx.trace = get("--trace").map(|p| std::fs::File::create(p).unwrap());
    let out = get("--out");
    // a case that does not return within 30 s is reported as a failure of its rule
    let current = cx.current.clone();
    let (prop2, out2) = (prop.clone(), out.clone());
    std::thread::spawn(move || {
        let mut last = (0u64, 0u32);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let c = current.lock().unwrap().clone();
            last = if c.0 != 0 && c.0 == last.0 { (c.0, last.1 + 1) } else { (c.0, 0) };
            if last.1 >= 30 {
                emit(&out2, serde_json::json!({"property": prop2, "seed": seed, "effort": effort,
                    "evaluations": c.0, "distinct": 0, "rules": {},
                    "failures": [{"rule": c.1, "input": c.2, "detail": "did not return within 30 s"}]}));
                std::process::exit(0);
            }
        }
    });
    match prop.as_str() {
        "P01" => p01::run(&mut cx),
        "P02" => p02::run(&mut cx),
        "P03" => p03::run(&mut cx),
        "P04" => p04::run(&mut cx),
        "P05" => p05::run(&mut cx),
        "P06" => p06::run(&mut cx),
        "P07" => p07::run(&mut cx),
        "P08" => p08::run(&mut cx),
        "P09" => p09::run(&mut cx),
        "P10" => p10::run(&mut cx),
        "P11" => p11::run(&mut cx),
        "P12" => p12::run(&mut cx),
        "P13" => p13::run(&mut cx),
        "P14" => p14::run(&mut cx),
        "P15" => p15::run(&mut cx),
        "P16" => p16::run(&mut cx),
        "P17" => p17::run(&mut cx),
        "P18" => p18::run(&mut cx),
        "P19" => p19::run(&mut cx),
        "P20" => p20::run(&mut cx),
        "P22" => p22::run(&mut cx),
        "P23" => p23::run(&mut cx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
    emit(&out, serde_json::json!({
        "property": prop, "seed": seed, "effort": effort,
        "evaluations": cx.evals, "distinct": cx.distinct(),
        "rules": cx.samples.iter().map(|(k, (n, s))| (k.clone(), serde_json::json!({"cases": n, "samples": s}))).collect::<serde_json::Map<_, _>>(),
        "failures": cx.failures.iter().map(|f| serde_json::json!({"rule": f.rule, "input": f.input, "detail": f.detail})).collect::<Vec<_>>(),
    }));
}

fn emit(out: &Option<String>, v: serde_json::Value) {
    let text = serde_json::to_string_pretty(&v).unwrap();
    match out {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{text}"),
    }
}

//! Executable contracts: the same statements as the Verus contracts, evaluated on the real code.
//! usage: harness PROP --seed N --tier quick|thorough --scale F --secs S --out FILE
//!        harness PROP --replay FILE
mod fw;
#[allow(dead_code)]
mod model;
#[cfg(any(feature = "P01", feature = "P02", feature = "P03"))]
#[allow(dead_code)]
mod subset;
#[cfg(any(feature = "P02", feature = "P03"))]
#[allow(dead_code)]
mod p02;
#[cfg(feature = "P03")]
mod p03;
#[cfg(any(feature = "P04", feature = "P05"))]
#[allow(dead_code)]
mod p04;
#[cfg(feature = "P05")]
mod p05;
#[cfg(any(feature = "P06", feature = "P07"))]
#[allow(dead_code)]
mod p06;
#[cfg(feature = "P07")]
mod p07;
#[cfg(feature = "P08")]
mod p08;
#[cfg(feature = "P09")]
mod p09;
#[cfg(feature = "P10")]
mod p10;
#[cfg(feature = "P11")]
mod p11;
#[cfg(feature = "P12")]
mod p12;
#[cfg(feature = "P13")]
mod p13;
#[cfg(feature = "P14")]
mod p14;
#[cfg(feature = "P15")]
mod p15;
#[cfg(feature = "P16")]
mod p16;
#[cfg(feature = "P17")]
mod p17;
#[cfg(feature = "P18")]
mod p18;

use fw::*;
use serde_json::json;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: Counting = Counting;

fn gens(prop: &str) -> Option<Vec<Gen>> {
    Some(match prop {
        #[cfg(feature = "P01")]
        "P01" => subset::gens(),
        #[cfg(feature = "P02")]
        "P02" => p02::gens(),
        #[cfg(feature = "P03")]
        "P03" => p03::gens(),
        #[cfg(feature = "P04")]
        "P04" => p04::gens(),
        #[cfg(feature = "P05")]
        "P05" => p05::gens(),
        #[cfg(feature = "P06")]
        "P06" => p06::gens(),
        #[cfg(feature = "P07")]
        "P07" => p07::gens(),
        #[cfg(feature = "P08")]
        "P08" => p08::gens(),
        #[cfg(feature = "P09")]
        "P09" => p09::gens(),
        #[cfg(feature = "P10")]
        "P10" => p10::gens(),
        #[cfg(feature = "P11")]
        "P11" => p11::gens(),
        #[cfg(feature = "P12")]
        "P12" => p12::gens(),
        #[cfg(feature = "P13")]
        "P13" => p13::gens(),
        #[cfg(feature = "P14")]
        "P14" => p14::gens(),
        #[cfg(feature = "P15")]
        "P15" => p15::gens(),
        #[cfg(feature = "P16")]
        "P16" => p16::gens(),
        #[cfg(feature = "P17")]
        "P17" => p17::gens(),
        #[cfg(feature = "P18")]
        "P18" => p18::gens(),
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let gens = match gens(&prop) {
        Some(g) => g,
        None => {
            eprintln!("harness: no cases for {:?}", prop);
            std::process::exit(2)
        }
    };
    install_hook();
    if let Some(f) = get("--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
        let f = &v["failing_case"];
        let g = gens.iter().find(|g| g.name == f["gen"].as_str().unwrap()).expect("unknown generator");
        let ch = f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        watchdog(|f| {
            println!("REPLAY: fails: {}", f.message);
            std::process::exit(1)
        });
        let (r, notes) = replay(g, f["small"].as_bool().unwrap_or(false), ch, f["seed"].as_u64());
        for n in notes {
            println!("  {}", n);
        }
        match r {
            Ok(_) => println!("REPLAY: holds"),
            Err(m) => {
                println!("REPLAY: fails: {}", m);
                std::process::exit(1)
            }
        }
        return;
    }
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
    let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(120);
    let only = get("--gen");
    let gens: Vec<Gen> = gens.into_iter().filter(|g| only.as_ref().map(|o| o == g.name).unwrap_or(true)).collect();
    let t0 = Instant::now();
    let outp = get("--out");
    let fj = |f: &Failure| json!({"gen": f.gen, "small": f.small, "choices": f.choices, "seed": f.seed, "input": f.notes, "message": f.message});
    {
        let outp = outp.clone();
        watchdog(move |f| {
            let out = json!({"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "exhaustive": [], "samples": [], "wall_s": t0.elapsed().as_secs_f64(), "failures": [fj(&f)]});
            let s = serde_json::to_string_pretty(&out).unwrap();
            match &outp {
                Some(p) => std::fs::write(p, s).unwrap(),
                None => println!("{}", s),
            }
            std::process::exit(1)
        });
    }
    let st = run(&gens, seed, thorough, scale, t0 + Duration::from_secs(secs));
    let out = json!({
        "evaluations": st.evaluations, "nontrivial": st.nontrivial, "distinct_nontrivial": st.distinct,
        "exhaustive": st.exhausted.iter().map(|(g, n, c)| json!({"gen": g, "cases": n, "complete": c})).collect::<Vec<_>>(),
        "samples": st.samples, "wall_s": t0.elapsed().as_secs_f64(),
        "failures": st.failures.iter().map(fj).collect::<Vec<_>>(),
    });
    let s = serde_json::to_string_pretty(&out).unwrap();
    match outp {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{}", s),
    }
    std::process::exit(if st.failures.is_empty() { 0 } else { 1 });
}

mod exec;
mod expr;
mod ir;
mod par;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let mut a = std::env::args().skip(1);
    let ll = a.next().expect("usage: symx MODULE.ll HARNESS [options]");
    let harness = a.next().expect("harness");
    let mut cfg = exec::Cfg { time: Duration::from_secs(300), max_steps: 1_000_000_000, max_paths: 50_000_000, max_viol: 3, samples: 16, shard: None, seed: 1, jobs: 1, tier: 0 };
    let mut out = None;
    let mut qt = 20_000u32;
    while let Some(k) = a.next() {
        let v = a.next().expect("option value");
        match k.as_str() {
            "--time" => cfg.time = Duration::from_secs_f64(v.parse().unwrap()),
            "--steps" => cfg.max_steps = v.parse().unwrap(),
            "--paths" => cfg.max_paths = v.parse().unwrap(),
            "--viol" => cfg.max_viol = v.parse().unwrap(),
            "--samples" => cfg.samples = v.parse().unwrap(),
            "--qtimeout" => qt = v.parse().unwrap(),
            "--seed" => cfg.seed = v.parse().unwrap(),
            "--jobs" => cfg.jobs = v.parse().unwrap(),
            "--tier" => cfg.tier = v.parse().unwrap(),
            "--shard" => {
                let (k, n) = v.split_once('/').unwrap();
                cfg.shard = Some((k.parse().unwrap(), n.parse().unwrap()));
            }
            "--out" => out = Some(v),
            _ => panic!("option {}", k),
        }
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("module");
    let m = ir::Module::load(src);
    let tload = t0.elapsed();
    let mut e = exec::Engine::new(m, cfg, qt);
    let t1 = Instant::now();
    e.run(&harness);
    let trun = t1.elapsed();
    let s = e.solver.st.clone();
    let r = &e.rep;
    let mut o = String::new();
    let _ = write!(o, "{{\"harness\":{},\"paths\":{},\"assumed\":{},\"forks\":{},\"instructions\":{},\"max_instructions\":{},\"max_call_depth\":{},\"max_symbolic_bytes\":{}", js(&harness), r.paths, r.assumed, r.forks, r.steps, r.maxsteps, r.maxdepth, r.maxvars);
    let _ = write!(o, ",\"load_s\":{:.2},\"run_s\":{:.2},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"terms\":{},\"z3\":{}", tload.as_secs_f64(), trun.as_secs_f64(), s.queries, s.sat, s.unsat, s.unknown, s.cached, s.time.as_secs_f64(), s.maxq.as_secs_f64(), expr::nnodes() as u64 + e.terms, js(&solver::Solver::version()));
    let _ = write!(o, ",\"covers\":{{{}}}", r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"inconclusive\":{{{}}}", r.incon.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        ",\"violations\":[{}]",
        r.viol
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"loc\":{},\"func\":{},\"trace\":[{}],\"tape\":\"{}\",\"fill\":{},\"count\":{}}}",
                js(&v.kind),
                js(&v.loc),
                js(&v.func),
                v.trace.iter().take(12).map(|t| js(t)).collect::<Vec<_>>().join(","),
                hex(&v.tape),
                v.fill.map(|f| f.to_string()).unwrap_or("null".into()),
                v.count
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(o, ",\"samples\":[{}]", r.samples.iter().map(|(t, v)| format!("{{\"tape\":\"{}\",\"outs\":[{}]}}", hex(t), v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"functions\":{}", r.funcs.len());
    // source lines of the library that were executed symbolically
    let srcs = e.source();
    let mut lines: std::collections::BTreeMap<String, Vec<u32>> = Default::default();
    let mut names: std::collections::BTreeSet<String> = Default::default();
    for (f, l, n) in &srcs {
        if let Some(p) = f.find("/repo/src/") {
            lines.entry(f[p + 10..].to_string()).or_default().push(*l);
            names.insert(format!("{}: {}", &f[p + 10..], n));
        }
    }
    let _ = write!(o, ",\"lines\":{{{}}}", lines.iter().map(|(f, l)| {
        let mut l = l.clone();
        l.sort();
        l.dedup();
        format!("{}:{:?}", js(f), l)
    }).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"encoded\":[{}]}}\n", names.iter().map(|n| js(n)).collect::<Vec<_>>().join(","));
    match &out {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => print!("{}", o),
    }
    if !e.forksites.is_empty() {
        let mut v: Vec<_> = e.forksites.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (k, n) in v.iter().take(30) {
            eprintln!("{:8} {}", n, k);
        }
    }
    // leaving through exit skips the teardown of large term tables
    let code = if !r.viol.is_empty() {
        1
    } else if !r.incon.is_empty() {
        2
    } else {
        0
    };
    std::process::exit(code);
}

mod exec;
mod ir;
mod mem;
mod smt;
mod term;

use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new()
        .stack_size(16 << 30)
        .spawn(move || real_main(args))
        .expect("thread");
    let r = h.join();
    std::process::exit(match r {
        Ok(c) => c,
        Err(_) => 3,
    });
}

/// symir IR-FILE ENTRY [--out FILE] [--scratch DIR] [--time SECS] [--ob-time SECS] [--jobs N] [--replay FILE] [--debug]
fn real_main(args: Vec<String>) -> i32 {
    let mut pos = vec![];
    let mut out = None;
    let mut scratch = String::from("/tmp");
    let mut time = 800u64;
    let mut obt = 120u64;
    let mut qt = 4000u64;
    let mut jobs = 8;
    let mut replay = None;
    let mut debug = false;
    let mut only: Vec<u64> = vec![];
    let mut prof = false;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut v = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--out" => out = Some(v()),
            "--scratch" => scratch = v(),
            "--time" => time = v().parse().unwrap(),
            "--ob-time" => obt = v().parse().unwrap(),
            "--q-ms" => qt = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--replay" => replay = Some(v()),
            "--only" => only = v().split(',').map(|x| x.parse().unwrap()).collect(),
            "--debug" => debug = true,
            "--prof" => prof = true,
            _ => pos.push(a.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&pos[0])));
    if debug {
        eprintln!("[load] {:.2}s", t0.elapsed().as_secs_f64());
    }
    if !m.names.contains_key(&pos[1]) {
        eprintln!("no entry {}", pos[1]);
        return 3;
    }
    let mut ex = exec::Exec::new(m);
    ex.deadline = Instant::now() + Duration::from_secs(time);
    ex.ob_timeout = Duration::from_secs(obt);
    ex.smt.timeout_ms = qt;
    ex.smt.deadline = Some(ex.deadline);
    ex.scratch = scratch;
    ex.jobs = jobs;
    ex.debug = debug;
    ex.only = only;
    if let Some(f) = replay {
        let mut h = std::collections::HashMap::new();
        for l in std::fs::read_to_string(&f).expect("replay file").lines() {
            if l.starts_with('#') {
                continue;
            }
            if let Some((a, b)) = l.rsplit_once(' ') {
                if let Ok(v) = b.parse::<u64>() {
                    h.insert(a.to_string(), v);
                }
            }
        }
        ex.replay = Some(h);
    }
    let st = ex.initial(&pos[1]);
    ex.run_until(st, exec::NOSTOP);
    ex.finish();
    if prof {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for ((f, b), (n, t)) in v.iter().take(25) {
            let fu = m.func(*f);
            eprintln!("[prof] {:6} {:8.2}s {} {}", n, t, exec::demangle(&fu.name), fu.blocks[*b as usize].name);
        }
    }
    let text = ex.rep.to_text();
    if let Some(o) = out {
        std::fs::write(o, &text).expect("write report");
    } else {
        print!("{}", text);
    }
    eprintln!(
        "[symir] {} {:.1}s paths={} steps={} merges={} unmerged={} queries={} ({} unknown, {} ms) obligations={} ({} ms) violations={} inconclusive={}",
        pos[1],
        t0.elapsed().as_secs_f64(),
        ex.rep.paths,
        ex.rep.steps,
        ex.rep.merges,
        ex.rep.unmerged,
        ex.rep.queries,
        ex.rep.unknown,
        ex.rep.solver_ms,
        ex.rep.obligations,
        ex.rep.ob_ms,
        ex.rep.violations.len(),
        ex.rep.inconclusive.len()
    );
    if !ex.rep.violations.is_empty() {
        1
    } else if !ex.rep.inconclusive.is_empty() {
        2
    } else {
        0
    }
}

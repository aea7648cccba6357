mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn report(ex: &Ex, wall: f64) -> String {
    let st = &ex.st;
    let mut o = String::from("{");
    let num = |o: &mut String, k: &str, v: u64| o.push_str(&format!("{}:{},", js(k), v));
    num(&mut o, "paths", st.paths);
    num(&mut o, "pruned", st.pruned);
    num(&mut o, "panics", st.panics);
    num(&mut o, "limit", st.limit);
    num(&mut o, "unknown", st.unknown + ex.z.unknown);
    num(&mut o, "instrs", st.instrs);
    num(&mut o, "forks", st.forks);
    num(&mut o, "dropped", st.dropped);
    num(&mut o, "concretized", st.concretized);
    num(&mut o, "table_decisions", st.table_decisions);
    num(&mut o, "table_crosschecked", st.table_crosschecked);
    num(&mut o, "final_sat", st.final_sat);
    num(&mut o, "queries", ex.z.queries);
    num(&mut o, "q_hard", ex.z.hard);
    num(&mut o, "q_sat", ex.z.sat);
    num(&mut o, "q_unsat", ex.z.unsat);
    num(&mut o, "max_vars", st.max_vars as u64);
    num(&mut o, "nodes", ex.e.nodes.len() as u64);
    o.push_str(&format!("\"solver_s\":{:.3},", ex.z.time.as_secs_f64()));
    o.push_str(&format!("\"solver_longest_s\":{:.3},", ex.z.longest.as_secs_f64()));
    o.push_str(&format!("\"wall\":{wall:.3},"));
    let mut v: Vec<_> = st.engine.iter().collect();
    v.sort();
    o.push_str(&format!(
        "\"engine\":{{{}}},",
        v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",")
    ));
    let mut v: Vec<_> = st.checks.iter().collect();
    v.sort();
    o.push_str(&format!(
        "\"checks\":{{{}}},",
        v.iter()
            .map(|(k, n)| format!("{}:[{},{},{}]", js(k), n[0], n[1], n[2]))
            .collect::<Vec<_>>()
            .join(",")
    ));
    let mut v: Vec<_> = st.reach.iter().collect();
    v.sort();
    o.push_str(&format!(
        "\"reach\":{{{}}},",
        v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",")
    ));
    let mut v: Vec<_> = st.viol_count.iter().collect();
    v.sort();
    o.push_str(&format!(
        "\"viol_count\":{{{}}},",
        v.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",")
    ));
    o.push_str(&format!(
        "\"violations\":[{}],",
        st.violations
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"id\":{},\"input\":\"{}\",\"notes\":[{}],\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.id),
                hex(&v.input),
                v.notes.iter().map(|n| js(&String::from_utf8_lossy(n))).collect::<Vec<_>>().join(","),
                v.stack.iter().rev().take(12).map(|n| js(n)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    o.push_str(&format!(
        "\"samples\":[{}],",
        st.samples
            .iter()
            .map(|(i, l)| format!(
                "[\"{}\",[{}]]",
                hex(i),
                l.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    ));
    let fns: Vec<String> = ex
        .executed
        .iter()
        .enumerate()
        .filter(|(_, b)| **b)
        .map(|(i, _)| js(&ex.m.funcs[i].name))
        .collect();
    o.push_str(&format!("\"functions\":[{}],", fns.join(",")));
    o.push_str(&format!("\"z3\":{}}}", js(&z3::version())));
    o
}

fn main() {
    // deep expression evaluation is recursive
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    if args.len() < 3 {
        eprintln!("usage: symx FILE.ll FUNCTION --out DIR [--workers N] [--time S] [--max-instrs N]");
        std::process::exit(2);
    }
    let out = get("--out").expect("--out");
    std::fs::create_dir_all(&out).unwrap();
    let t0 = Instant::now();
    let m = match ir::Module::load(&args[1]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: {e}");
            std::process::exit(2);
        }
    };
    let workers = num("--workers", 8) as i64;
    let deadline = t0 + Duration::from_secs_f64(get("--time").and_then(|v| v.parse().ok()).unwrap_or(600.0));
    let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let shared = unsafe { &*(page as *const AtomicI64) };
    let stop: &'static AtomicI64 = unsafe { &*(page.add(128) as *const AtomicI64) };
    let stop_after = num("--stop-after", 200) as i64;
    let opts = Opts {
        known: get("--known").map(|v| v.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        stop: Some(stop),
        max_instrs: num("--max-instrs", 20_000_000),
        max_depth: num("--max-depth", 1500) as usize,
        max_viol: num("--max-viol", 6) as usize,
        max_samples: num("--samples", 40) as usize,
        seed: num("--seed", 1),
        crosscheck: num("--crosscheck", 20_000),
        params: get("--params").map(|v| v.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default(),
    };
    let mut ex = Ex::new(m, opts);
    ex.trace = args.iter().any(|a| a == "--trace");
    if let Err(e) = ex.start(&args[2]) {
        eprintln!("symx: {e}");
        std::process::exit(2);
    }
    shared.store(1, Ordering::SeqCst);
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let mut root = true;
    let mut last = Instant::now();
    let mut n_check = 0u32;
    loop {
        if ex.work.is_empty() {
            break;
        }
        n_check += 1;
        if Instant::now() >= deadline || stop.load(Ordering::Relaxed) >= stop_after {
            ex.st.dropped += ex.work.len() as u64;
            ex.work.clear();
            break;
        }
        if workers > 1
            && ex.work.len() >= 2
            && shared.load(Ordering::SeqCst) < workers
            && last.elapsed() > Duration::from_millis(if n_check < 64 { 10 } else { 40 })
        {
            let n = shared.fetch_add(1, Ordering::SeqCst);
            if n < workers {
                let pid = unsafe { fork() };
                if pid == 0 {
                    root = false;
                    let mine: Vec<State> =
                        std::mem::take(&mut ex.work).into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
                    ex.work = mine;
                    ex.st = Stats::default();
                    ex.z.reset_stats();
                    ex.executed.iter_mut().for_each(|b| *b = false);
                } else if pid > 0 {
                    let rest: Vec<State> =
                        std::mem::take(&mut ex.work).into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    ex.work = rest;
                } else {
                    shared.fetch_sub(1, Ordering::SeqCst);
                }
            } else {
                shared.fetch_sub(1, Ordering::SeqCst);
            }
            last = Instant::now();
        }
        ex.run_one();
    }
    shared.fetch_sub(1, Ordering::SeqCst);
    let r = report(&ex, t0.elapsed().as_secs_f64());
    let name = format!("{out}/part-{}.json", unsafe { getpid() });
    let mut f = std::fs::File::create(&name).unwrap();
    f.write_all(r.as_bytes()).unwrap();
    drop(f);
    if !root {
        unsafe { _exit(0) }
    }
    let mut bad = 0;
    loop {
        let mut st = 0i32;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p <= 0 {
            break;
        }
        if st != 0 {
            bad += 1;
        }
    }
    std::fs::write(format!("{out}/root.json"), format!("{{\"bad_workers\":{bad},\"wall\":{:.3}}}", t0.elapsed().as_secs_f64()))
        .unwrap();
    unsafe { _exit(0) }
}

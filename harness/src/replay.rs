//! Runs a harness natively against the real code on recorded inputs.
//!   replay NAME PARAMS HEX...      one line of JSON-ish output per input
//! With `-` as the only HEX, inputs are read from stdin, one per line.
use harness::symx::imp::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) >= 127 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = harness::HARNESSES
        .iter()
        .find(|h| h.0 == args[1])
        .unwrap_or_else(|| panic!("no harness {}", args[1]))
        .1;
    let params: Vec<u64> = args[2].split(',').filter_map(|x| x.parse().ok()).collect();
    let inputs: Vec<String> = if args[3] == "-" {
        std::io::stdin().lock().lines().map(|l| l.unwrap()).collect()
    } else {
        args[3..].to_vec()
    };
    static WHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        *WHERE.lock().unwrap() = i.to_string();
    }));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let out = std::io::stdout();
            for inp in inputs {
                WHERE.lock().unwrap().clear();
                R.with(|r| *r.borrow_mut() = Rec { input: unhex(&inp), params: params.clone(), ..Rec::default() });
                let res = catch_unwind(AssertUnwindSafe(f));
                let r = R.with(|r| std::mem::take(&mut *r.borrow_mut()));
                let (kind, msg) = match res {
                    Ok(()) => ("ok", String::new()),
                    Err(e) if e.is::<Assume>() => ("pruned", String::new()),
                    Err(e) if e.is::<Failed>() => ("check", r.fails[0].clone()),
                    Err(_) => ("panic", WHERE.lock().unwrap().clone()),
                };
                let notes: Vec<String> = r.notes.iter().map(|n| esc(&String::from_utf8_lossy(n))).collect();
                let log: Vec<String> = r.log.iter().map(|n| format!("\"{n}\"")).collect();
                let mut o = out.lock();
                writeln!(
                    o,
                    "\n\u{1}{{\"kind\":\"{kind}\",\"msg\":{},\"short\":{},\"used\":{},\"notes\":[{}],\"log\":[{}]}}",
                    esc(&msg),
                    r.short,
                    r.pos,
                    notes.join(","),
                    log.join(",")
                )
                .unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
    for e in ["dmm", "dm"] {
        let _ = std::fs::remove_file(std::env::temp_dir().join(format!("symx-replay-{}.{e}", std::process::id())));
    }
}

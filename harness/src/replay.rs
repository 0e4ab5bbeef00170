//! Replays inputs found by the executor against the real code.
//! usage: replay REFS-FILE|- ; one run per line on stdin: HARNESS v,v,v
//! prints one line per run: outcome, number of checks passed, cover mask, panicked-as-expected flag.
use std::io::{BufRead, Write};
use vh::sym::imp;
fn main() {
    let refs = std::env::args().nth(1).unwrap_or("-".into());
    if refs != "-" { load(&refs); }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned());
        if let Some(m) = m { eprintln!("{} at {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()); }
    }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split_whitespace();
        let name = match w.next() { Some(n) => n.to_string(), None => continue };
        let vals: Vec<u64> = w.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let f = vh::lookup(&name).expect("harness name");
        imp::reset(vals);
        let r = std::panic::catch_unwind(f);
        let (checks, cov, expect, _) = imp::state();
        let (what, pan) = match r {
            Ok(()) => if expect { ("nopanic".to_string(), 0) } else { ("ok".to_string(), 0) },
            Err(e) => if e.is::<imp::AssumeFailed>() { ("assume".to_string(), 0) }
                else if let Some(a) = e.downcast_ref::<imp::AssertFailed>() { (format!("assert:{}", a.0), 0) }
                else if expect { ("ok".to_string(), 1) } else { ("panic".to_string(), 0) },
        };
        let mut o = out.lock();
        writeln!(o, "{} {} {} {}", what, checks, cov, pan).unwrap();
        o.flush().unwrap();
    }
}
fn load(p: &str) {
    let t = std::fs::read_to_string(p).expect("reference tables");
    let mut id = 0;
    imp::REFS.with(|r| {
        let mut r = r.borrow_mut();
        for l in t.lines() {
            if l.is_empty() || l.starts_with('#') { continue; }
            if l.starts_with('T') { id = l.split_whitespace().nth(1).unwrap().parse().unwrap(); r.insert(id, Vec::new()); continue; }
            let (v, rest) = l.split_once(':').unwrap();
            let v: u64 = v.parse().unwrap();
            for q in rest.split_whitespace() {
                let (a, b) = q.split_once('-').unwrap_or((q, q));
                r.get_mut(&id).unwrap().push((u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap(), v as u32));
            }
        }
        for t in r.values_mut() { t.sort(); }
    });
}

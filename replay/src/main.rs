//! Executable oracles: they run the real code of /repo and compare what it
//! does with what the properties say.
//!
//!   replay search PROP --ms N --seed S --out FILE   look for a failing case
//!   replay case ORACLE SEED INDEX                   run one case again
//!   replay list
#![allow(unexpected_cfgs)]
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

mod gen;
mod oracles;
use gen::Gen;

/// What one case did.
pub struct Done {
    /// The input, written out.
    pub input: String,
    /// The case exercised the property (for instance, it was not rejected at once).
    pub nontrivial: bool,
    /// What is wrong, if anything.
    pub bad: Option<String>,
}

pub struct Oracle {
    pub prop: &'static str,
    pub name: &'static str,
    /// How the cases are made and what is compared.
    pub rule: &'static str,
    /// Relative share of the time budget.
    pub weight: u32,
    /// Upper limit of cases (0: no limit).
    pub max: u64,
    /// Longest time a case can take, a case that takes longer does not terminate.
    pub limit_ms: u64,
    pub run: fn(&mut Gen) -> Done,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_INFO: Mutex<Option<(String, u64, u64, u64)>> = Mutex::new(None);

/// The machine did not have what the case needs (a free port, say).
pub struct NoResources(pub std::io::Error);

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn note_panic(i: &std::panic::PanicHookInfo) {
    let at = i.location().map(|l| l.file().to_string()).unwrap_or_default();
    let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = at);
}

fn run_case(o: &Oracle, seed: u64, index: u64) -> Done {
    let mut g = Gen::new(seed, index);
    match catch_unwind(AssertUnwindSafe(|| (o.run)(&mut g))) {
        Ok(d) => d,
        Err(e) => {
            let in_harness = PANIC_AT.with(|p| p.borrow().starts_with("src/"));
            if e.is::<NoResources>() {
                return Done { input: g.note.clone(), nontrivial: false, bad: None };
            }
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // The sockets of the harness itself, not those of the code.
            if in_harness && ["AddrInUse", "AddrNotAvailable"].iter().any(|k| msg.contains(k)) {
                return Done { input: g.note.clone(), nontrivial: false, bad: None };
            }
            Done { input: g.note.clone(), nontrivial: true, bad: Some(format!("panicked: {}", msg)) }
        }
    }
}

fn violation_json(o: &Oracle, seed: u64, index: u64, d: &Done) -> String {
    format!(
        "{{\"property\":\"{}\",\"oracle\":\"{}\",\"seed\":{},\"index\":{},\"rule\":\"{}\",\"input\":\"{}\",\"observed\":\"{}\",\"replay_cmd\":\"python3 /verif/check.py --replay {} {} {}\"}}",
        o.prop,
        o.name,
        seed,
        index,
        esc(o.rule),
        esc(&d.input),
        esc(d.bad.as_deref().unwrap_or("")),
        o.name,
        seed,
        index
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = oracles::all();
    std::panic::set_hook(Box::new(note_panic));
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for o in &all {
                println!("{}\t{}\t{}", o.prop, o.name, o.rule);
            }
        }
        Some("case") => {
            let o = all.iter().find(|o| o.name == args[2]).expect("unknown oracle");
            let d = run_case(o, args[3].parse().unwrap(), args[4].parse().unwrap());
            println!("{}", d.input);
            match d.bad {
                None => println!("ok"),
                Some(b) => {
                    println!("VIOLATED: {}", b);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let prop = args[2].clone();
            let mut ms = 5000u64;
            let mut seed = 1u64;
            let mut out = String::new();
            let mut skip: HashSet<String> = HashSet::new();
            let mut i = 3;
            while i + 1 < args.len() {
                match args[i].as_str() {
                    "--ms" => ms = args[i + 1].parse().unwrap(),
                    "--seed" => seed = args[i + 1].parse().unwrap(),
                    "--out" => out = args[i + 1].clone(),
                    "--skip" => {
                        skip.insert(args[i + 1].clone());
                    }
                    _ => {}
                }
                i += 2;
            }
            let t0 = Instant::now();
            let outfile = out.clone();
            // If a panic ends the process, this tells the case.
            let died = format!("{}.died", out);
            std::panic::set_hook(Box::new(move |i| {
                note_panic(i);
                if let Ok(c) = CASE_INFO.try_lock() {
                    if let Some((name, s, idx, _)) = &*c {
                        let _ = std::fs::write(&died, format!("{} {} {}\n{}\n{}", name, s, idx, gen::last_note(), i));
                    }
                }
            }));
            // A case that does not terminate is reported by this thread.
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(100));
                let info = CASE_INFO.lock().unwrap().clone();
                if let Some((name, s, idx, limit)) = info {
                    let started = CASE_START.load(Ordering::SeqCst);
                    let now = t0.elapsed().as_millis() as u64;
                    if now > started + limit {
                        let all = oracles::all();
                        let o = all.iter().find(|o| o.name == name).unwrap();
                        let d = Done {
                            input: format!("case {} {} {}: {}", name, s, idx, gen::last_note()),
                            nontrivial: true,
                            bad: Some(format!("the case did not finish in {} ms", limit)),
                        };
                        let j = format!("{{\"oracles\":[],\"violation\":{}}}", violation_json(o, s, idx, &d));
                        let _ = std::fs::write(&outfile, j);
                        std::process::exit(0);
                    }
                }
            });
            let mine: Vec<&Oracle> = all.iter().filter(|o| o.prop == prop && !skip.contains(o.name)).collect();
            let total: u32 = mine.iter().map(|o| o.weight).sum();
            let mut recs = Vec::new();
            let mut found: Option<String> = None;
            for o in &mine {
                let budget = Duration::from_millis(ms * o.weight as u64 / total.max(1) as u64);
                let t = Instant::now();
                let mut n = 0u64;
                let mut distinct: HashSet<u64> = HashSet::new();
                let mut samples: Vec<String> = Vec::new();
                while (o.max == 0 || n < o.max) && t.elapsed() < budget {
                    CASE_START.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    *CASE_INFO.lock().unwrap() = Some((o.name.to_string(), seed, n, o.limit_ms));
                    let d = run_case(o, seed, n);
                    *CASE_INFO.lock().unwrap() = None;
                    n += 1;
                    if d.nontrivial {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        d.input.hash(&mut h);
                        if distinct.insert(h.finish()) && samples.len() < 2 && distinct.len() % 3 == 1 {
                            let s: String = d.input.chars().take(300).collect();
                            samples.push(s);
                        }
                    }
                    if d.bad.is_some() {
                        // Look for a shorter input among the next failing ones.
                        let mut best = (n - 1, d);
                        let stop = Instant::now() + Duration::from_millis(if o.limit_ms > 5000 { 0 } else { 1500 });
                        let mut k = n;
                        while Instant::now() < stop && best.1.input.len() > 40 {
                            let d2 = run_case(o, seed, k);
                            if d2.bad.is_some() && d2.input.len() < best.1.input.len() {
                                best = (k, d2);
                            }
                            k += 1;
                        }
                        found = Some(violation_json(o, seed, best.0, &best.1));
                        break;
                    }
                }
                recs.push(format!(
                    "{{\"name\":\"{}\",\"rule\":\"{}\",\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}",
                    o.name,
                    esc(o.rule),
                    n,
                    distinct.len(),
                    samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
                ));
                if found.is_some() {
                    break;
                }
            }
            let j = format!(
                "{{\"oracles\":[{}],\"violation\":{}}}",
                recs.join(","),
                found.unwrap_or_else(|| "null".into())
            );
            std::fs::write(&out, j).unwrap();
        }
        _ => {
            eprintln!("usage: replay list|search|case");
            std::process::exit(2);
        }
    }
}

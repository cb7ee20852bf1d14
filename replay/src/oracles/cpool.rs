//! C16: the pool of idle connections of the client.
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use wruster::verif::{ConnectionPool, ConnectionPoolResource};

const MAX: usize = 100;

/// A resource that tells when it is given up.
struct Tok {
    id: usize,
    key: String,
    dropped: Arc<Mutex<Vec<usize>>>,
}

impl Drop for Tok {
    fn drop(&mut self) {
        if let Ok(mut d) = self.dropped.lock() {
            d.push(self.id);
        }
    }
}

/// Makes a resource and waits for the clock to advance.
fn make(id: usize, key: &str, dropped: &Arc<Mutex<Vec<usize>>>) -> (ConnectionPoolResource<Tok>, Instant, Instant) {
    let a = Instant::now();
    let r = ConnectionPoolResource::new(Tok { id, key: key.to_string(), dropped: Arc::clone(dropped) });
    let b = Instant::now();
    while Instant::now() <= b {}
    (r, a, b)
}

fn name(k: usize) -> String {
    match k % 4 {
        3 => format!("HOST{}:80", k - 3),
        0 => format!("host{}:80", k),
        1 => format!("10.0.0.{}:8080", k),
        _ => format!("127.0.0.1:{}", 1000 + k),
    }
}

/// Long idle time: nothing expires.
fn history(g: &mut Gen) -> Done {
    let idle = if g.chance(20) { None } else { Some(Duration::from_secs(g.range(600, 100000) as u64)) };
    let nkeys = *g.pick(&[1, 3, 20, 99, 100, 101, 102, 150, 230]);
    let ops = g.range(1, 600);
    let w_insert = g.range(30, 95);
    let w_drain = if g.chance(50) { 1 } else { 0 };
    g.note(format!("{} operations over {} addresses, {}% of them store, idle time {:?}, case {} {}", ops, nkeys, w_insert, idle, g.seed, g.index));
    let dropped = Arc::new(Mutex::new(Vec::new()));
    let pool: ConnectionPool<Tok> = ConnectionPool::new(idle);
    // Address, identifier; in the order they were created.
    let mut model: Vec<(String, usize)> = Vec::new();
    let mut gone: HashSet<usize> = HashSet::new();
    let mut next = 0;
    let mut evictions = 0;
    for op in 0..=ops {
        let k = name(g.below(nkeys));
        let what = g.below(100);
        if op == ops || what >= 100 - w_drain {
            let mut got: Vec<(String, usize)> = pool.drain().into_iter().map(|r| (r.key.clone(), r.id)).collect();
            got.sort_by_key(|e| e.1);
            for e in &got {
                gone.insert(e.1);
            }
            let mut want = std::mem::take(&mut model);
            want.sort_by_key(|e| e.1);
            if got != want {
                let missing: Vec<_> = want.iter().filter(|e| !got.contains(e)).take(5).collect();
                let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).take(5).collect();
                return g.done(true, Some(format!("operation {}: drain gave {} connections and {} were idle; missing {:?}, not idle {:?}", op, got.len(), want.len(), missing, extra)));
            }
            if pool.drain().len() != 0 {
                return g.done(true, Some(format!("operation {}: the pool is not empty after a drain", op)));
            }
        } else if what < w_insert {
            let (r, _, _) = make(next, &k, &dropped);
            pool.insert(&k, r);
            if let Some(i) = model.iter().position(|e| e.0 == k) {
                gone.insert(model.remove(i).1);
            } else if model.len() == MAX {
                gone.insert(model.remove(0).1);
                evictions += 1;
            }
            model.push((k, next));
            next += 1;
        } else {
            let got = pool.get(&k).map(|r| {
                let t = r.resource();
                (t.key.clone(), t.id)
            });
            let want = model.iter().position(|e| e.0 == k).map(|i| model.remove(i));
            if let Some(w) = &want {
                gone.insert(w.1);
            }
            if got != want {
                return g.done(true, Some(format!("operation {}: get of {} gave {:?} instead of {:?}, {} are idle", op, k, got, want, model.len())));
            }
        }
        let d = dropped.lock().unwrap();
        if d.len() != gone.len() || d.iter().any(|i| !gone.contains(i)) {
            let l: Vec<usize> = d.iter().copied().filter(|i| !gone.contains(i)).collect();
            return g.done(true, Some(format!("operation {}: {} connections were given up and {} should, wrongly {:?}", op, d.len(), gone.len(), l)));
        }
    }
    if let Some(b) = end(g, pool, &dropped, next) {
        return g.done(true, Some(b));
    }
    g.done(evictions > 0, None)
}

/// Ends the pool, that can be dropped by a panic of its owner: its worker ends
/// soon and with it every connection that was in the pool is closed.
fn end(g: &mut Gen, pool: ConnectionPool<Tok>, dropped: &Arc<Mutex<Vec<usize>>>, made: usize) -> Option<String> {
    let unwinds = g.chance(30);
    let t = Instant::now();
    if unwinds {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _pool = pool;
            std::panic::resume_unwind(Box::new("made up"));
        }));
    } else {
        drop(pool);
    }
    let took = t.elapsed();
    let closed = dropped.lock().unwrap().len();
    let how = if unwinds { " by a panic" } else { "" };
    if closed != made {
        return Some(format!("the pool was dropped{}, and {} of {} connections are closed", how, closed, made));
    }
    if took > Duration::from_secs(8) {
        return Some(format!("dropping the pool{} took {:?}", how, took));
    }
    None
}

/// Short idle times.
fn expiry(g: &mut Gen) -> Done {
    let idle = Duration::from_micros(*g.pick(&[0, 0, 200, 1000, 3000, 10000, 30000]));
    let nkeys = g.range(1, 6);
    let ops = g.range(2, 30);
    g.note(format!("{} operations over {} addresses, idle time {:?}, case {} {}", ops, nkeys, idle, g.seed, g.index));
    let dropped = Arc::new(Mutex::new(Vec::new()));
    let pool: ConnectionPool<Tok> = ConnectionPool::new(Some(idle));
    let mut model: HashMap<String, (usize, Instant, Instant)> = HashMap::new();
    let mut next = 0;
    let (mut gave, mut refused) = (0, 0);
    for op in 0..ops {
        let k = name(g.below(nkeys));
        match g.below(100) {
            0..=39 => {
                let (r, a, b) = make(next, &k, &dropped);
                pool.insert(&k, r);
                model.insert(k, (next, a, b));
                next += 1;
            }
            40..=79 => {
                let t0 = Instant::now();
                let got = pool.get(&k).map(|r| r.resource().id);
                let t1 = Instant::now();
                let had = model.remove(&k);
                let bad = match (got, had) {
                    (None, None) => None,
                    (Some(i), None) => Some(format!("gave {} and none was stored", i)),
                    (Some(i), Some((id, _, b))) => {
                        gave += 1;
                        if i != id {
                            Some(format!("gave {} instead of {}", i, id))
                        } else if t0 - b >= idle {
                            Some(format!("gave a connection idle for at least {:?}", t0 - b))
                        } else {
                            None
                        }
                    }
                    (None, Some((id, a, _))) => {
                        refused += 1;
                        if t1 - a < idle {
                            Some(format!("gave none, connection {} was idle for at most {:?}", id, t1 - a))
                        } else {
                            None
                        }
                    }
                };
                if let Some(b) = bad {
                    return g.done(true, Some(format!("operation {}: get of {} {}", op, k, b)));
                }
            }
            80..=82 => {
                let got: Vec<usize> = pool.drain().into_iter().map(|r| r.resource().id).collect();
                let t1 = Instant::now();
                let all = std::mem::take(&mut model);
                let set: HashSet<usize> = got.iter().copied().collect();
                if set.len() != got.len() || set.iter().any(|i| !all.values().any(|e| e.0 == *i)) {
                    return g.done(true, Some(format!("operation {}: drain gave {:?}, some not idle", op, got)));
                }
                if let Some(e) = all.values().find(|e| !set.contains(&e.0) && t1 - e.1 < idle) {
                    return g.done(true, Some(format!("operation {}: drain did not give connection {} and it had not expired", op, e.0)));
                }
            }
            _ => {
                let part = g.below(150) as u32;
                std::thread::sleep(idle * part / 100 / nkeys as u32);
            }
        }
    }
    if let Some(b) = end(g, pool, &dropped, next) {
        return g.done(true, Some(b));
    }
    g.done(gave > 0 && refused > 0, None)
}

/// Several threads.
fn threads(g: &mut Gen) -> Done {
    let n = g.range(2, 4);
    let nkeys = *g.pick(&[1, 2, 5, 120]);
    let ops = g.range(20, 200);
    g.note(format!("{} threads of {} operations over {} addresses, case {} {}", n, ops, nkeys, g.seed, g.index));
    let dropped = Arc::new(Mutex::new(Vec::new()));
    let pool: Arc<ConnectionPool<Tok>> = Arc::new(ConnectionPool::new(None));
    let start = Arc::new(Barrier::new(n));
    let mut hs = Vec::new();
    for t in 0..n {
        let (pool, start, dropped) = (Arc::clone(&pool), Arc::clone(&start), Arc::clone(&dropped));
        let seed = g.next();
        hs.push(std::thread::spawn(move || {
            let mut g = Gen::new(seed, t as u64);
            let mut taken: Vec<(String, Tok)> = Vec::new();
            start.wait();
            for i in 0..ops {
                let k = name(g.below(nkeys));
                match g.below(20) {
                    0..=9 => {
                        let r = ConnectionPoolResource::new(Tok { id: t * 1000000 + i, key: k.clone(), dropped: Arc::clone(&dropped) });
                        pool.insert(&k, r);
                    }
                    10 if i % 7 == 0 => {
                        let d = pool.drain();
                        if d.len() > MAX {
                            return Err(format!("{} idle connections", d.len()));
                        }
                        taken.extend(d.into_iter().map(|r| (r.key.clone(), r.resource())));
                    }
                    _ => {
                        if let Some(r) = pool.get(&k) {
                            taken.push((k, r.resource()));
                        }
                    }
                }
            }
            Ok(taken)
        }));
    }
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let mut count = 0;
    let mut bad = None;
    let mut all = Vec::new();
    for h in hs {
        match h.join() {
            Err(_) => bad = Some("a thread panicked".to_string()),
            Ok(Err(b)) => bad = Some(b),
            Ok(Ok(l)) => all.extend(l),
        }
    }
    let left = pool.drain();
    if left.len() > MAX.min(nkeys) {
        bad = Some(format!("{} idle connections", left.len()));
    }
    all.extend(left.into_iter().map(|r| (r.key.clone(), r.resource())));
    for (k, t) in &all {
        count += 1;
        if *k != t.key {
            bad = Some(format!("a connection to {} was given for {}", t.key, k));
        }
        *seen.entry(t.id).or_insert(0) += 1;
    }
    if seen.values().any(|c| *c > 1) {
        bad = Some("a connection was given twice".to_string());
    }
    if dropped.lock().unwrap().iter().any(|i| seen.contains_key(i)) {
        bad = Some("a connection that was given is also given up".to_string());
    }
    g.done(count > 0, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C16",
            name: "pool_history",
            rule: "random histories of store, take and drain over 1 to 230 addresses, with a long idle time: every result and every connection given up is compared with a model that keeps the connections in order; non trivial: some connection was evicted",
            weight: 3,
            max: 0,
            limit_ms: 15000,
            run: history,
        },
        Oracle {
            prop: "C16",
            name: "pool_expiry",
            rule: "random histories with idle times from 0 to 30 ms and pauses: a connection is given if it was idle for less than that, by the clock before and after the call, and not if it was idle for longer; non trivial: both happened",
            weight: 3,
            max: 0,
            limit_ms: 15000,
            run: expiry,
        },
        Oracle {
            prop: "C16",
            name: "pool_threads",
            rule: "two to four threads that store, take and drain: every connection is given once at most, for its address, and there are never more than the maximum",
            weight: 1,
            max: 0,
            limit_ms: 15000,
            run: threads,
        },
    ]
}

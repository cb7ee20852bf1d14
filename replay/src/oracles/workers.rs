//! C14 and C15: the pools of workers.
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::thread::ThreadId;
use std::time::{Duration, Instant};
use wruster::verif::{Dynamic, Pool, PoolError, Static};

type Action = Box<dyn FnOnce() + Send + 'static>;

/// How long what must happen can take.
const PATIENCE: Duration = Duration::from_secs(6);

enum AnyPool {
    S(Static),
    D(Dynamic),
    P(Pool),
}

impl AnyPool {
    fn run(&mut self, a: Action) -> Result<(), PoolError> {
        match self {
            AnyPool::S(p) => p.run(a),
            AnyPool::D(p) => p.run(a),
            AnyPool::P(p) => p.run(a),
        }
    }
}

#[derive(Default)]
struct Seen {
    runs: Vec<usize>,
    threads: Vec<Option<ThreadId>>,
    done: Vec<bool>,
}

struct Job {
    id: usize,
    release: Sender<()>,
}

struct World {
    seen: Arc<Mutex<Seen>>,
    now: Arc<AtomicUsize>,
    most: Arc<AtomicUsize>,
    next: usize,
}

struct Leave(Arc<AtomicUsize>);
impl Drop for Leave {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

impl World {
    fn new() -> World {
        World { seen: Default::default(), now: Default::default(), most: Default::default(), next: 0 }
    }
    /// An action that tells that it started, and waits for its release.
    fn action(&mut self, waits: bool, panics: bool) -> (Action, usize, Sender<()>, Receiver<()>) {
        let id = self.next;
        self.next += 1;
        let (release, wait) = channel::<()>();
        let (tell, started) = channel::<()>();
        {
            let mut s = self.seen.lock().unwrap();
            s.runs.push(0);
            s.threads.push(None);
            s.done.push(false);
        }
        let (seen, now, most) = (Arc::clone(&self.seen), Arc::clone(&self.now), Arc::clone(&self.most));
        let a = move || {
            let n = now.fetch_add(1, Ordering::SeqCst) + 1;
            most.fetch_max(n, Ordering::SeqCst);
            let _l = Leave(now);
            {
                let mut s = seen.lock().unwrap();
                s.runs[id] += 1;
                s.threads[id] = Some(std::thread::current().id());
            }
            let _ = tell.send(());
            if waits {
                let _ = wait.recv();
            }
            seen.lock().unwrap().done[id] = true;
            if panics {
                panic!("made up");
            }
        };
        (Box::new(a), id, release, started)
    }
}

/// Runs it until it is taken; the pool must have room.
fn must_take(pool: &mut AnyPool, w: &World, mut a: Action, id: usize) -> Result<usize, String> {
    let t = Instant::now();
    let mut refusals = 0;
    loop {
        match pool.run(a) {
            Ok(()) => return Ok(refusals),
            Err(e) => {
                refusals += 1;
                a = e.action;
                if w.seen.lock().unwrap().runs[id] != 0 {
                    return Err(format!("action {} was executed and returned", id));
                }
            }
        }
        if t.elapsed() > PATIENCE {
            return Err(format!("action {} was refused {} times and there is a worker for it", id, refusals));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

fn make(g: &mut Gen) -> (AnyPool, usize, usize, String) {
    match g.below(4) {
        0 => {
            let n = g.range(1, 5);
            (AnyPool::S(Static::new(n)), n, n, format!("Static({})", n))
        }
        1 => {
            let n = g.range(1, 5);
            let t = Duration::from_millis(*g.pick(&[0, 1, 3, 60000]));
            (AnyPool::D(Dynamic::new(n, t)), n, 0, format!("Dynamic({}, {:?})", n, t))
        }
        _ => {
            let (mut a, b) = (g.below(5), g.below(6));
            if a == 0 && b == 0 {
                a = 1;
            }
            (AnyPool::P(Pool::new(a, b)), a.max(b), a, format!("Pool({}, {})", a, b))
        }
    }
}

fn history(g: &mut Gen, panics: usize, waits_pct: usize, filling: bool) -> Done {
    let (mut pool, cap, _, name) = make(g);
    let ops = if filling { g.range(cap, 3 * cap + 6) } else { g.range(2, 40) };
    g.note(format!("{} of {} operations, panics {}%, waiting actions {}%, case {} {}", name, ops, panics, waits_pct, g.seed, g.index));
    let mut w = World::new();
    let mut busy: Vec<Job> = Vec::new();
    let mut taken: Vec<usize> = Vec::new();
    let mut returned = 0;
    for op in 0..ops {
        let what = g.below(100);
        if what < 65 || busy.is_empty() {
            let panics = g.chance(panics);
            let waits = g.chance(waits_pct);
            let (a, id, release, started) = w.action(waits, panics);
            if busy.len() == cap {
                // Nobody can take it.
                match pool.run(a) {
                    Ok(()) => return g.done(true, Some(format!("operation {}: action {} was taken and {} actions keep the {} workers busy", op, id, busy.len(), cap))),
                    Err(e) => {
                        returned += 1;
                        if w.seen.lock().unwrap().runs[id] != 0 {
                            return g.done(true, Some(format!("operation {}: action {} was executed and returned", op, id)));
                        }
                        // It must be the action given.
                        let _ = release.send(());
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(e.action));
                        let s = w.seen.lock().unwrap();
                        if s.runs[id] != 1 || s.threads[id] != Some(std::thread::current().id()) {
                            return g.done(true, Some(format!("operation {}: the action returned is not action {}", op, id)));
                        }
                    }
                }
                continue;
            }
            if let Err(b) = must_take(&mut pool, &w, a, id) {
                return g.done(true, Some(format!("operation {}: {}, {} of {} workers are busy", op, b, busy.len(), cap)));
            }
            taken.push(id);
            if started.recv_timeout(PATIENCE).is_err() {
                return g.done(true, Some(format!("operation {}: action {} was taken and is not executed, {} of {} workers are busy", op, id, busy.len(), cap)));
            }
            if waits {
                busy.push(Job { id, release });
            }
        } else {
            let i = g.below(busy.len());
            let j = busy.remove(i);
            let _ = j.release.send(());
            let t = Instant::now();
            while !w.seen.lock().unwrap().done[j.id] {
                if t.elapsed() > PATIENCE {
                    return g.done(true, Some(format!("operation {}: action {} did not end", op, j.id)));
                }
                std::thread::yield_now();
            }
            if g.chance(15) {
                std::thread::sleep(Duration::from_millis(g.range(1, 8) as u64));
            }
        }
        if w.most.load(Ordering::SeqCst) > cap + 1 {
            return g.done(true, Some(format!("operation {}: {} actions at once", op, w.most.load(Ordering::SeqCst))));
        }
    }
    if let AnyPool::D(d) = &pool {
        let n = d.number_of_workers();
        if n > cap || n < busy.len() {
            return g.done(true, Some(format!("it says that it has {} workers, {} are busy", n, busy.len())));
        }
    }
    // The drop waits for the actions that are running.
    let left: Vec<usize> = busy.iter().map(|j| j.id).collect();
    let late = g.chance(60);
    let h = std::thread::spawn(move || {
        if late {
            std::thread::sleep(Duration::from_millis(3));
        }
        for j in busy {
            let _ = j.release.send(());
        }
    });
    let unwinds = g.chance(30);
    let t = Instant::now();
    if unwinds {
        // The owner of the pool panics.
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _pool = pool;
            std::panic::resume_unwind(Box::new("made up"));
        }));
    } else {
        drop(pool);
    }
    let took = t.elapsed();
    let undone: Vec<usize> = {
        let s = w.seen.lock().unwrap();
        left.iter().copied().filter(|i| !s.done[*i]).collect()
    };
    h.join().unwrap();
    if !undone.is_empty() {
        return g.done(true, Some(format!("the pool was dropped{} and the actions {:?} are running", if unwinds { " by a panic" } else { "" }, undone)));
    }
    if took > PATIENCE {
        return g.done(true, Some(format!("the drop took {:?}", took)));
    }
    let s = w.seen.lock().unwrap();
    for id in &taken {
        if s.runs[*id] != 1 || !s.done[*id] {
            return g.done(true, Some(format!("action {} was executed {} times, to its end: {}", id, s.runs[*id], s.done[*id])));
        }
        if s.threads[*id] == Some(std::thread::current().id()) {
            return g.done(true, Some(format!("action {} was executed by the owner of the pool", id)));
        }
    }
    let _ = returned;
    g.done(taken.len() >= cap, None)
}

fn handing(g: &mut Gen) -> Done {
    let filling = g.chance(40);
    let waits = if filling { 100 } else { *g.pick(&[100, 90, 60]) };
    history(g, 0, waits, filling)
}

fn panicking(g: &mut Gen) -> Done {
    let p = *g.pick(&[20, 60, 100]);
    let w = *g.pick(&[20, 60, 100]);
    history(g, p, w, false)
}

/// Temporary workers end when they are idle and make room.
fn idle(g: &mut Gen) -> Done {
    let cap = g.range(1, 4);
    let timeout = Duration::from_millis(*g.pick(&[0, 1, 2, 5, 15]));
    let rounds = g.range(1, 4);
    g.note(format!("Dynamic({}, {:?}), {} rounds that fill it and let its workers end, case {} {}", cap, timeout, rounds, g.seed, g.index));
    let mut pool = AnyPool::D(Dynamic::new(cap, timeout));
    let mut w = World::new();
    for round in 0..rounds {
        let n = g.range(1, cap);
        let panics = g.chance(30);
        let mut busy = Vec::new();
        for _ in 0..n {
            let (a, id, release, started) = w.action(true, panics);
            if let Err(b) = must_take(&mut pool, &w, a, id) {
                return g.done(true, Some(format!("round {}: {}, {} of {} workers are busy", round, b, busy.len(), cap)));
            }
            if started.recv_timeout(PATIENCE).is_err() {
                return g.done(true, Some(format!("round {}: action {} was taken and is not executed", round, id)));
            }
            busy.push(Job { id, release });
        }
        let count = |p: &AnyPool| match p {
            AnyPool::D(d) => d.number_of_workers(),
            _ => 0,
        };
        let c = count(&pool);
        if c < n || c > cap {
            return g.done(true, Some(format!("round {}: {} workers are busy, it says that it has {}", round, n, c)));
        }
        if g.chance(50) {
            // Longer than the idle time, but they are not idle.
            std::thread::sleep(timeout * 2 + Duration::from_millis(2));
            let c = count(&pool);
            if c != n {
                return g.done(true, Some(format!("round {}: {} workers are busy, it says that it has {}", round, n, c)));
            }
        }
        for j in busy {
            let _ = j.release.send(());
        }
        let t = Instant::now();
        while count(&pool) != 0 {
            if t.elapsed() > timeout + PATIENCE / 2 {
                return g.done(true, Some(format!("round {}: {} idle workers did not end", round, count(&pool))));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    drop(pool);
    let s = w.seen.lock().unwrap();
    let bad = s.runs.iter().position(|r| *r != 1).map(|i| format!("action {} was executed {} times", i, s.runs[i]));
    g.done(true, bad)
}

/// Workers that end while others are given to them.
fn storm(g: &mut Gen) -> Done {
    let cap = g.range(1, 8);
    let n = g.range(50, 600);
    g.note(format!("Dynamic({}, 0), {} short actions given at once, case {} {}", cap, n, g.seed, g.index));
    let mut d = Dynamic::new(cap, Duration::ZERO);
    let mut w = World::new();
    let mut taken = Vec::new();
    let mut keep = Vec::new();
    for _ in 0..n {
        let (a, id, r, s) = w.action(false, false);
        keep.push((r, s));
        if d.run(a).is_ok() {
            taken.push(id);
        }
    }
    drop(d);
    let s = w.seen.lock().unwrap();
    for id in 0..n {
        let want = taken.contains(&id) as usize;
        if s.runs[id] != want {
            return g.done(true, Some(format!("action {} was {} and executed {} times", id, if want == 1 { "taken" } else { "returned" }, s.runs[id])));
        }
    }
    if w.most.load(Ordering::SeqCst) > cap {
        return g.done(true, Some(format!("{} actions at once", w.most.load(Ordering::SeqCst))));
    }
    g.done(taken.len() > cap && taken.len() < n, None)
}

/// An idle worker takes an action before another one is hired is not required,
/// but a worker that is not idle for long enough must stay.
fn stays(g: &mut Gen) -> Done {
    let cap = g.range(1, 3);
    g.note(format!("Dynamic({}, 60 s), short actions, case {} {}", cap, g.seed, g.index));
    let mut d = Dynamic::new(cap, Duration::from_secs(60));
    let mut w = World::new();
    for i in 0..cap {
        let (a, id, _release, started) = w.action(false, g.chance(50));
        if d.run(a).is_err() {
            return g.done(true, Some(format!("action {} was refused by a pool with {} of {} workers", id, i, cap)));
        }
        if started.recv_timeout(PATIENCE).is_err() {
            return g.done(true, Some(format!("action {} was taken and is not executed", id)));
        }
    }
    std::thread::sleep(Duration::from_millis(g.range(0, 10) as u64));
    let n = d.number_of_workers();
    if n != cap {
        return g.done(true, Some(format!("{} of {} workers left and their idle time is a minute", n, cap)));
    }
    let t = Instant::now();
    drop(d);
    if t.elapsed() > PATIENCE {
        return g.done(true, Some(format!("dropping idle workers took {:?}", t.elapsed())));
    }
    g.done(true, None)
}

/// More than one pool size, all of it at once.
fn sizes(g: &mut Gen) -> Done {
    let (mut a, b) = (g.below(9), g.below(12));
    if a == 0 && b == 0 {
        a = 2;
    }
    let cap = a.max(b);
    g.note(format!("Pool({}, {}): {} actions that wait, then another one", a, b, cap));
    let mut pool = AnyPool::P(Pool::new(a, b));
    let mut w = World::new();
    let mut busy = Vec::new();
    for _ in 0..cap {
        let (x, id, release, started) = w.action(true, false);
        if let Err(b) = must_take(&mut pool, &w, x, id) {
            return g.done(true, Some(format!("{}, {} of {} workers are busy", b, busy.len(), cap)));
        }
        if started.recv_timeout(PATIENCE).is_err() {
            return g.done(true, Some(format!("action {} was taken and is not executed", id)));
        }
        busy.push(Job { id, release });
    }
    let (x, id, _r, _s) = w.action(true, false);
    let bad = match pool.run(x) {
        Ok(()) => Some(format!("action {} was taken and {} actions are waiting in {} workers", id, cap, cap)),
        Err(_) => None,
    };
    drop(_r);
    drop(busy);
    drop(pool);
    g.done(cap > 1, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C14",
            name: "handing_over",
            rule: "random histories of giving and ending actions that wait, in static, dynamic and mixed pools: an action is taken when fewer actions than workers are running and returned otherwise, the action returned is the one given, and each one taken runs once in a worker; non trivial: as many actions as workers were taken",
            weight: 3,
            max: 0,
            limit_ms: 20000,
            run: handing,
        },
        Oracle {
            prop: "C14",
            name: "pool_sizes",
            rule: "pools of (0..8, 0..11) workers take as many actions that wait as the larger number, and return the next one",
            weight: 1,
            max: 0,
            limit_ms: 20000,
            run: sizes,
        },
        Oracle {
            prop: "C14",
            name: "room_again",
            rule: "dynamic pools whose workers end when they are idle take as many actions as before, and count their workers",
            weight: 1,
            max: 0,
            limit_ms: 20000,
            run: idle,
        },
        Oracle {
            prop: "C14",
            name: "ending_workers",
            rule: "many short actions given at once to dynamic pools whose workers end at once: every action taken runs once, those returned do not, and there are never more at once than workers; non trivial: more actions than workers were taken and some were returned",
            weight: 1,
            max: 0,
            limit_ms: 20000,
            run: storm,
        },
        Oracle {
            prop: "C15",
            name: "panicking_actions",
            rule: "random histories of actions, many of which panic: every action taken runs once to its end in a worker, the pool keeps all its workers, nothing reaches the owner, and the drop waits for the running actions",
            weight: 3,
            max: 0,
            limit_ms: 20000,
            run: panicking,
        },
        Oracle {
            prop: "C15",
            name: "idle_workers",
            rule: "temporary workers end when they are idle for their time, whether or not their actions panicked, announce it once, and do not end while they are busy",
            weight: 2,
            max: 0,
            limit_ms: 20000,
            run: idle,
        },
        Oracle {
            prop: "C15",
            name: "workers_stay",
            rule: "temporary workers with a long idle time stay after short actions, that can panic, and end at once when the pool is dropped",
            weight: 1,
            max: 0,
            limit_ms: 20000,
            run: stays,
        },
    ]
}

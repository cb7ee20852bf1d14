//! C17: the connections of the client against servers that follow a plan.
use crate::gen::Gen;
use crate::oracles::net;
use crate::{Done, Oracle};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use wruster::http::client::{Client, ClientResponse};
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request};

const PATIENCE: Duration = Duration::from_secs(8);

/// What is not a response.
const GARBAGE: [&[u8]; 7] = [
    b"HTTP/x 9999 what\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nno colon\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n",
    b"HTTP/1.1\r\n\r\n",
    b"\r\n\r\n",
    b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nabc",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Framing {
    /// With its length.
    Whole,
    /// It ends with the connection, or it just has no body.
    Unknown,
    /// The connection ends before its end.
    Cut,
    /// It is none.
    Garbage,
    /// The connection is closed instead.
    Nothing,
}

#[derive(Clone)]
struct Plan {
    framing: Framing,
    conn: &'static str,
    body: Vec<u8>,
    // How many bytes of the body are sent when it is cut.
    sent: usize,
    // The server closes the connection after it.
    ends: bool,
    pieces: bool,
    // The server it is for.
    at: SocketAddr,
}

#[derive(Default)]
struct World {
    plans: Vec<Plan>,
    /// The connections of these can be used again.
    released: HashSet<usize>,
    /// What was asked in each connection, and those that ended.
    conns: Vec<Vec<usize>>,
    ended: HashSet<usize>,
    bad: Option<String>,
}

type Shared = Arc<(Mutex<World>, Condvar)>;

fn head(id: usize, p: &Plan) -> Vec<u8> {
    let mut s = format!("HTTP/1.1 200 OK\r\nX-Id: {}\r\n", id);
    if !p.conn.is_empty() {
        s.push_str(&format!("Connection: {}\r\n", p.conn));
    }
    if matches!(p.framing, Framing::Whole | Framing::Cut) {
        s.push_str(&format!("Content-Length: {}\r\n", p.body.len()));
    }
    s.push_str("\r\n");
    s.into_bytes()
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, what: i32, to: *const i32, len: u32) -> i32;
}

/// The client sends in small writes: it does not have to wait for the acknowledgements.
fn quick(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    unsafe {
        setsockopt(s.as_raw_fd(), 6, 12, &1, 4);
    }
}

fn serve(mut s: TcpStream, n: usize, w: Shared) {
    let _ = s.set_nodelay(true);
    quick(&s);
    let _ = s.set_read_timeout(Some(PATIENCE * 4));
    let mut left: Vec<u8> = vec![];
    let mut b = [0u8; 4096];
    let mut over = false;
    let ended = |s: &TcpStream| {
        let _ = s.shutdown(Shutdown::Both);
        w.0.lock().unwrap().ended.insert(n);
        w.1.notify_all();
    };
    loop {
        // A whole request.
        let (id, rest) = loop {
            if let Some(p) = left.windows(4).position(|x| x == b"\r\n\r\n") {
                let h = String::from_utf8_lossy(&left[..p]).to_string();
                let len: usize = h.split("Content-Length: ").nth(1).and_then(|x| x.split("\r\n").next()).and_then(|x| x.parse().ok()).unwrap_or(0);
                if left.len() >= p + 4 + len {
                    let id = h.split(' ').nth(1).and_then(|x| x.trim_start_matches('/').parse().ok());
                    break (id, left.split_off(p + 4 + len));
                }
            }
            let r = s.read(&mut b);
            quick(&s);
            match r {
                Ok(0) | Err(_) => return ended(&s),
                Ok(k) => left.extend_from_slice(&b[..k]),
            }
        };
        left = rest;
        let plan = {
            let mut w = w.0.lock().unwrap();
            let id = match id {
                Some(id) if id < w.plans.len() => id,
                _ => {
                    w.bad = Some("the server got a request that was not made".into());
                    usize::MAX
                }
            };
            if w.plans.get(id).map_or(false, |p| s.local_addr().map_or(false, |a| a != p.at)) {
                w.bad = Some(format!("request {} is sent to another server", id));
            }
            if let Some(last) = w.conns[n].last().copied() {
                if !w.released.contains(&last) {
                    w.bad = Some(format!("the connection of request {} is used for request {}", last, id));
                }
            }
            if !over {
                w.conns[n].push(id);
            }
            if over || id == usize::MAX { None } else { Some((id, w.plans[id].clone())) }
        };
        let (id, p) = match plan {
            None => return ended(&s),
            Some(x) => x,
        };
        let mut out = match p.framing {
            Framing::Garbage => GARBAGE[id % GARBAGE.len()].to_vec(),
            Framing::Nothing => return ended(&s),
            _ => head(id, &p),
        };
        match p.framing {
            Framing::Whole => out.extend_from_slice(&p.body),
            Framing::Unknown => out.extend_from_slice(&p.body),
            Framing::Cut => out.extend_from_slice(&p.body[..p.sent]),
            _ => {}
        }
        let ok = if p.pieces {
            out.chunks(7).take(4).all(|c| {
                let ok = s.write_all(c).is_ok();
                thread::yield_now();
                ok
            }) && s.write_all(out.get(28..).unwrap_or(&[])).is_ok()
        } else {
            s.write_all(&out).is_ok()
        };
        if !ok {
            return ended(&s);
        }
        if p.ends || p.framing == Framing::Cut {
            let _ = s.shutdown(Shutdown::Write);
            over = true;
        }
    }
}

/// A server that follows the plans, until its handle is dropped.
struct Target {
    at: SocketAddr,
    stop: Arc<std::sync::atomic::AtomicBool>,
}

impl Target {
    fn new(w: &Shared) -> Target {
        let l = net::listen();
        let at = l.local_addr().unwrap();
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (w, st) = (Arc::clone(w), Arc::clone(&stop));
        thread::spawn(move || {
            for s in l.incoming() {
                if st.load(Ordering::SeqCst) {
                    return;
                }
                if let Ok(s) = s {
                    let n = {
                        let mut w = w.0.lock().unwrap();
                        w.conns.push(vec![]);
                        w.conns.len() - 1
                    };
                    let w = Arc::clone(&w);
                    thread::spawn(move || serve(s, n, w));
                }
            }
        });
        Target { at, stop }
    }
}

impl Drop for Target {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.at);
    }
}

fn await_end(w: &Shared, n: usize) -> bool {
    let t = Instant::now();
    let mut g = w.0.lock().unwrap();
    while !g.ended.contains(&n) {
        if t.elapsed() > PATIENCE {
            return false;
        }
        g = w.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
    }
    true
}

/// A response the user still has.
struct Held {
    id: usize,
    response: ClientResponse,
    body: Option<Body>,
    persistent: bool,
    // The whole of its body was read.
    read: bool,
    // The body that came is not in the response any more.
    away: bool,
}

fn request(g: &mut Gen, id: usize, note: &mut String) -> Request {
    let mut headers = Headers::new();
    let conn = *g.pick(&["", "", "", "", "close", "Close", "keep-alive", "Keep-Alive", "te"]);
    let version = *g.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
    note.push_str(&format!(" {}:{}", id, version));
    if !conn.is_empty() {
        note.push_str(&format!("/{}", conn));
        headers.add(Header { name: "Connection".into(), value: conn.into() });
    }
    let mut q = if g.chance(30) {
        let n = g.range(1, 3000);
        let mut q = Request::from_body(Body::from("x".repeat(n).as_str(), mime::TEXT_PLAIN), HttpMethod::POST, &format!("/{}", id));
        if let Some(v) = headers.get("Connection") {
            q.headers.add(Header { name: "Connection".into(), value: v[0].clone() });
        }
        q
    } else {
        Request { method: HttpMethod::GET, uri: format!("/{}", id), version: String::new(), headers, body: None }
    };
    q.version = version.into();
    q
}

fn keeps(q: &Request) -> bool {
    let v = q.headers.get("Connection").map(|v| v[0].to_lowercase()).unwrap_or_default();
    v != "close" && (q.version == "HTTP/1.1" || v == "keep-alive")
}

fn plan(g: &mut Gen, note: &mut String, at: SocketAddr) -> Plan {
    let framing = match g.below(20) {
        0..=12 => Framing::Whole,
        13..=14 => Framing::Unknown,
        15..=17 => Framing::Cut,
        18 => Framing::Garbage,
        _ => Framing::Nothing,
    };
    let n = *g.pick(&[0, 1, 5, 200, 9000, 70000]);
    let n = if framing == Framing::Cut { n.max(1) } else { n };
    // What looks like another response.
    let mut body: Vec<u8> = b"HTTP/1.1 200 OK\r\nX-Id: 9999\r\nContent-Length: 0\r\n\r\n".iter().copied().cycle().take(n).collect();
    for b in body.iter_mut().take(3) {
        *b = g.next() as u8;
    }
    let p = Plan {
        framing,
        conn: *g.pick(&["", "", "", "close", "Close", "CLOSE", "keep-alive", "te"]),
        sent: if framing == Framing::Cut { g.below(n) } else { n },
        body,
        ends: matches!(framing, Framing::Unknown | Framing::Garbage) || g.chance(15),
        pieces: g.chance(30),
        at,
    };
    note.push_str(&format!("->{:?}({}{}{}{}{})", p.framing, n, if p.conn.is_empty() { "" } else { " " }, p.conn, if p.framing == Framing::Cut { format!(" cut at {}", p.sent) } else { String::new() }, if p.ends { " ends" } else { "" }));
    p
}

/// Gives a response back, and tells whether its connection has to close.
fn release(w: &Shared, h: Held, conn: Option<usize>) -> Result<(), String> {
    let (free, id, kept) = {
        let mut g = w.0.lock().unwrap();
        let p = g.plans[h.id].clone();
        let whole = p.framing == Framing::Whole;
        let consumed = p.body.is_empty() || h.read || !h.away;
        let free = whole && h.persistent && !p.conn.eq_ignore_ascii_case("close") && consumed;
        if free {
            g.released.insert(h.id);
        }
        (free, h.id, h.body.is_some())
    };
    drop(h.response);
    if let (false, false, Some(n)) = (free, kept, conn) {
        if !await_end(w, n) {
            return Err(format!("the connection of request {}, that can not be used again, is not closed", id));
        }
    }
    Ok(())
}

static CASES: AtomicU64 = AtomicU64::new(0);

fn run_one(g: &mut Gen, note: &mut String, w: &Shared, c: &Client, at: SocketAddr) -> Result<Option<(Held, Option<usize>)>, String> {
    let p = plan_and_request(g, note, w, at);
    let (id, p, q) = p;
    g.note(note.clone());
    let persistent = keeps(&q);
    let answers = matches!(p.framing, Framing::Whole | Framing::Unknown | Framing::Cut);
    let mut response = match c.run(&at.to_string(), q) {
        Err(e) => {
            // A reused connection can have been closed by the server meanwhile.
            let w = w.0.lock().unwrap();
            let reached = w.conns.iter().any(|c| c.contains(&id));
            if answers && reached && w.bad.is_none() && p.sent == p.body.len() {
                return Err(format!("request {} was answered, and gives {:?}", id, e));
            }
            return Ok(None);
        }
        Ok(r) => r,
    };
    let got = response.headers.get("X-Id").map(|v| v.join(","));
    if !answers || got != Some(id.to_string()) {
        return Err(format!("the response to request {} is that of {:?}", id, got));
    }
    let conn = w.0.lock().unwrap().conns.iter().position(|c| c.contains(&id));
    // What the user does with it.
    let mut h_body = None;
    let (mut read, mut away) = (p.body.is_empty(), false);
    match g.below(9) {
        0..=2 => {}
        3..=5 => {
            // Reads some of it, or all of it.
            if let Some(b) = response.body.as_mut() {
                let n = if g.chance(50) { p.body.len() } else { g.below(p.body.len() + 1) };
                note.push_str(&format!(" read({})", n));
                let mut v = vec![];
                let mut part = b.by_ref().take(n as u64);
                let r = part.read_to_end(&mut v);
                let want = &p.body[..n.min(p.sent)];
                if v != want && r.is_ok() {
                    return Err(format!("the body of request {} gives {} bytes that are not those of its response", id, v.len()));
                }
                read = v.len() == p.body.len();
            }
        }
        6..=7 => {
            if let Some(mut b) = response.body.take() {
                away = true;
                let n = *g.pick(&[0, 1, p.body.len() / 2, p.body.len(), p.body.len()]);
                let keep = g.chance(40);
                note.push_str(&format!(" take({}{})", n, if keep { " keep" } else { "" }));
                let mut v = vec![];
                let _ = b.by_ref().take(n as u64).read_to_end(&mut v);
                read = v.len() == p.body.len();
                if v != p.body[..v.len()] {
                    return Err(format!("the body of request {} is not that of its response", id));
                }
                if keep {
                    h_body = Some(b);
                }
            }
        }
        _ => {
            note.push_str(" replace");
            if response.body.is_some() {
                away = true;
            }
            response.body = if g.chance(50) { None } else { Some(Body::from("other", mime::TEXT_PLAIN)) };
            response.headers.add(Header { name: "Content-Length".into(), value: "5".into() });
        }
    }
    Ok(Some((Held { id, response, body: h_body, persistent, read, away }, conn)))
}

fn plan_and_request(g: &mut Gen, note: &mut String, w: &Shared, at: SocketAddr) -> (usize, Plan, Request) {
    let id = w.0.lock().unwrap().plans.len();
    let q = request(g, id, note);
    let p = plan(g, note, at);
    w.0.lock().unwrap().plans.push(p.clone());
    (id, p, q)
}

fn reuse(g: &mut Gen) -> Done {
    CASES.fetch_add(1, Ordering::SeqCst);
    let w: Shared = Default::default();
    let targets = [Target::new(&w), Target::new(&w)];
    let c = Client::new();
    let mut held: Vec<(Held, Option<usize>)> = vec![];
    let mut bodies: Vec<Body> = vec![];
    let mut note = String::new();
    let mut any = false;
    let mut bad = None;
    for _ in 0..g.range(1, 7) {
        let at = targets[if g.chance(80) { 0 } else { 1 }].at;
        match run_one(g, &mut note, &w, &c, at) {
            Err(e) => {
                bad = Some(e);
                break;
            }
            Ok(None) => {}
            Ok(Some(h)) => {
                any = true;
                held.push(h);
            }
        }
        while !held.is_empty() && g.chance(80) {
            let i = g.below(held.len());
            let (mut h, n) = held.swap_remove(i);
            note.push_str(&format!(" drop({})", h.id));
            g.note(note.clone());
            let body = h.body.take();
            bodies.extend(body);
            // A body that is kept holds the connection.
            let kept = !bodies.is_empty() || held.iter().any(|h| h.0.body.is_some());
            if let Err(e) = release(&w, h, if kept { None } else { n }) {
                bad = Some(e);
                break;
            }
        }
        if bad.is_none() {
            bad = w.0.lock().unwrap().bad.clone();
        }
        if bad.is_some() {
            break;
        }
    }
    // Without the client nothing is kept.
    let first = g.chance(50);
    let mut c = Some(c);
    if first {
        c = None;
    }
    for (h, _) in held {
        let mut h = h;
        h.body = None;
        if bad.is_none() {
            if let Err(e) = release(&w, h, None) {
                bad = Some(e);
            }
        }
    }
    // An idle connection is closed with the client, though a body of it is kept.
    if bad.is_none() && !first && !bodies.is_empty() {
        let idle = {
            let w = w.0.lock().unwrap();
            w.conns.len() == 1 && w.conns[0].last().map_or(false, |id| w.released.contains(id))
        };
        drop(c.take());
        if idle && !await_end(&w, 0) {
            bad = Some("the idle connection is still open after the client is gone".into());
        }
    }
    drop(bodies);
    drop(c);
    if bad.is_none() {
        let n = w.0.lock().unwrap().conns.len();
        for i in 0..n {
            if !await_end(&w, i) {
                bad = Some(format!("connection {} is still open after the client and the responses are gone", i));
                break;
            }
        }
    }
    if bad.is_none() {
        bad = w.0.lock().unwrap().bad.clone();
    }
    g.done(any, bad)
}

fn together(g: &mut Gen) -> Done {
    let w: Shared = Default::default();
    let target = Target::new(&w);
    let c = Client::new();
    let threads = g.range(2, 5);
    let each = g.range(1, 6);
    let seed = g.next();
    g.note(format!("{} threads, {} requests each, seed {}", threads, each, seed));
    let at = target.at;
    // Each thread plans its requests under the lock of the world.
    let errors: Vec<String> = thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (w, c) = (&w, &c);
                s.spawn(move || {
                    let mut g = Gen::new(seed, t as u64);
                    for _ in 0..each {
                        let mut note = String::new();
                        let (id, q) = {
                            let mut x = w.0.lock().unwrap();
                            let id = x.plans.len();
                            let q = request(&mut g, id, &mut note);
                            let mut p = plan(&mut g, &mut note, at);
                            p.framing = Framing::Whole;
                            p.sent = p.body.len();
                            p.ends = false;
                            x.plans.push(p);
                            (id, q)
                        };
                        let persistent = keeps(&q);
                        let mut r = match c.run(&at.to_string(), q) {
                            Err(e) => return Some(format!("request {} gives {:?}", id, e)),
                            Ok(r) => r,
                        };
                        let got = r.headers.get("X-Id").map(|v| v.join(","));
                        if got != Some(id.to_string()) {
                            return Some(format!("the response to request {} is that of {:?}", id, got));
                        }
                        let body = w.0.lock().unwrap().plans[id].body.clone();
                        if g.chance(60) {
                            let mut v = vec![];
                            if let Some(b) = r.body.as_mut() {
                                let _ = b.read_to_end(&mut v);
                            }
                            if v != body {
                                return Some(format!("the body of request {} is not that of its response", id));
                            }
                        }
                        let h = Held { id, response: r, body: None, persistent, read: true, away: false };
                        if let Err(e) = release(w, h, None) {
                            return Some(e);
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    let mut bad = errors.into_iter().next();
    drop(c);
    if bad.is_none() {
        bad = w.0.lock().unwrap().bad.clone();
    }
    if bad.is_none() {
        let n = w.0.lock().unwrap().conns.len();
        for i in 0..n {
            if !await_end(&w, i) {
                bad = Some(format!("connection {} is still open after the client is gone", i));
                break;
            }
        }
    }
    g.done(true, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C17",
            name: "reuse",
            rule: "random requests of a client to two servers over loopback that follow a plan (whole responses, of unknown length, cut, malformed or none, that ask to close or not, in pieces, closing after them), read in part, in whole or not at all, with the body taken away, kept or replaced, and given back at any time: the servers report every request on a connection whose last response does not allow it, every response must be the planned one, and connections that can not be used again must be closed",
            weight: 3,
            max: 0,
            limit_ms: 60000,
            run: reuse,
        },
        Oracle {
            prop: "C17",
            name: "together",
            rule: "the same client used by two to five threads at once",
            weight: 1,
            max: 0,
            limit_ms: 60000,
            run: together,
        },
    ]
}

//! C25: the middleware that logs.
use super::io_util::{show, Source};
use super::messages::{fields, of_headers, to_headers, Fields, METHODS, STATUSES, TYPES};
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::cell::RefCell;
use std::io::Read;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Once};
use wruster::http::{Body, Request, Response};
use wruster::router::HttpHandler;
use wruster_handlers::log_middleware;

/// Formats what is logged.
struct Sink(AtomicUsize);
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        self.0.fetch_add(r.args().to_string().len(), Ordering::SeqCst);
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink(AtomicUsize::new(0));
thread_local! {
    /// What the handler answers: a response can not go to another thread.
    static ANSWER: RefCell<Option<Response>> = RefCell::new(None);
}
static START: Once = Once::new();

/// A body, or none, whose content can fail at its end.
fn content(g: &mut Gen) -> (Option<Body>, Vec<u8>, Option<std::io::ErrorKind>, String) {
    if g.chance(25) {
        return (None, vec![], None, "no body".into());
    }
    let n = [0, 1, g.range(2, 40), g.range(41, 9000)][g.below(4)];
    let data = g.bytes(n);
    let fails = if g.chance(15) { Some(std::io::ErrorKind::ConnectionReset) } else { None };
    let mut src = Source::new(g, data.clone(), fails);
    src.interrupts = false;
    let t = if g.chance(60) { Some(g.pick(&TYPES).parse().unwrap()) } else { None };
    let note = format!("a body of {} bytes{}", n, if fails.is_some() { " that fails then" } else { "" });
    (Some(Body::new(t, n as u64, Box::new(src))), data, fails, note)
}

fn fault(b: Option<&mut Body>, has: bool, want: &[u8], fails: bool, t: &Option<String>, len: u64) -> Option<String> {
    match b {
        None => has.then(|| "has no body".to_string()),
        Some(_) if !has => Some("has a body".to_string()),
        Some(b) => {
            if b.content_length != len || b.content_type.as_ref().map(|m| m.to_string()) != *t {
                return Some(format!("has a body of type {:?} and length {}, not {:?} and {}", b.content_type, b.content_length, t, len));
            }
            let mut v = vec![];
            let e = b.content.read_to_end(&mut v);
            if v != want || e.is_err() != fails {
                return Some(format!("has a body with {} ({:?}) and not {}{}", show(&v), e, show(want), if fails { " and an error" } else { "" }));
            }
            None
        }
    }
}

struct Saw {
    calls: usize,
    bad: Option<String>,
}

fn logged(g: &mut Gen) -> Done {
    START.call_once(|| {
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Info);
    });
    log::set_max_level(*g.pick(&[log::LevelFilter::Info, log::LevelFilter::Info, log::LevelFilter::Off, log::LevelFilter::Trace]));
    let (m, mt) = *g.pick(&METHODS);
    let f: Fields = fields(g, false);
    let uri = ["/", "/a?b=c", "*", "", "/é{}"][g.below(5)].to_string();
    let version = ["HTTP/1.1", "HTTP/1.0", ""][g.below(3)].to_string();
    let (body, data, fails, note) = content(g);
    let (rbody, rdata, rfails, rnote) = content(g);
    let rf = fields(g, false);
    let (status, st) = STATUSES[g.below(STATUSES.len())].clone();
    // How much of the request the handler reads, and what it changes.
    let reads = if g.chance(50) { data.len() } else { g.below(data.len() + 1) };
    let changes = g.chance(30);
    let (has, rhas) = (body.is_some(), rbody.is_some());
    let typ = |b: &Option<Body>| b.as_ref().and_then(|b| b.content_type.as_ref().map(|m| m.to_string()));
    let (t, rt) = (typ(&body), typ(&rbody));
    let levels = if g.chance(30) { 2 } else { 1 };
    g.note(format!(
        "{} {:?} {:?} {:?} with {}, answered {:?} {:?} with {}; the handler reads {} bytes{}, logged {} times",
        mt, uri, version, f, note, st, rf, rnote, reads, if changes { " and changes the request" } else { "" }, levels
    ));
    let saw = Arc::new(Mutex::new(Saw { calls: 0, bad: None }));
    ANSWER.with(|a| *a.borrow_mut() = Some(Response { status, headers: to_headers(&rf), body: rbody }));
    let inner: HttpHandler = {
        let (saw, f, uri, version, data, t) = (Arc::clone(&saw), f.clone(), uri.clone(), version.clone(), data.clone(), t.clone());
        Box::new(move |q: &mut Request| {
            let mut s = saw.lock().unwrap();
            s.calls += 1;
            if q.method != m || q.uri != uri || q.version != version || of_headers(&q.headers) != f {
                s.bad = Some(format!("the handler was given the request {:?}", q));
            }
            match q.body.as_mut() {
                None => {
                    if has {
                        s.bad = Some("the handler was given a request with no body".into());
                    }
                }
                Some(b) => {
                    let mut v = vec![0; reads];
                    let e = b.content.read_exact(&mut v);
                    if e.is_err() || v != data[..reads] || b.content_length != data.len() as u64 || b.content_type.as_ref().map(|m| m.to_string()) != t {
                        s.bad = Some(format!("the handler was given a body that begins with {} and not {}, of {} bytes", show(&v), show(&data[..reads]), b.content_length));
                    }
                }
            }
            if changes {
                q.uri.push('!');
            }
            ANSWER.with(|a| a.borrow_mut().take()).unwrap_or_else(|| Response::from_str("again").unwrap())
        })
    };
    let mut h = inner;
    for _ in 0..levels {
        h = log_middleware(h);
    }
    let mut q = Request { method: m, uri: uri.clone(), version: version.clone(), headers: to_headers(&f), body };
    let mut r = h(&mut q);
    let s = saw.lock().unwrap();
    if s.calls != 1 {
        return g.done(true, Some(format!("the handler was called {} times", s.calls)));
    }
    if let Some(b) = &s.bad {
        return g.done(true, Some(b.clone()));
    }
    let left = if changes { format!("{}!", uri) } else { uri };
    if q.method != m || q.uri != left || q.version != version || of_headers(&q.headers) != f {
        return g.done(true, Some(format!("the request is {:?} after it", q)));
    }
    if let Some(b) = fault(q.body.as_mut(), has, &data[reads..], fails.is_some(), &t, data.len() as u64) {
        return g.done(true, Some(format!("the request {} after it", b)));
    }
    if r.status.to_string() != st || of_headers(&r.headers) != rf {
        return g.done(true, Some(format!("the response is {:?}", r)));
    }
    if let Some(b) = fault(r.body.as_mut(), rhas, &rdata, rfails.is_some(), &rt, rdata.len() as u64) {
        return g.done(true, Some(format!("the response {}", b)));
    }
    g.done(has && rhas, None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C25",
        name: "logged_handler",
        rule: "requests and responses of every kind, with bodies that can fail, through a handler that is logged once or twice at several levels; the handler is called once with the request, and the response and what is left of the request are those of the handler; non trivial: both have a body",
        weight: 1,
        max: 0,
        limit_ms: 10000,
        run: logged,
    }]
}

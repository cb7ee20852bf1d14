//! C10: the conversation over one connection.
use super::io_util::show;
use super::net;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::io::{self, ErrorKind, Read, Write};
use std::net::{Shutdown, TcpStream};
#[cfg(wruster_verif)]
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
#[cfg(wruster_verif)]
use wruster::verif::{self, BaseStream, CancellableStream, ObservedStreamList, Stream};
use wruster::Timeouts;

const PATIENCE: Duration = Duration::from_secs(5);

#[derive(Default)]
struct Ctl {
    /// Fails when so many bytes were read or written.
    read_fails_at: Option<usize>,
    write_fails_at: Option<usize>,
    /// The flush with that number fails.
    flush_fails_at: Option<usize>,
    most: usize,
    read: usize,
    written: usize,
    flushes: usize,
    shut: Vec<Shutdown>,
    shutdown_fails: bool,
}

#[cfg(wruster_verif)]
struct Net {
    s: TcpStream,
    c: Arc<Mutex<Ctl>>,
}

#[cfg(wruster_verif)]
impl BaseStream for Net {
    fn set_nonblocking(&self, nonblocking: bool) -> io::Result<()> {
        self.s.set_nonblocking(nonblocking)
    }
    fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        let mut c = self.c.lock().unwrap();
        c.shut.push(how);
        if c.shutdown_fails {
            return Err(io::Error::from(ErrorKind::NotConnected));
        }
        self.s.shutdown(how)
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn as_raw(&self) -> i32 {
        self.s.as_raw_fd()
    }
    fn write_buf(&self, buf: &[u8]) -> io::Result<usize> {
        let mut c = self.c.lock().unwrap();
        let mut n = buf.len().min(c.most);
        if let Some(at) = c.write_fails_at {
            if c.written >= at {
                return Err(io::Error::from(ErrorKind::BrokenPipe));
            }
            n = n.min(at - c.written);
        }
        let r = (&self.s).write(&buf[..n]);
        if let Ok(n) = r {
            c.written += n;
        }
        r
    }
    fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut c = self.c.lock().unwrap();
        let mut n = buf.len().min(c.most);
        if let Some(at) = c.read_fails_at {
            if c.read >= at {
                return Err(io::Error::from(ErrorKind::ConnectionReset));
            }
            n = n.min(at - c.read);
        }
        let r = (&self.s).read(&mut buf[..n]);
        if let Ok(n) = r {
            c.read += n;
        }
        r
    }
    fn flush_data(&self) -> io::Result<()> {
        let mut c = self.c.lock().unwrap();
        c.flushes += 1;
        if c.flush_fails_at == Some(c.flushes) {
            return Err(io::Error::from(ErrorKind::BrokenPipe));
        }
        (&self.s).flush()
    }
}
#[cfg(wruster_verif)]
impl Stream for Net {}

/// A conversation that runs: the end of the client, and what tells at last if
/// it ended as it must.
pub struct Conversation {
    pub client: TcpStream,
    pub finish: Box<dyn FnOnce() -> Option<String> + Send>,
}

/// One connection given to handle_conversation.
#[cfg(wruster_verif)]
fn converse(ctl: &Arc<Mutex<Ctl>>, routes: Router, timeouts: Timeouts) -> Conversation {
    let (server, client) = net::pair();
    let addr = client.local_addr().unwrap();
    server.set_nodelay(true).unwrap();
    let list = ObservedStreamList::new();
    let stream = ObservedStreamList::track(&list, CancellableStream::new(Net { s: server, c: Arc::clone(ctl) }).unwrap());
    let (tell, ended) = std::sync::mpsc::channel::<()>();
    struct Tell(std::sync::mpsc::Sender<()>);
    impl Drop for Tell {
        fn drop(&mut self) {
            let _ = self.0.send(());
        }
    }
    let h = std::thread::spawn(move || {
        let _tell = Tell(tell);
        verif::handle_conversation(stream, Arc::new(routes), timeouts, addr);
    });
    let finish = move || {
        if ended.recv_timeout(PATIENCE).is_err() {
            return Some("the conversation does not end".to_string());
        }
        let _ = h.join();
        if list.len() != 0 {
            return Some("the connection is still tracked at the end".to_string());
        }
        None
    };
    Conversation { client, finish: Box::new(finish) }
}

/// Without the hook: the only connection of a server.
#[cfg(not(wruster_verif))]
fn converse(_: &Arc<Mutex<Ctl>>, routes: Router, timeouts: Timeouts) -> Conversation {
    super::plain::serve(routes, timeouts)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Use {
    None,
    Part,
    All,
    Content,
    Take,
    Echo,
    Panic,
    Missing,
    Climb,
}

/// How a request ends for the client.
#[derive(Clone, PartialEq, Debug)]
enum End {
    /// A response, and whether the connection is kept.
    Answer(u16, Vec<u8>, bool),
    /// Closed without a response.
    Closed,
}

struct Step {
    bytes: Vec<u8>,
    end: End,
    /// What the handler must see: its mark and what it reads of the body.
    calls: Option<String>,
    /// The client sends nothing else.
    stops: bool,
    /// The client leaves the connection open but silent.
    stalls: bool,
}

fn sum(b: &[u8]) -> u64 {
    b.iter().fold(1469598103934665603u64, |h, c| (h ^ *c as u64).wrapping_mul(1099511628211))
}

fn handler(seen: &Arc<Mutex<Vec<String>>>, u: Use, tick: usize) -> HttpHandler {
    let seen = Arc::clone(seen);
    Box::new(move |q: &mut Request| {
        let mut got = vec![];
        match u {
            Use::Part => {
                if let Some(b) = q.body.as_mut() {
                    let mut p = [0u8; 5];
                    let n = b.read(&mut p).unwrap_or(0);
                    // What a read returns depends on how the data arrives.
                    let _ = n;
                }
            }
            Use::All => {
                if let Some(b) = q.body.as_mut() {
                    b.read_to_end(&mut got).unwrap();
                }
            }
            Use::Content => {
                if let Some(b) = q.body.as_mut() {
                    b.content.read_to_end(&mut got).unwrap();
                }
            }
            _ => {}
        }
        let mark = format!("{} {} {}", q.uri, q.headers.get("X-Mark").map(|v| v[0].clone()).unwrap_or_default(), if matches!(u, Use::All | Use::Content) { format!("{} {:x}", got.len(), sum(&got)) } else { String::new() });
        seen.lock().unwrap().push(mark.clone());
        match u {
            Use::Panic => panic!("the action panics"),
            Use::Take => {
                q.body.take();
            }
            Use::Echo => {
                if let Some(b) = q.body.take() {
                    return Response { status: StatusCode::OK, headers: Headers::new(), body: Some(b) };
                }
            }
            _ => {}
        }
        // The action can also change the request.
        if tick % 3 == 1 {
            q.headers = Headers::new();
            q.version = "HTTP/1.0".into();
        } else if tick % 3 == 2 {
            q.headers.add(Header { name: "Connection".into(), value: "close".into() });
        }
        let text = mark.repeat(1 + tick % 4 * 50);
        let n = text.len() as u64;
        Response { status: StatusCode::OK, headers: Headers::new(), body: Some(Body::new(Some(mime::TEXT_PLAIN), n, Box::new(io::Cursor::new(text)))) }
    })
}

const USES: [Use; 9] = [Use::None, Use::Part, Use::All, Use::Content, Use::Take, Use::Echo, Use::Panic, Use::Missing, Use::Climb];

fn path(u: Use) -> &'static str {
    match u {
        Use::None => "/none",
        Use::Part => "/part",
        Use::All => "/all",
        Use::Content => "/content",
        Use::Take => "/take",
        Use::Echo => "/echo",
        Use::Panic => "/panic",
        Use::Missing => "/missing",
        Use::Climb => "/../x",
    }
}

fn well_formed(g: &mut Gen, k: usize) -> Step {
    let u = if g.chance(70) { USES[g.below(4)] } else { USES[g.below(9)] };
    let tick = u as usize;
    let version = *g.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2"]);
    let conn = *g.pick(&["", "", "", "close", "keep-alive", "Keep-Alive", "CLOSE", "upgrade"]);
    let len = if g.chance(30) { 0 } else { *g.pick(&[1, 2, 5, 6, 30, 1000, 8192, 9000, 40000]) };
    let body = if g.chance(50) { g.bytes(len) } else { b"GET /none HTTP/1.1\r\nX-Mark: smuggled\r\n\r\n".iter().cycle().take(len).cloned().collect() };
    let low = conn.to_lowercase();
    let keep = low != "close" && (version != "HTTP/1.0" || low == "keep-alive");
    let m = if len > 0 { "POST" } else { *g.pick(&["GET", "POST"]) };
    let mut b = format!("{} {} {}\r\nX-Mark: m{}\r\n", m, path(u), version, k).into_bytes();
    if !conn.is_empty() {
        b.extend_from_slice(format!("Connection: {}\r\n", conn).as_bytes());
    }
    if len > 0 || g.chance(30) {
        b.extend_from_slice(format!("Content-Length: {}\r\n", len).as_bytes());
    }
    b.extend_from_slice(b"\r\n");
    b.extend_from_slice(&body);
    let mark = format!("{} m{} {}", path(u), k, match u {
        Use::All | Use::Content if len > 0 => format!("{} {:x}", len, sum(&body)),
        Use::All | Use::Content => format!("0 {:x}", sum(&[])),
        _ => String::new(),
    });
    let (end, calls) = match u {
        Use::Missing => (End::Answer(404, vec![], keep), None),
        Use::Climb => (End::Answer(500, vec![], keep), None),
        Use::Panic => (End::Closed, Some(mark)),
        Use::Echo if len > 0 => (End::Answer(200, body, keep), Some(mark)),
        Use::Take if len > 0 => (End::Answer(200, mark.repeat(1 + tick % 4 * 50).into_bytes(), false), Some(mark)),
        _ => (End::Answer(200, mark.repeat(1 + tick % 4 * 50).into_bytes(), keep), Some(mark)),
    };
    Step { bytes: b, end, calls, stops: false, stalls: false }
}

fn ill_formed(g: &mut Gen, k: usize) -> Step {
    let bad400: [&str; 4] = ["BREW /none HTTP/1.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET /none HTTP/1.1\r\nno colon\r\n\r\n", "GET /none HTTP/1.1\r\n: value\r\n\r\n"];
    let other: [&str; 4] = [
        "POST /none HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n",
        "POST /none HTTP/1.1\r\nContent-Length: 12a\r\n\r\nabc",
        "POST /none HTTP/1.1\r\nContent-Length: 2\r\nContent-Length: 2\r\n\r\nab",
        "POST /none HTTP/1.1\r\nContent-Length: -1\r\n\r\nab",
    ];
    match g.below(4) {
        0 => Step { bytes: g.pick(&bad400).as_bytes().to_vec(), end: End::Answer(400, vec![], false), calls: None, stops: true, stalls: false },
        1 => Step { bytes: g.pick(&other).as_bytes().to_vec(), end: End::Closed, calls: None, stops: true, stalls: false },
        _ => {
            // A request cut anywhere, then the end of the connection or silence.
            let mut s = well_formed(g, k);
            while !matches!(s.end, End::Answer(200, _, _)) || s.calls.as_ref().map_or(true, |c| c.starts_with("/take") || c.starts_with("/echo") || c.starts_with("/panic")) {
                s = well_formed(g, k);
            }
            let head = s.bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            let cut = if g.chance(60) { g.below(head - 3) } else { g.range(0, s.bytes.len() - 1) };
            // Before the end of the head there is no request; the method
            // alone, or less, is not one either.
            s.bytes.truncate(cut);
            s.stops = true;
            s.stalls = g.chance(30);
            s.end = End::Closed;
            if cut < head {
                s.calls = None;
            } else {
                // The action can run, and fail to read the body.
                s.calls = Some("?".into());
            }
            s
        }
    }
}

/// Reads one response: status and body; None at the end of the connection.
fn response(c: &mut TcpStream, pending: &mut Vec<u8>) -> Result<Option<(u16, Vec<u8>)>, String> {
    let mut buf = [0u8; 65536];
    loop {
        if let Some(p) = pending.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&pending[..p]).to_string();
            let status = head.split(' ').nth(1).and_then(|s| s.parse::<u16>().ok()).ok_or(format!("not a response: {}", show(pending)))?;
            let lens: Vec<usize> = head.split("\r\n").skip(1).filter_map(|l| l.strip_prefix("Content-Length: ")).filter_map(|v| v.parse().ok()).collect();
            if lens.len() != 1 || !head.starts_with("HTTP/1.1 ") {
                return Err(format!("not a complete response: {}", show(pending)));
            }
            if pending.len() >= p + 4 + lens[0] {
                let body = pending[p + 4..p + 4 + lens[0]].to_vec();
                pending.drain(..p + 4 + lens[0]);
                return Ok(Some((status, body)));
            }
        }
        match c.read(&mut buf) {
            Ok(0) => {
                return if pending.is_empty() { Ok(None) } else { Err(format!("an incomplete response: {}", show(pending))) };
            }
            Ok(n) => pending.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == ErrorKind::ConnectionReset => return if pending.is_empty() { Ok(None) } else { Err("a reset in the middle of a response".into()) },
            Err(e) => return Err(format!("no response nor end: {:?}", e.kind())),
        }
    }
}

fn conversations(g: &mut Gen) -> Done {
    // Sometimes a long one, of short requests.
    let long = g.chance(1);
    let n = if long { g.range(100, 300) } else { g.range(1, 6) };
    let mut steps: Vec<Step> = vec![];
    for k in 0..n {
        let mut s = well_formed(g, k);
        if long && k + 1 < n {
            while s.bytes.len() > 300 || !matches!(s.end, End::Answer(_, _, true)) {
                s = well_formed(g, k);
            }
            steps.push(s);
            continue;
        }
        let s = if g.chance(12) { ill_formed(g, k) } else { s };
        let ends = s.stops || !matches!(s.end, End::Answer(_, _, true));
        steps.push(s);
        if ends {
            break;
        }
    }
    let mut ctl = Ctl { most: *g.pick(&[usize::MAX, usize::MAX, 4096, 1000, 17]), shutdown_fails: g.chance(5), ..Default::default() };
    let total: usize = steps.iter().map(|s| s.bytes.len()).sum();
    let fault = if g.chance(25) { g.range(1, 3) } else { 0 };
    // Faults can only be made to happen through the hook.
    let fault = if cfg!(wruster_verif) { fault } else { 0 };
    match fault {
        1 => ctl.read_fails_at = Some(g.below(total + 1)),
        2 => ctl.write_fails_at = Some(g.below(300 * steps.len())),
        3 => ctl.flush_fails_at = Some(g.range(1, steps.len())),
        _ => {}
    }
    // A response can be cut by a fault of writing, or of reading what it echoes.
    let cut = fault == 2 || fault == 1 && steps.iter().any(|s| s.calls.as_ref().map_or(false, |c| c.starts_with("/echo")));
    let stalls = steps.iter().any(|s| s.stalls);
    let note = format!(
        "at most {} bytes at once; read fails at {:?}, write at {:?}, flush {:?}; requests: {}",
        if ctl.most == usize::MAX { "all".into() } else { ctl.most.to_string() },
        ctl.read_fails_at,
        ctl.write_fails_at,
        ctl.flush_fails_at,
        steps.iter().map(|s| format!("[{}{} -> {}]", show(&s.bytes[..s.bytes.len().min(160)]), if s.stalls { " then silence" } else { "" }, match &s.end { End::Answer(c, b, k) => format!("{} with {} bytes, {}", c, b.len(), if *k { "kept" } else { "closed" }), End::Closed => "closed".into() })).collect::<Vec<_>>().join(" ")
    );
    g.note(note);

    let seen: Arc<Mutex<Vec<String>>> = Default::default();
    let routes = Router::new();
    for u in USES {
        if u != Use::Missing && u != Use::Climb {
            for m in [HttpMethod::GET, HttpMethod::POST] {
                routes.add(path(u), m, handler(&seen, u, u as usize));
            }
        }
    }
    let ctl = Arc::new(Mutex::new(ctl));
    let timeouts = Timeouts { read_request_timeout: if stalls { Duration::from_millis(150) } else { Duration::from_secs(15) }, write_response_timeout: Duration::from_secs(15) };
    let Conversation { mut client, finish } = converse(&ctl, routes, timeouts);
    client.set_nodelay(true).unwrap();
    client.set_read_timeout(Some(PATIENCE)).unwrap();
    client.set_write_timeout(Some(PATIENCE)).unwrap();

    let mut bad = None;
    let mut pending = vec![];
    let mut answered = 0;
    let mut over = false;
    let slow = g.chance(25);
    'all: for (i, s) in steps.iter().enumerate() {
        let mut sent = true;
        if slow && s.bytes.len() > 3 {
            let mut at = 0;
            for _ in 0..3 {
                let n = g.range(1, s.bytes.len() - 1).min(s.bytes.len() - at);
                sent &= client.write_all(&s.bytes[at..at + n]).is_ok();
                at += n;
                std::thread::sleep(Duration::from_millis(1));
            }
            sent &= client.write_all(&s.bytes[at..]).is_ok();
        } else {
            sent &= client.write_all(&s.bytes).is_ok();
        }
        let _ = sent;
        if s.stops && !s.stalls {
            let _ = client.shutdown(Shutdown::Write);
        }
        match response(&mut client, &mut pending) {
            Ok(None) => {
                over = true;
                if s.end != End::Closed && fault == 0 {
                    bad = Some(format!("request {} got no response", i));
                }
                break 'all;
            }
            Ok(Some((status, body))) => match &s.end {
                End::Answer(want, wbody, keep) => {
                    answered += 1;
                    if status != *want || body != *wbody {
                        bad = Some(format!("request {} was answered with {} {} instead of {} {}", i, status, show(&body), want, show(wbody)));
                        break 'all;
                    }
                    if !keep {
                        match response(&mut client, &mut pending) {
                            Ok(None) => over = true,
                            Ok(Some(r)) => bad = Some(format!("another response after request {}: {}", i, r.0)),
                            Err(e) => bad = Some(format!("the connection was not closed after request {}: {}", i, e)),
                        }
                        break 'all;
                    }
                }
                End::Closed => {
                    bad = Some(format!("request {} was answered with {} instead of closed", i, status));
                    break 'all;
                }
            },
            Err(e) => {
                if cut && !e.starts_with("no response") {
                    over = true;
                } else {
                    bad = Some(format!("request {}: {}", i, e));
                }
                break 'all;
            }
        }
    }
    if bad.is_none() && !over {
        // It is still open: nothing else arrives until the client ends.
        if fault == 0 {
            client.set_read_timeout(Some(Duration::from_millis(2))).unwrap();
            let mut b = [0u8; 1];
            match client.read(&mut b) {
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {}
                Ok(0) => bad = Some("the connection was closed though it had to be kept".into()),
                Ok(_) => bad = Some("more than the responses was sent".into()),
                Err(e) => bad = Some(format!("the connection ended with {:?}", e.kind())),
            }
            client.set_read_timeout(Some(PATIENCE)).unwrap();
        }
        let _ = client.shutdown(Shutdown::Write);
        if bad.is_none() {
            match response(&mut client, &mut pending) {
                Ok(None) => {}
                Ok(Some(r)) => bad = Some(format!("a response nobody asked for: {}", r.0)),
                Err(e) if cut && !e.starts_with("no response") => {}
                Err(e) => bad = Some(format!("at the end: {}", e)),
            }
        }
    }
    drop(client);
    let ending = finish();
    bad = bad.or(ending);
    // The actions that ran, in order, each once.
    let ran = seen.lock().unwrap().clone();
    if bad.is_none() {
        let want: Vec<&String> = steps.iter().filter_map(|s| s.calls.as_ref()).collect();
        let least = steps.iter().take(answered).filter(|s| s.calls.is_some()).count();
        let ok = ran.len() >= least
            && (fault != 0 || ran.len() == want.len() || (want.last().map_or(false, |w| w.as_str() == "?") && ran.len() + 1 == want.len()))
            && ran.len() <= want.len()
            && ran.iter().zip(&want).all(|(r, w)| w.as_str() == "?" || r == *w);
        if !ok {
            bad = Some(format!("the actions that ran are {:?} instead of {:?}", ran, want));
        }
    }
    let c = ctl.lock().unwrap();
    if bad.is_none() && fault == 3 {
        let at = c.flush_fails_at.unwrap();
        if answered > at {
            bad = Some("a request was answered after a failed flush".into());
        }
    }
    g.done(answered > 0, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C10",
        name: "conversations",
        rule: "random requests sent one by one to handle_conversation over a loopback connection: versions and Connection values, bodies that the action ignores, reads in part or whole, takes away or sends back, bodies that look like requests, actions that panic or change the request, malformed and cut requests, silence, short reads and writes, and errors of reading, writing or flushing at any point; the responses, their order and content, the actions that ran, and when the connection is closed are compared with the plan; non trivial: at least one response",
        weight: 1,
        max: 0,
        limit_ms: 40000,
        run: conversations,
    }]
}

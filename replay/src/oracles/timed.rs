//! C11: the time budgets of a stream.
#![cfg_attr(not(wruster_verif), allow(dead_code))]
use crate::gen::Gen;
use crate::oracles::io_util::KINDS;
use crate::oracles::net;
use crate::{Done, Oracle};
use std::io::{self, ErrorKind, Read, Write};
use std::net::TcpStream;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::http::headers::Headers;
use wruster::http::{Body, HttpMethod, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
#[cfg(wruster_verif)]
use wruster::verif::{self, CancellableStream, ObservedStreamList, Timeout, TimeoutStream};
use wruster::Timeouts;

#[derive(Debug, Clone)]
enum Op {
    SetRead(Option<Duration>),
    SetWrite(Option<Duration>),
    Read(Duration),
    Write(Duration),
    Flush,
}

#[derive(Clone)]
enum Out {
    Data(usize),
    Fail(ErrorKind),
}

#[derive(Default)]
struct Script {
    log: Vec<Op>,
    next: Option<(u64, Out)>,
    set_fails: bool,
    data: u8,
    written: Vec<u8>,
}

struct Slow(Arc<Mutex<Script>>);

impl Slow {
    fn step(&self) -> (u64, Out) {
        self.0.lock().unwrap().next.clone().unwrap_or((0, Out::Data(1)))
    }
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (ms, out) = self.step();
        let t = Instant::now();
        if ms > 0 {
            std::thread::sleep(Duration::from_micros(ms * 200));
        }
        let mut s = self.0.lock().unwrap();
        s.log.push(Op::Read(t.elapsed()));
        match out {
            Out::Data(n) => {
                let n = n.min(buf.len());
                for b in &mut buf[..n] {
                    s.data = s.data.wrapping_add(1);
                    *b = s.data;
                }
                Ok(n)
            }
            Out::Fail(k) => Err(io::Error::new(k, "inner")),
        }
    }
}

impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let (ms, out) = self.step();
        let t = Instant::now();
        if ms > 0 {
            std::thread::sleep(Duration::from_micros(ms * 200));
        }
        let mut s = self.0.lock().unwrap();
        s.log.push(Op::Write(t.elapsed()));
        match out {
            Out::Data(n) => {
                let n = n.min(buf.len());
                s.written.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Out::Fail(k) => Err(io::Error::new(k, "inner")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().log.push(Op::Flush);
        match self.step().1 {
            Out::Data(_) => Ok(()),
            Out::Fail(k) => Err(io::Error::new(k, "inner")),
        }
    }
}

#[cfg(wruster_verif)]
impl Timeout for Slow {
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Op::SetRead(d));
        if s.set_fails {
            return Err(io::Error::new(ErrorKind::InvalidInput, "set"));
        }
        Ok(())
    }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        let mut s = self.0.lock().unwrap();
        s.log.push(Op::SetWrite(d));
        if s.set_fails {
            return Err(io::Error::new(ErrorKind::InvalidInput, "set"));
        }
        Ok(())
    }
}

fn budget(g: &mut Gen) -> Option<Duration> {
    match g.below(10) {
        0 => None,
        1 => Some(Duration::from_secs(3600)),
        2 => Some(Duration::from_nanos(g.range(1, 2000) as u64)),
        3 => Some(Duration::MAX),
        4 => Some(Duration::ZERO),
        _ => Some(Duration::from_micros(g.range(1, 4000) as u64)),
    }
}

#[cfg(wruster_verif)]
fn budgets(g: &mut Gen) -> Done {
    let (rt, wt) = (budget(g), budget(g));
    let script = Arc::new(Mutex::new(Script::default()));
    let mut ts = TimeoutStream::from(Slow(Arc::clone(&script)), rt, wt);
    let mut desc = format!("read {:?} write {:?}: ", rt, wt);
    // Per kind: the time surely spent inside the stream, and the most that
    // can have been charged.
    let mut inner = [Duration::ZERO; 2];
    let mut outer = [Duration::ZERO; 2];
    let mut expected_data = 0u8;
    let mut expected_written: Vec<u8> = Vec::new();
    let mut limited = 0;
    for _ in 0..g.range(2, 14) {
        let what = g.below(9);
        let ms = if g.chance(40) { 0 } else { g.range(1, 7) as u64 };
        let out = match g.below(6) {
            0 => Out::Fail(ErrorKind::WouldBlock),
            1 => Out::Fail(*g.pick(&KINDS)),
            2 => Out::Fail(ErrorKind::Interrupted),
            _ => Out::Data(g.below(6)),
        };
        let set_fails = g.chance(5);
        let n = g.below(6);
        {
            let mut s = script.lock().unwrap();
            s.log.clear();
            s.next = Some((ms, out.clone()));
            s.set_fails = set_fails;
        }
        let o = match &out {
            Out::Data(n) => format!("gives {}", n),
            Out::Fail(k) => format!("fails {:?}", k),
        };
        if what == 8 {
            desc.push_str(&format!("flush({}) ", o));
            g.note(desc.clone());
            let r = ts.flush();
            let log = script.lock().unwrap().log.clone();
            let same = match (&r, &out) {
                (Ok(_), Out::Data(_)) => true,
                (Err(e), Out::Fail(k)) => e.kind() == *k,
                _ => false,
            };
            if !same || !matches!(log[..], [Op::Flush]) {
                return g.done(true, Some(format!("flush gave {:?} with the operations {:?}", r, log)));
            }
            continue;
        }
        let k = if what < 4 { 0 } else { 1 };
        let t = [rt, wt][k];
        desc.push_str(&format!("{}({} bytes, after {} us {}{}) ", ["read", "write"][k], n, ms * 200, o, if set_fails { ", limiting fails" } else { "" }));
        g.note(desc.clone());
        let mut buf = vec![0u8; n];
        let src: Vec<u8> = g.bytes(n);
        let start = Instant::now();
        let r = if k == 0 { ts.read(&mut buf) } else { ts.write(&src) };
        let took = start.elapsed();
        let log = script.lock().unwrap().log.clone();
        let mut log = &log[..];
        if let Some(t) = t {
            let limit = match log.first() {
                None => {
                    // Nothing left: it must be true that all was spent.
                    if outer[k] < t {
                        return g.done(true, Some(format!("no operation on the stream, {:?} with at most {:?} spent of {:?}", r, outer[k], t)));
                    }
                    match r {
                        Err(e) if e.kind() == ErrorKind::TimedOut => continue,
                        r => return g.done(true, Some(format!("the budget is spent and the result is {:?}", r))),
                    }
                }
                Some(Op::SetRead(d)) if k == 0 => *d,
                Some(Op::SetWrite(d)) if k == 1 => *d,
                Some(o) => return g.done(true, Some(format!("the first operation is {:?} with a budget of {:?}", o, t))),
            };
            limited += 1;
            match limit {
                Some(d) if !d.is_zero() && d <= t.saturating_sub(inner[k]) && d >= t.saturating_sub(outer[k]) => {}
                d => {
                    return g.done(true, Some(format!(
                        "limited to {:?}, with {:?} to {:?} spent of {:?}", d, inner[k], outer[k], t)))
                }
            }
            log = &log[1..];
            if set_fails {
                match r {
                    Err(e) if log.is_empty() && e.kind() == ErrorKind::InvalidInput => {}
                    r => return g.done(true, Some(format!("the limit could not be set, result {:?}, then {:?}", r, log))),
                }
                outer[k] += took;
                continue;
            }
        }
        match (log, k) {
            ([Op::Read(d)], 0) | ([Op::Write(d)], 1) => inner[k] += *d,
            _ => return g.done(true, Some(format!("unexpected operations on the stream: {:?}", log))),
        }
        outer[k] += took;
        match (&out, &r) {
            (Out::Data(m), Ok(x)) if *x == n.min(*m) => {
                if k == 0 {
                    for b in &buf[..*x] {
                        expected_data = expected_data.wrapping_add(1);
                        if *b != expected_data {
                            return g.done(true, Some(format!("the data read is altered: {:?}", buf)));
                        }
                    }
                    if buf[*x..].iter().any(|b| *b != 0) {
                        return g.done(true, Some("the rest of the buffer is altered".into()));
                    }
                } else {
                    expected_written.extend_from_slice(&src[..*x]);
                    if script.lock().unwrap().written != expected_written {
                        return g.done(true, Some("the data written is altered".into()));
                    }
                }
            }
            (Out::Fail(ErrorKind::WouldBlock), Err(e)) if t.is_some() && e.kind() == ErrorKind::TimedOut => {}
            (Out::Fail(q), Err(e)) if e.kind() == *q && e.to_string() == "inner" && (t.is_none() || *q != ErrorKind::WouldBlock) => {}
            _ => return g.done(true, Some(format!("the stream {} and the result is {:?}", o, r))),
        }
    }
    g.done(limited >= 2, None)
}

/// The streams that are timed limit the operation they are asked to limit.
#[cfg(wruster_verif)]
pub fn limits(g: &mut Gen) -> Done {
    let (server, client) = net::pair();
    let kind = g.index % 6;
    let (short, long) = (Duration::from_millis(g.range(2, 30) as u64), Duration::from_secs(4));
    let reads = g.index % 2 == 0;
    g.note(format!("{} with a limit of {:?} on {}", ["TcpStream", "&TcpStream", "CancellableStream", "&CancellableStream", "ObservedStream", "ObservedStream clone"][kind as usize], short, if reads { "reads" } else { "writes" }));
    let (r, w) = if reads { (short, long) } else { (long, short) };
    fn timed<S: Timeout + Read + Write>(mut s: S, set: &dyn Fn(&S), reads: bool) -> (Duration, io::Result<usize>) {
        set(&s);
        let t = Instant::now();
        let mut buf = [0u8; 8];
        if reads {
            let x = s.read(&mut buf);
            return (t.elapsed(), x);
        }
        let block = vec![0u8; 1 << 20];
        loop {
            let t = Instant::now();
            match s.write(&block) {
                Ok(_) if t.elapsed() < Duration::from_secs(3) => continue,
                x => return (t.elapsed(), x),
            }
        }
    }
    fn set<S: Timeout>(s: &S, r: Duration, w: Duration) {
        Timeout::set_read_timeout(s, Some(r)).unwrap();
        Timeout::set_write_timeout(s, Some(w)).unwrap();
    }
    let (took, res) = match kind {
        0 => timed(client, &|s| set(s, r, w), reads),
        1 => {
            set(&&client, r, w);
            timed(client, &|_| (), reads)
        }
        2 => timed(CancellableStream::new(client).unwrap(), &|s| set(s, r, w), reads),
        3 => {
            let c = CancellableStream::new(client).unwrap();
            set(&&c, r, w);
            timed(c, &|_| (), reads)
        }
        4 => timed(ObservedStreamList::track(&ObservedStreamList::new(), CancellableStream::new(client).unwrap()), &|s| set(s, r, w), reads),
        _ => {
            let o = ObservedStreamList::track(&ObservedStreamList::new(), CancellableStream::new(client).unwrap());
            set(&o.clone(), r, w);
            timed(o, &|_| (), reads)
        }
    };
    drop(server);
    let ok = match res {
        Err(e) => matches!(e.kind(), ErrorKind::TimedOut | ErrorKind::WouldBlock),
        Ok(_) => false,
    };
    // The limit must not be ignored; the upper limit leaves room for a busy machine.
    if !ok || took + Duration::from_millis(1) < short || took > Duration::from_secs(3) {
        return g.done(true, Some(format!("it ended after {:?} ({})", took, if ok { "timed out" } else { "not timed out" })));
    }
    g.done(true, None)
}

/// The limits of a whole conversation.
fn conversations(g: &mut Gen) -> Done {
    let (short, long) = (Duration::from_millis(g.range(20, 80) as u64), Duration::from_secs(5));
    let stalled_read = g.index % 2 == 0;
    let expires = g.index % 4 < 2;
    let (r, w) = if stalled_read == expires { (short, long) } else { (long, short) };
    g.note(format!("a peer that does not {}, the limit of requests is {:?} and of responses {:?}", if stalled_read { "send the whole request" } else { "take the response" }, r, w));
    let routes = Router::new();
    let big: HttpHandler = Box::new(|_| Response {
        status: StatusCode::OK,
        headers: Headers::new(),
        body: Some(Body::new(None, 1 << 27, Box::new(io::repeat(b'x').take(1 << 27)))),
    });
    routes.add("/", HttpMethod::GET, big);
    let timeouts = Timeouts { read_request_timeout: r, write_response_timeout: w };
    let whole = "GET / HTTP/1.1\r\n\r\n".as_bytes();
    let cut = if stalled_read { g.range(0, whole.len() - 1) } else { whole.len() };
    let limit = if expires { Duration::from_millis(3500) } else { Duration::from_millis(300) };
    #[cfg(wruster_verif)]
    let (client, over, took, h) = {
        let (server, mut client) = net::pair();
        let addr = client.local_addr().unwrap();
        let list = ObservedStreamList::new();
        let stream = ObservedStreamList::track(&list, CancellableStream::new(server).unwrap());
        let (tell, ended) = std::sync::mpsc::channel::<()>();
        client.write_all(&whole[..cut]).unwrap();
        let t = Instant::now();
        let h = std::thread::spawn(move || {
            verif::handle_conversation(stream, Arc::new(routes), timeouts, addr);
            drop(tell);
        });
        let over = !matches!(ended.recv_timeout(limit), Err(std::sync::mpsc::RecvTimeoutError::Timeout));
        (client, over, t.elapsed(), h)
    };
    // Without the hook the end of the connection tells: the server closes it.
    #[cfg(not(wruster_verif))]
    let (client, over, took, h) = {
        let t = Instant::now();
        let c = super::plain::serve(routes, timeouts);
        let mut client = c.client;
        client.write_all(&whole[..cut]).unwrap();
        let mut over = false;
        let mut buf = vec![0u8; 1 << 16];
        if stalled_read {
            client.set_read_timeout(Some(limit)).unwrap();
            over = !matches!(client.read(&mut buf), Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut));
        } else {
            // What is left in the buffers comes at once, the rest only if the server still writes.
            std::thread::sleep(limit.min(Duration::from_millis(1500)));
            let mut n = 0usize;
            client.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
            while n < 1 << 27 {
                match client.read(&mut buf) {
                    Ok(0) | Err(_) => {
                        over = true;
                        break;
                    }
                    Ok(k) => n += k,
                }
            }
        }
        let took = t.elapsed();
        let h = std::thread::spawn(c.finish);
        (client, over, took, h)
    };
    let _ = client.shutdown(std::net::Shutdown::Both);
    drop(client);
    let _ = h.join();
    if over != expires || (over && took + Duration::from_millis(1) < short) {
        return g.done(true, Some(format!("after {:?} the conversation {}", took, if over { "ended" } else { "had not ended" })));
    }
    g.done(true, None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C11",
            name: "conversations",
            rule: "a conversation with a peer that stalls, in the request or taking the response, over loopback: it must end when the limit given for that, and not the other one, passes (20 to 80 ms against 5 s)",
            weight: 1,
            max: 16,
            limit_ms: 30000,
            run: conversations,
        },
        #[cfg(wruster_verif)]
        Oracle {
            prop: "C11",
            name: "budgets",
            rule: "random sequences of reads, writes and flushes through a TimeoutStream over a stream that takes its time, fails, blocks or can not be limited; every limit set is compared with what is left of the budget (between the time surely spent and the time that passed), spent budgets must fail without touching the stream, data and errors must pass unaltered; non trivial: at least two limited operations",
            weight: 4,
            max: 0,
            limit_ms: 20000,
            run: budgets,
        },
        #[cfg(wruster_verif)]
        Oracle {
            prop: "C11",
            name: "limits",
            rule: "TcpStream, CancellableStream and ObservedStream limited through the trait Timeout, over loopback: the read or write that can not progress must end with a timeout, not before the limit set",
            weight: 1,
            max: 12,
            limit_ms: 30000,
            run: limits,
        },
    ]
}

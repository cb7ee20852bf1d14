//! C12: cancellable streams.
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::net::Shutdown;
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wruster::verif::{BaseStream, CancellableStream};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
    /// At most so many bytes.
    Pass(usize),
    Fail(ErrorKind),
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Out {
    Done(usize),
    Fail(ErrorKind),
}

#[derive(Default)]
struct Ctl {
    blocking: bool,
    reads: VecDeque<Act>,
    writes: VecDeque<Act>,
    outs: Vec<Out>,
    /// Whether a failure was made up.
    made_up: bool,
    taken: Vec<u8>,
    shut: Vec<Shutdown>,
    flushes: usize,
    flush_fails: Option<ErrorKind>,
    set_nonblocking_fails: bool,
    /// Data received but not given yet, as a TLS session has.
    inner: VecDeque<u8>,
    buffered: bool,
    bad: Option<String>,
}

/// One end of a pair of sockets, that reads and writes as it is told.
struct Mock {
    s: UnixStream,
    c: Arc<Mutex<Ctl>>,
}

impl Mock {
    fn step(&self, reading: bool) -> Act {
        let mut c = self.c.lock().unwrap();
        if c.blocking {
            c.bad = Some(format!("{} a stream that blocks", if reading { "read from" } else { "write to" }));
        }
        let q = if reading { &mut c.reads } else { &mut c.writes };
        let a = q.pop_front().unwrap_or(Act::Pass(usize::MAX));
        if let Act::Fail(_) = a {
            c.made_up = true;
        }
        a
    }
    fn out(&self, r: io::Result<usize>) -> io::Result<usize> {
        let o = match &r {
            Ok(n) => Out::Done(*n),
            Err(e) => Out::Fail(e.kind()),
        };
        self.c.lock().unwrap().outs.push(o);
        r
    }
}

impl BaseStream for Mock {
    fn set_nonblocking(&self, nonblocking: bool) -> io::Result<()> {
        let mut c = self.c.lock().unwrap();
        if c.set_nonblocking_fails {
            return Err(io::Error::from(ErrorKind::InvalidInput));
        }
        c.blocking = !nonblocking;
        drop(c);
        Ok(())
    }
    fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        self.c.lock().unwrap().shut.push(how);
        self.s.shutdown(how)
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn as_raw(&self) -> i32 {
        self.s.as_raw_fd()
    }
    fn write_buf(&self, buf: &[u8]) -> io::Result<usize> {
        match self.step(false) {
            Act::Fail(k) => self.out(Err(io::Error::from(k))),
            Act::Pass(n) => {
                let r = (&self.s).write(&buf[..n.min(buf.len())]);
                if let Ok(n) = r {
                    self.c.lock().unwrap().taken.extend_from_slice(&buf[..n]);
                }
                self.out(r)
            }
        }
    }
    fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step(true) {
            Act::Fail(k) => self.out(Err(io::Error::from(k))),
            Act::Pass(n) => {
                let n = n.min(buf.len());
                let buffered = self.c.lock().unwrap().buffered;
                if !buffered {
                    let r = (&self.s).read(&mut buf[..n]);
                    return self.out(r);
                }
                let mut all = [0u8; 4096];
                let mut end = Err(io::Error::from(ErrorKind::WouldBlock));
                loop {
                    match (&self.s).read(&mut all) {
                        Ok(0) => {
                            end = Ok(0);
                            break;
                        }
                        Ok(m) => self.c.lock().unwrap().inner.extend(&all[..m]),
                        Err(e) => {
                            if e.kind() != ErrorKind::WouldBlock {
                                end = Err(e);
                            }
                            break;
                        }
                    }
                }
                let mut c = self.c.lock().unwrap();
                let m = n.min(c.inner.len());
                if m == 0 {
                    drop(c);
                    return self.out(end);
                }
                for b in &mut buf[..m] {
                    *b = c.inner.pop_front().unwrap();
                }
                drop(c);
                self.out(Ok(m))
            }
        }
    }
    fn flush_data(&self) -> io::Result<()> {
        let mut c = self.c.lock().unwrap();
        c.flushes += 1;
        match c.flush_fails {
            None => Ok(()),
            Some(k) => Err(io::Error::from(k)),
        }
    }
}

const FAILS: [ErrorKind; 7] = [
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::Interrupted,
    ErrorKind::PermissionDenied,
];

fn acts(g: &mut Gen, buffered: bool) -> VecDeque<Act> {
    let mut v = VecDeque::new();
    if g.chance(45) {
        return v;
    }
    for _ in 0..g.range(1, 4) {
        v.push_back(match g.below(8) {
            0 => Act::Fail(*g.pick(&FAILS)),
            1 | 2 if !buffered => Act::Fail(ErrorKind::WouldBlock),
            3 => Act::Pass(usize::MAX),
            _ => Act::Pass(g.range(1, 9)),
        });
    }
    v
}

fn desc(v: &VecDeque<Act>) -> String {
    let w: Vec<String> = v
        .iter()
        .map(|a| match a {
            Act::Pass(usize::MAX) => "passes".to_string(),
            Act::Pass(n) => format!("passes {}", n),
            Act::Fail(k) => format!("fails {:?}", k),
        })
        .collect();
    w.join(", ")
}

/// What an operation gave and how long it took.
struct Res {
    r: io::Result<usize>,
    took: Duration,
    outs: Vec<Out>,
    made_up: bool,
}

// How a read must end, by what the stream did.
fn judge_read(x: &Res, stopped: bool, limit: Duration, left: usize) -> Option<String> {
    let kind = x.r.as_ref().err().map(|e| e.kind());
    let last = x.outs.last().copied();
    // The first read, before waiting, can block.
    let first_blocked = x.outs.len() == 1 && last == Some(Out::Fail(ErrorKind::WouldBlock)) && !stopped;
    let waited = |k: Option<ErrorKind>| -> Option<String> {
        if stopped {
            return if k == Some(ErrorKind::NotConnected) { None } else { Some("it is shut down".into()) };
        }
        if k != Some(ErrorKind::TimedOut) {
            return Some("nothing could be read".into());
        }
        if left > 0 {
            return Some(format!("{} bytes are there to be read", left));
        }
        if x.took + Duration::from_micros(1500) < limit {
            return Some(format!("it waited {:?} of {:?}", x.took, limit));
        }
        if x.took > Duration::from_secs(4) {
            return Some(format!("it waited {:?} of {:?}", x.took, limit));
        }
        None
    };
    match last {
        None => waited(kind),
        Some(Out::Fail(ErrorKind::WouldBlock)) if kind == Some(ErrorKind::Interrupted) && !stopped && !x.made_up && left == 0 => {
            Some("there is nothing to read, it must wait".into())
        }
        _ if first_blocked && kind != Some(ErrorKind::Interrupted) => waited(kind),
        Some(Out::Done(0)) => {
            if kind == Some(ErrorKind::ConnectionReset) || (stopped && kind == Some(ErrorKind::NotConnected)) {
                None
            } else if x.outs.len() == 1 && kind == Some(ErrorKind::TimedOut) {
                Some("the stream ended, no need to wait".into())
            } else {
                Some("the stream ended".into())
            }
        }
        Some(Out::Done(n)) => match x.r {
            Ok(m) if m == n => None,
            _ => Some(format!("{} bytes were read from the stream", n)),
        },
        Some(Out::Fail(ErrorKind::WouldBlock)) => {
            if kind == Some(ErrorKind::Interrupted) && (!first_blocked || left > 0) {
                None
            } else {
                Some("the stream would block after an event: to be retried".into())
            }
        }
        Some(Out::Fail(k)) => {
            if kind == Some(k) {
                None
            } else {
                Some(format!("the stream failed with {:?}", k))
            }
        }
    }
}

fn judge_write(x: &Res, stopped: bool, limit: Duration, len: usize, full: bool) -> Option<String> {
    let kind = x.r.as_ref().err().map(|e| e.kind());
    let total: usize = x.outs.iter().map(|o| if let Out::Done(n) = o { *n } else { 0 }).sum();
    if let Ok(n) = x.r {
        return if n == len && total == len { None } else { Some(format!("the stream took {} of {} bytes", total, len)) };
    }
    if total == len {
        return Some("the stream took all".into());
    }
    match x.outs.last() {
        Some(Out::Fail(ErrorKind::WouldBlock)) | Some(Out::Done(_)) | None => {
            if stopped {
                return if kind == Some(ErrorKind::NotConnected) { None } else { Some("it is shut down".into()) };
            }
            if kind != Some(ErrorKind::TimedOut) || !full {
                return Some("nothing failed".into());
            }
            if x.took + Duration::from_micros(1500) < limit || x.took > Duration::from_secs(4) {
                return Some(format!("it waited {:?} of {:?}", x.took, limit));
            }
            None
        }
        Some(Out::Fail(k)) => {
            if kind == Some(*k) {
                None
            } else {
                Some(format!("the stream failed with {:?}", k))
            }
        }
    }
}

fn history(g: &mut Gen) -> Done {
    let (a, mut peer) = UnixStream::pair().unwrap();
    peer.set_nonblocking(true).unwrap();
    a.set_nonblocking(true).unwrap();
    let c = Arc::new(Mutex::new(Ctl { blocking: true, buffered: g.chance(40), ..Ctl::default() }));
    let buffered = c.lock().unwrap().buffered;
    let mut d = format!("stream {}: ", if buffered { "that buffers" } else { "without buffer" });
    g.note(d.clone());
    let mut cs = CancellableStream::new(Mock { s: a, c: Arc::clone(&c) }).unwrap();
    let mut sent: VecDeque<u8> = VecDeque::new(); // by the peer, and not read yet
    let mut received: VecDeque<u8> = VecDeque::new(); // what the peer must get
    let mut peer_closed = false;
    let mut stopped = false;
    let mut full = false;
    let mut moved = 0;
    for _ in 0..g.range(3, 14) {
        match g.below(12) {
            0..=2 if !peer_closed => {
                let n = g.range(1, 40);
                let data = g.bytes(n);
                d.push_str(&format!("peer sends {}; ", n));
                if !stopped && peer.write_all(&data).is_ok() {
                    sent.extend(data);
                }
            }
            3 if !peer_closed && g.chance(30) => {
                d.push_str("peer ends; ");
                let _ = peer.shutdown(Shutdown::Write);
                peer_closed = true;
            }
            4 => {
                let mut all = vec![0u8; 1 << 20];
                let mut got = Vec::new();
                while let Ok(n) = peer.read(&mut all) {
                    if n == 0 {
                        break;
                    }
                    got.extend_from_slice(&all[..n]);
                }
                d.push_str(&format!("peer reads {}; ", got.len()));
                g.note(d.clone());
                full = false;
                let want: Vec<u8> = received.drain(..).collect();
                if got != want {
                    return g.done(true, Some(format!("the peer got {} bytes, other than the {} that were written", got.len(), want.len())));
                }
            }
            5 if g.chance(25) => {
                let how = *g.pick(&[Shutdown::Both, Shutdown::Read, Shutdown::Write]);
                d.push_str(&format!("shutdown {:?}; ", how));
                g.note(d.clone());
                let r = cs.shutdown(how);
                let seen = c.lock().unwrap().shut.pop();
                if r.is_err() || seen != Some(how) {
                    return g.done(true, Some(format!("it gave {:?} and the stream was shut down {:?}", r, seen)));
                }
                stopped = true;
            }
            6 if g.chance(50) => {
                let k = if g.chance(50) { Some(*g.pick(&FAILS)) } else { None };
                d.push_str(&format!("flush that gives {:?}; ", k));
                g.note(d.clone());
                c.lock().unwrap().flush_fails = k;
                let by_ref = g.chance(50);
                let r = if by_ref { (&mut &cs).flush() } else { cs.flush() };
                let mut q = c.lock().unwrap();
                if q.flushes != 1 || r.err().map(|e| e.kind()) != k {
                    return g.done(true, Some(format!("the flush was done {} times or its result is altered", q.flushes)));
                }
                q.flushes = 0;
            }
            7..=8 => {
                // A write.
                let len = if g.chance(7) { 600_000 } else { g.below(60) };
                let limit = Duration::from_millis(g.range(1, 6) as u64);
                let script = acts(g, false);
                let nbf = g.chance(10);
                d.push_str(&format!("write {} (limit {:?}, stream {}); ", len, limit, desc(&script)));
                g.note(d.clone());
                {
                    let mut q = c.lock().unwrap();
                    q.writes = script;
                    q.outs.clear();
                    q.made_up = false;
                    q.taken.clear();
                    q.set_nonblocking_fails = nbf;
                }
                cs.set_write_timeout(Some(limit)).unwrap();
                cs.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
                let data = g.bytes(len);
                let by_ref = g.chance(50);
                let t = Instant::now();
                let r = if by_ref { (&mut &cs).write(&data) } else { cs.write(&data) };
                let took = t.elapsed();
                let mut q = c.lock().unwrap();
                q.set_nonblocking_fails = false;
                q.writes.clear();
                let x = Res { r, took, outs: q.outs.clone(), made_up: q.made_up };
                if !data.starts_with(&q.taken) {
                    return g.done(true, Some("the stream did not take the bytes of the buffer in order".into()));
                }
                received.extend(&q.taken);
                if len > 100_000 || received.len() > 100_000 {
                    full = true;
                }
                moved += q.taken.len();
                if let Some(b) = q.bad.take() {
                    return g.done(true, Some(b));
                }
                drop(q);
                if let Some(b) = judge_write(&x, stopped, limit, len, full) {
                    let tail: Vec<Out> = x.outs.iter().rev().take(5).rev().copied().collect();
                    return g.done(true, Some(format!("write gave {:?}: {} (the stream: {:?})", x.r, b, tail)));
                }
            }
            _ => {
                // A read.
                let len = *g.pick(&[1usize, 2, 5, 16, 100]);
                let limit = Duration::from_millis(g.range(1, 6) as u64);
                let script = acts(g, buffered);
                d.push_str(&format!("read {} (limit {:?}, stream {}); ", len, limit, desc(&script)));
                g.note(d.clone());
                {
                    let mut q = c.lock().unwrap();
                    q.reads = script;
                    q.outs.clear();
                    q.made_up = false;
                }
                cs.set_read_timeout(Some(limit)).unwrap();
                cs.set_write_timeout(Some(Duration::from_secs(5))).unwrap();
                let mut buf = vec![0u8; len];
                let by_ref = g.chance(50);
                let t = Instant::now();
                let r = if by_ref { (&mut &cs).read(&mut buf) } else { cs.read(&mut buf) };
                let took = t.elapsed();
                let mut q = c.lock().unwrap();
                q.reads.clear();
                let x = Res { r, took, outs: q.outs.clone(), made_up: q.made_up };
                if let Some(b) = q.bad.take() {
                    return g.done(true, Some(b));
                }
                drop(q);
                let left = if buffered && peer_closed && !stopped { 0 } else { sent.len() };
                if let Some(b) = judge_read(&x, stopped, limit, left) {
                    return g.done(true, Some(format!("read gave {:?}: {} (the stream: {:?})", x.r, b, x.outs)));
                }
                let total: usize = x.outs.iter().map(|o| if let Out::Done(n) = o { *n } else { 0 }).sum();
                if let Ok(n) = x.r {
                    if n == 0 || n > len || n != total {
                        return g.done(true, Some(format!("read gave {} with a buffer of {}, and {} were taken from the stream", n, len, total)));
                    }
                    let want: Vec<u8> = sent.drain(..n.min(sent.len())).collect();
                    if want[..] != buf[..n] {
                        return g.done(true, Some("the bytes read are not the next ones that were sent".into()));
                    }
                    moved += n;
                } else if total != 0 {
                    return g.done(true, Some(format!("read gave {:?} and {} bytes were taken from the stream", x.r, total)));
                }
            }
        }
    }
    g.done(moved > 0, None)
}

/// A read or a write that waits ends when the stream is shut down.
fn woken(g: &mut Gen) -> Done {
    let (a, peer) = UnixStream::pair().unwrap();
    a.set_nonblocking(true).unwrap();
    let c = Arc::new(Mutex::new(Ctl { blocking: true, ..Ctl::default() }));
    let cs = Arc::new(CancellableStream::new(Mock { s: a, c }).unwrap());
    let reads = g.chance(50);
    let after = g.range(1, 15) as u64;
    let limit = if g.chance(50) { None } else { Some(Duration::from_secs(8)) };
    g.note(format!("{} with limit {:?}, shut down after {} ms", if reads { "read" } else { "write" }, limit, after));
    cs.set_read_timeout(limit).unwrap();
    cs.set_write_timeout(limit).unwrap();
    let other = Arc::clone(&cs);
    let h = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(after));
        other.shutdown(Shutdown::Both).unwrap();
    });
    let t = Instant::now();
    let r = if reads {
        let mut buf = [0u8; 8];
        (&mut &*cs).read(&mut buf)
    } else {
        (&mut &*cs).write(&vec![0u8; 4 << 20])
    };
    let took = t.elapsed();
    h.join().unwrap();
    drop(peer);
    let kind = r.as_ref().err().map(|e| e.kind());
    let ok = if reads { kind == Some(ErrorKind::NotConnected) } else { matches!(kind, Some(ErrorKind::NotConnected) | Some(ErrorKind::BrokenPipe)) };
    if !ok || took > Duration::from_secs(6) {
        return g.done(true, Some(format!("it gave {:?} after {:?}", r, took)));
    }
    g.done(true, None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C12",
            name: "cancellable",
            rule: "random histories of reads, writes, flushes and shutdowns of a CancellableStream over one end of a pair of sockets, whose reads and writes are cut, would block or fail as scripted and that can hold received data as a TLS session does, while the peer sends, receives and ends: the bytes of both ends are compared in order, every result with what the stream did and the time it took, and no operation may be tried on a blocking stream; non trivial: some byte moved",
            weight: 4,
            max: 0,
            limit_ms: 15000,
            run: history,
        },
        Oracle {
            prop: "C12",
            name: "shutdown_wakes",
            rule: "a read or a write that can not progress while another thread shuts the stream down: it must end at once, as not connected",
            weight: 1,
            max: 30,
            limit_ms: 15000,
            run: woken,
        },
    ]
}

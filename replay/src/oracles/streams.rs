//! C13: the list of the tracked streams, and what is done with them.
use crate::gen::Gen;
use crate::oracles::net::pair;
use crate::{Done, Oracle};
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::net::{Shutdown, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;
use wruster::verif::{tls, BaseStream, CancellableStream, ObservedStream, ObservedStreamList, Stream, Timeout};
use wruster::{Certificate, PrivateKey};

#[derive(Debug, Clone, PartialEq)]
enum Op {
    Read,
    Write(Vec<u8>),
    Flush,
    Shut,
}

/// One end of a pair of sockets that takes note of what is done with it.
struct Mock {
    n: usize,
    s: UnixStream,
    peer: UnixStream,
    log: Arc<Mutex<Vec<(usize, Op)>>>,
}
impl Mock {
    fn did(&self, o: Op) {
        self.log.lock().unwrap().push((self.n, o));
    }
}
impl BaseStream for Mock {
    fn set_nonblocking(&self, on: bool) -> io::Result<()> {
        self.s.set_nonblocking(on)
    }
    fn shutdown(&self, _: Shutdown) -> io::Result<()> {
        self.did(Op::Shut);
        Ok(())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn as_raw(&self) -> i32 {
        self.s.as_raw_fd()
    }
    fn write_buf(&self, buf: &[u8]) -> io::Result<usize> {
        self.did(Op::Write(buf.to_vec()));
        Ok(buf.len())
    }
    fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.did(Op::Read);
        buf[0] = self.n as u8;
        Ok(1)
    }
    fn flush_data(&self) -> io::Result<()> {
        self.did(Op::Flush);
        Ok(())
    }
}
impl Stream for Mock {}

type List = Arc<ObservedStreamList<Mock>>;
type Log = Arc<Mutex<Vec<(usize, Op)>>>;

fn made(n: usize, log: &Log) -> CancellableStream<Mock> {
    let (s, peer) = UnixStream::pair().unwrap();
    let _ = &peer.as_raw_fd();
    CancellableStream::new(Mock { n, s, peer, log: log.clone() }).unwrap()
}
fn track(list: &List, n: usize, log: &Log) -> ObservedStream<Mock> {
    ObservedStreamList::track(list, made(n, log))
}
/// The streams that a list gives, told apart by what is shut down.
fn drained(list: &List, log: &Log) -> (Vec<usize>, usize) {
    let l = list.drain();
    let before = log.lock().unwrap().len();
    let mut dead = 0;
    for w in &l {
        match w.upgrade() {
            Some(s) => s.shutdown(Shutdown::Both).unwrap(),
            None => dead += 1,
        }
    }
    let got = log.lock().unwrap()[before..].iter().map(|x| x.0).collect();
    (got, dead)
}

fn history(g: &mut Gen) -> Done {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let list: List = ObservedStreamList::new();
    let mut gone = false;
    let mut list = Some(list);
    // The handles, with the streams they are clones of.
    let mut handles: Vec<(usize, ObservedStream<Mock>)> = vec![];
    let mut inside: BTreeSet<usize> = BTreeSet::new();
    let mut shut: BTreeSet<usize> = BTreeSet::new();
    let mut next = 0;
    let mut says = String::new();
    let mut some = false;
    for _ in 0..g.range(3, 25) {
        match g.range(0, 9) {
            0..=2 if next < 200 => {
                if let Some(list) = &list {
                    handles.push((next, track(list, next, &log)));
                    says += &format!(" track({})", next);
                    inside.insert(next);
                    next += 1;
                }
            }
            3 if !handles.is_empty() => {
                let i = g.below(handles.len());
                let (n, h) = (handles[i].0, handles[i].1.clone());
                says += &format!(" clone({})", n);
                handles.push((n, h));
            }
            4 | 5 if !handles.is_empty() => {
                let i = g.below(handles.len());
                let (n, h) = handles.swap_remove(i);
                says += &format!(" drop({})", n);
                drop(h);
                if !handles.iter().any(|x| x.0 == n) {
                    inside.remove(&n);
                }
            }
            6 if g.chance(40) => {
                if let Some(list) = &list {
                    says += " drain";
                    let (mut got, dead) = drained(list, &log);
                    got.sort();
                    let want: Vec<usize> = inside.iter().cloned().collect();
                    if got != want || dead > 0 {
                        return g.done(true, Some(format!("{}: it gives the streams {:?} and {} that do not exist, {:?} were expected", says, got, dead, want)));
                    }
                    some |= !want.is_empty();
                    shut.extend(inside.iter().cloned());
                    inside.clear();
                }
            }
            7 if !handles.is_empty() => {
                let i = g.below(handles.len());
                let n = handles[i].0;
                // Those that were shut down do nothing.
                if shut.contains(&n) {
                    continue;
                }
                let h = &mut handles[i].1;
                log.lock().unwrap().clear();
                let k = g.range(0, 2);
                let b = g.bytes(5);
                let (want, r) = match k {
                    0 => (Op::Write(b.clone()), h.write(&b).map(|x| x as i64)),
                    1 => (Op::Flush, h.flush().map(|_| 5)),
                    _ => {
                        let mut buf = [0u8; 3];
                        (Op::Read, h.read(&mut buf).map(|x| if x == 1 && buf[0] == n as u8 { 5 } else { -1 }))
                    }
                };
                let l = log.lock().unwrap().clone();
                if l != [(n, want.clone())] || r.as_ref().ok() != Some(&5) {
                    return g.done(true, Some(format!("{} {:?} with the stream {}: it did {:?} and gave {:?}", says, want, n, l, r)));
                }
            }
            8 if g.chance(5) && !gone => {
                says += " end";
                list = None;
                inside.clear();
                gone = true;
            }
            _ => {}
        }
        if let Some(list) = &list {
            if list.len() != inside.len() {
                return g.done(true, Some(format!("{}: the list has {} streams, {} were expected", says, list.len(), inside.len())));
            }
        }
    }
    if let Some(list) = &list {
        let (mut got, dead) = drained(list, &log);
        got.sort();
        let want: Vec<usize> = inside.iter().cloned().collect();
        if got != want || dead > 0 || list.len() != 0 {
            return g.done(true, Some(format!("{} drain: it gives the streams {:?} and {} that do not exist, {:?} were expected", says, got, dead, want)));
        }
        some |= !want.is_empty();
    }
    g.note(says);
    g.done(some, None)
}

fn threads(g: &mut Gen) -> Done {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let list: List = ObservedStreamList::new();
    let n = g.range(2, 5);
    let per = g.range(2, 12);
    let drains = g.range(0, 3);
    let seeds: Vec<u64> = (0..n).map(|_| g.next()).collect();
    let go = Arc::new(AtomicBool::new(false));
    let mut ts = vec![];
    for t in 0..n {
        let (list, log, go, mut s) = (list.clone(), log.clone(), go.clone(), seeds[t]);
        ts.push(thread::spawn(move || {
            while !go.load(Ordering::SeqCst) {
                thread::yield_now();
            }
            let mut kept = vec![];
            for i in 0..per {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let id = t * 1000 + i;
                let h = track(&list, id, &log);
                match (s >> 33) % 4 {
                    0 => drop(h),
                    1 => {
                        let c = h.clone();
                        let j = thread::spawn(move || drop(c));
                        drop(h);
                        j.join().unwrap();
                    }
                    _ => kept.push((id, h)),
                }
                if (s >> 40) % 4 == 0 && !kept.is_empty() {
                    let k = (s >> 45) as usize % kept.len();
                    kept.swap_remove(k);
                }
            }
            kept
        }));
    }
    let (l2, g2) = (list.clone(), go.clone());
    let drainer = thread::spawn(move || {
        while !g2.load(Ordering::SeqCst) {
            thread::yield_now();
        }
        let mut all = vec![];
        for _ in 0..drains {
            all.push(l2.drain());
            thread::yield_now();
        }
        all
    });
    go.store(true, Ordering::SeqCst);
    let kept: Vec<(usize, ObservedStream<Mock>)> = ts.into_iter().flat_map(|t| t.join().unwrap()).collect();
    let taken = drainer.join().unwrap();
    let left = list.len();
    let says = format!("{} threads that track {} streams each, {} drains", n, per, drains);
    let mut got: Vec<usize> = vec![];
    let before = log.lock().unwrap().len();
    for w in taken.iter().flatten() {
        if let Some(s) = w.upgrade() {
            s.shutdown(Shutdown::Both).unwrap();
        }
    }
    let in_drains = log.lock().unwrap().len() - before;
    let (_, dead) = drained(&list, &log);
    got.extend(log.lock().unwrap()[before..].iter().map(|x| x.0));
    got.sort();
    let mut want: Vec<usize> = kept.iter().map(|x| x.0).collect();
    want.sort();
    if got != want || dead > 0 || left != want.len() - in_drains.min(want.len()) {
        return g.done(true, Some(format!("{}: the drains give {:?}, the list had {} with {} that do not exist, and {:?} are live", says, got, left, dead, want)));
    }
    g.note(format!("{} {:?}", says, got));
    g.done(!want.is_empty(), None)
}

/// The operations of a socket, alone or in a TLS session.
fn through(g: &mut Gen) -> Done {
    let secure = g.chance(40);
    let (sock, mut far) = pair();
    let probe = sock.try_clone().unwrap();
    let mut n = g.range(1, 3000);
    if secure {
        n = n.min(1000);
    }
    let data = g.bytes(n);
    let ms = g.range(1, 3) as u64 * 1000;
    let (a, b) = (Some(Duration::from_millis(ms)), if g.chance(20) { None } else { Some(Duration::from_millis(ms + 7000)) });
    let how = *g.pick(&[Shutdown::Both, Shutdown::Write, Shutdown::Read]);
    let says = format!("{}, {} bytes, {:?} {:?} {:?}", if secure { "a TLS session" } else { "a socket" }, n, a, b, how);
    g.note(says.clone());
    let raw = sock.as_raw_fd();
    let cert = Certificate::read_from("/repo/wruster/tests/certs/cert.pem").unwrap();
    let want_cert: Vec<u8> = Vec::from(&cert);
    let run = |s: &dyn BaseStream, timeouts: Option<&dyn Timeout>, far: &mut dyn FnMut(&mut Vec<u8>, &[u8])| -> Option<String> {
        if !secure && s.as_raw() != raw {
            return Some("it is another descriptor".into());
        }
        match timeouts {
            Some(t) => {
                t.set_read_timeout(a).ok()?;
                t.set_write_timeout(b).ok()?;
            }
            None => {
                s.set_read_timeout(a).ok()?;
                s.set_write_timeout(b).ok()?;
            }
        }
        if probe.read_timeout().unwrap() != a || probe.write_timeout().unwrap() != b {
            return Some(format!("the timeouts are {:?} and {:?}, not {:?} and {:?}", probe.read_timeout(), probe.write_timeout(), a, b));
        }
        // What the other end writes is read, and the other way round.
        let mut sent = vec![];
        let reply: Vec<u8> = data.iter().rev().cloned().collect();
        let r = s.write_buf(&data);
        if r.as_ref().ok() != Some(&data.len()) {
            return Some(format!("writing {} bytes gives {:?}", data.len(), r));
        }
        if let Err(e) = s.flush_data() {
            return Some(format!("flush: {:?}", e));
        }
        sent.resize(data.len(), 0);
        far(&mut sent, &reply);
        if sent != data {
            return Some("the other end received something else".into());
        }
        let mut got = vec![];
        while got.len() < reply.len() {
            let mut buf = [0u8; 700];
            match s.read_buf(&mut buf) {
                Ok(0) => break,
                Ok(n) => got.extend_from_slice(&buf[..n]),
                Err(e) => return Some(format!("read: {:?}", e)),
            }
        }
        if got != reply {
            return Some("something else is read".into());
        }
        s.set_nonblocking(true).ok()?;
        let mut buf = [0u8; 7];
        match (&probe).read(&mut buf) {
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => (),
            r => return Some(format!("it blocks, or there is more to read: {:?}", r)),
        }
        s.set_nonblocking(false).ok()?;
        s.set_read_timeout(Some(Duration::from_millis(1))).ok()?;
        if let Err(e) = s.shutdown(how) {
            return Some(format!("shutdown: {:?}", e));
        }
        let reads = !matches!((&probe).read(&mut buf), Ok(0));
        let writes = (&probe).write(b"x").is_ok();
        if (reads, writes) != (how == Shutdown::Write, how == Shutdown::Read) {
            return Some(format!("after {:?} it can be read: {}, written: {}", how, reads, writes));
        }
        None
    };
    let bad = if secure {
        let key = PrivateKey::read_from("/repo/wruster/tests/certs/key.pem").unwrap();
        let s = tls::Stream::new(sock, key, cert).unwrap();
        let mut roots = rustls::RootCertStore::empty();
        roots.add(&rustls::Certificate(want_cert.clone())).unwrap();
        let config = rustls::ClientConfig::builder().with_safe_defaults().with_root_certificates(roots).with_no_client_auth();
        let (tx, rx) = std::sync::mpsc::channel::<Vec<u8>>();
        let (ty, ry) = std::sync::mpsc::channel::<(Vec<u8>, Vec<u8>)>();
        let len = data.len();
        let far = far;
        let t = thread::spawn(move || {
            let c = rustls::ClientConnection::new(Arc::new(config), "localhost".try_into().unwrap()).unwrap();
            let mut c = rustls::StreamOwned::new(c, far);
            let mut sent = vec![0; len];
            let _ = c.read_exact(&mut sent);
            let shown = c.conn.peer_certificates().and_then(|x| x.first()).map(|x| x.0.clone()).unwrap_or_default();
            let _ = ty.send((sent, shown));
            if let Ok(reply) = rx.recv() {
                let _ = c.write_all(&reply);
                let _ = c.flush();
            }
            // The socket stays open.
            let _ = rx.recv();
        });
        let mut shown = vec![];
        let mut bad = run(&s, None, &mut |sent, reply| {
            if let Ok((d, c)) = ry.recv() {
                *sent = d;
                shown = c;
            }
            let _ = tx.send(reply.to_vec());
        });
        drop(tx);
        drop(s);
        drop(probe);
        let _ = t.join();
        if bad.is_none() && shown != want_cert {
            bad = Some("another certificate is presented".into());
        }
        bad
    } else {
        let c: TcpStream = sock;
        let mut f = |sent: &mut Vec<u8>, reply: &[u8]| {
            far.read_exact(sent).unwrap();
            far.write_all(reply).unwrap();
        };
        match g.range(0, 2) {
            0 => run(&c, None, &mut f),
            1 => run(&c, Some(&c), &mut f),
            _ => run(&c, Some(&&c), &mut f),
        }
    };
    g.done(true, bad.map(|b| format!("{}: {}", says, b)))
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C13",
            name: "history",
            rule: "histories of up to 25 operations (track, clone, drop, drain, read, write, flush, the end of the list) over recorded streams, against a model: the length of the list after each one, what each drain gives, and which stream each operation reaches",
            weight: 3,
            max: 0,
            limit_ms: 10000,
            run: history,
        },
        Oracle {
            prop: "C13",
            name: "threads",
            rule: "up to 5 threads that track, clone and drop streams while another one drains; in the end the streams that the drains gave and those in the list are the live ones, each once",
            weight: 2,
            max: 0,
            limit_ms: 20000,
            run: threads,
        },
        Oracle {
            prop: "C13",
            name: "through",
            rule: "the operations of a plain or TLS stream over a loopback connection: data of both directions, timeouts, blocking mode and shutdown are seen in the socket that was given, and the certificate that was given is presented",
            weight: 2,
            max: 0,
            limit_ms: 20000,
            run: through,
        },
        Oracle {
            prop: "C13",
            name: "deadlines",
            rule: "the timeouts of reads and writes set through a plain, cancellable or tracked stream over loopback: the read or write that can not progress must end with a timeout, not before the limit set for it",
            weight: 1,
            max: 12,
            limit_ms: 20000,
            run: super::timed::limits,
        },
    ]
}

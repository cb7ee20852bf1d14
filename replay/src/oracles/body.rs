//! C05: the body of a message.
use super::io_util::*;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::io::{ErrorKind, Read};
use wruster::http::errors::HttpError;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, Request};

const GOOD: [&str; 5] = ["text/plain", "text/html; charset=utf-8", "application/json", "image/png", "multipart/form-data; boundary=aBc"];
const BADT: [&str; 4] = ["", "text", "/", "a b/c"];

fn length_text(g: &mut Gen, real: usize) -> (String, Option<u64>) {
    let n = match g.below(5) {
        0 => real,
        1 => g.below(real + 1),
        2 => real + g.range(1, 9),
        3 => g.below(20),
        _ => real,
    } as u64;
    match g.below(20) {
        0 => (format!("+{}", n), None),
        1 => (format!("-{}", n), None),
        2 => (["", "a", "1a", "0x10", "1,2", "1 2", "1.0", "１", "1_0", "++1", "+", " 3", "3 ", "3\t", "3\u{a0}", "\u{85}2", "0x3", "3;", "2e1"][g.below(19)].to_string(), None),
        3 => ("18446744073709551616".into(), None),
        4 => ("99999999999999999999999".into(), None),
        5 => (format!("000{}", n), Some(n)),
        6 => ("0".into(), Some(0)),
        7 => ("18446744073709551615".into(), Some(u64::MAX)),
        8 => ("4294967296".into(), Some(4294967296)),
        _ => (n.to_string(), Some(n)),
    }
}

pub struct Made {
    pub headers: Vec<(String, String)>,
    /// None: rejected. Some(0): no body.
    pub want: Option<u64>,
}

fn make(g: &mut Gen, real: usize) -> Made {
    let mut h: Vec<(String, String)> = vec![];
    let mut want = Some(0);
    if g.chance(90) {
        let (t, n) = length_text(g, real);
        h.push(("Content-Length".into(), t.clone()));
        want = n;
        if g.chance(6) {
            let t2 = if g.chance(50) { t } else { length_text(g, real).0 };
            h.push(("Content-Length".into(), t2));
            want = None;
        }
    }
    if g.chance(40) {
        let ok = g.chance(75);
        let t = if ok { *g.pick(&GOOD) } else { *g.pick(&BADT) };
        h.push(("Content-Type".into(), t.into()));
        if g.chance(10) {
            let x = if g.chance(50) { *g.pick(&GOOD) } else { *g.pick(&BADT) };
            h.push(("Content-Type".into(), x.into()));
        }
        if !ok && want.map(|n| n > 0).unwrap_or(false) {
            want = None;
        }
    }
    if g.chance(12) {
        let e = *g.pick(&["identity", "chunked", "Identity", "gzip", ""]);
        h.push(("Transfer-Encoding".into(), e.into()));
        if e != "identity" {
            want = None;
        }
        if g.chance(20) {
            h.push(("Transfer-Encoding".into(), "identity".into()));
            want = None;
        }
    }
    if g.chance(20) {
        h.push(("Content-Lengthy".into(), "7".into()));
    }
    Made { headers: h, want }
}

fn pull<R: Read + ?Sized>(r: &mut R, n: usize) -> Result<(usize, Vec<u8>), ErrorKind> {
    let mut b = vec![0u8; n];
    loop {
        match r.read(&mut b) {
            Ok(k) if k > n => panic!("read {} bytes in a buffer of {}", k, n),
            Ok(k) => {
                b.truncate(k);
                return Ok((k, b));
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
            Err(e) => return Err(e.kind()),
        }
    }
}

/// Reads a body in a random way and checks what it gives.
fn consume(g: &mut Gen, b: &mut Body, want: &[u8], complete: bool, end: Option<ErrorKind>) -> Result<Vec<u8>, String> {
    let mut got = vec![];
    let plan = g.below(6);
    let mut left = match plan {
        0 | 1 => 0,
        2 => g.below(want.len() + 1),
        _ => usize::MAX,
    };
    let direct = plan == 4;
    let mixed = plan == 5;
    let mut finished = false;
    while left > 0 {
        let n = (*g.pick(&[1, 2, 3, 5, 16, 100, 8192])).min(left);
        let d = direct || (mixed && g.chance(50));
        let r = if d { pull(&mut *b.content, n) } else { pull(b, n) };
        match r {
            Err(k) => {
                if complete || Some(k) != end {
                    return Err(format!("reading the body fails with {:?} after {} bytes", k, got.len()));
                }
                if got.len() < want.len() {
                    return Err(format!("the body fails after {} bytes instead of {}", got.len(), want.len()));
                }
                finished = true;
                break;
            }
            Ok((0, _)) => {
                if !complete && end.is_some() {
                    return Err("the body ends instead of failing".into());
                }
                finished = true;
                break;
            }
            Ok((k, v)) => {
                got.extend_from_slice(&v);
                left = left.saturating_sub(k);
            }
        }
    }
    if got.len() > want.len() || got[..] != want[..got.len()] || (finished && got.len() != want.len()) {
        return Err(format!("the body gives {} instead of {}", show(&got), show(want)));
    }
    match b.ensure_read() {
        Ok(()) => {
            if !complete && end.is_some() && !finished {
                return Err("ensure_read succeeds on a stream that failed".into());
            }
        }
        Err(e) => {
            if complete || end.is_none() {
                return Err(format!("ensure_read fails with {:?}", e));
            }
        }
    }
    if complete || end.is_none() {
        match pull(b, 4) {
            Ok((0, _)) => {}
            x => return Err(format!("after ensure_read the body still gives {:?}", x)),
        }
        if let Err(e) = b.ensure_read() {
            return Err(format!("the second ensure_read fails with {:?}", e));
        }
    }
    Ok(got)
}

fn case(g: &mut Gen, whole: bool) -> Done {
    let n = *g.pick(&[0, 1, 2, 5, 9, 17, 60, 300]);
    let n = if g.chance(2) { g.range(8000, 30000) } else { g.below(n + 1) };
    let data = g.bytes(n);
    let m = make(g, n);
    let end = if g.chance(20) { Some(*g.pick(&KINDS)) } else { None };
    let mut stream = vec![];
    if whole {
        stream.extend_from_slice(b"POST /a HTTP/1.1\r\n");
        for (k, v) in &m.headers {
            // An empty value needs a blank to be a valid line.
            stream.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
        }
        stream.extend_from_slice(b"\r\n");
    }
    let nonlatin = whole && m.headers.iter().any(|h| !h.1.is_ascii() || h.1.trim_matches([' ', '\t']) != h.1);
    let start = stream.len();
    stream.extend_from_slice(&data);
    g.note(format!("{} {:?} {} then {:?}", if whole { "Request::read_from" } else { "Body::read_from" }, m.headers, show(&data), end));
    let src = Source::new(g, stream, end);
    let seen = src.seen();
    let got = if whole {
        Request::read_from(src).map(|r| r.body)
    } else {
        let mut h = Headers::new();
        for (k, v) in &m.headers {
            h.add(Header { name: k.clone(), value: v.clone() });
        }
        Body::read_from(src, &h)
    };
    let bad = match (m.want, got) {
        _ if nonlatin => None,
        (None, Err(HttpError::Unknown(_))) => None,
        (None, Err(e)) => Some(format!("it is rejected with {:?}", e)),
        (None, Ok(b)) => Some(format!("it is accepted with the body {:?}", b)),
        (Some(_), Err(e)) => Some(format!("it is rejected: {:?}", e)),
        (Some(0), Ok(None)) => {
            if !whole && seen.lock().unwrap().pos != 0 {
                Some("bytes were consumed without a body".into())
            } else {
                None
            }
        }
        (Some(0), Ok(Some(b))) => Some(format!("there is a body: {:?}", b)),
        (Some(_), Ok(None)) => Some("there is no body".into()),
        (Some(len), Ok(Some(mut b))) => {
            let k = (len.min(n as u64)) as usize;
            let complete = n as u64 >= len;
            let ct = m.headers.iter().find(|h| h.0 == "Content-Type").map(|h| h.1.clone());
            if b.content_length != len {
                Some(format!("the length is {}", b.content_length))
            } else if b.content_type.as_ref().map(|t| t.to_string()) != ct.as_ref().map(|c| c.parse::<mime::Mime>().unwrap().to_string()) {
                Some(format!("the content type is {:?}", b.content_type))
            } else {
                match consume(g, &mut b, &data[..k], complete, end) {
                    Err(e) => Some(e),
                    Ok(_) => {
                        let pos = seen.lock().unwrap().pos;
                        if !whole && (complete || end.is_none()) && pos != start + k {
                            Some(format!("{} bytes of the stream were consumed instead of {}", pos, k))
                        } else {
                            None
                        }
                    }
                }
            }
        }
    };
    g.done(m.want.map(|x| x > 0).unwrap_or(false), bad)
}

fn parts(g: &mut Gen) -> Done {
    case(g, false)
}
fn message(g: &mut Gen) -> Done {
    case(g, true)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C05",
            name: "body",
            rule: "headers with every kind of length, type and encoding and a stream that is shorter, equal or longer; the body is read in random ways (whole, partially, through content, not at all) and drained, what it gives and the bytes consumed are compared with the declared length; non trivial: there is a body",
            weight: 1,
            max: 0,
            limit_ms: 5000,
            run: parts,
        },
        Oracle {
            prop: "C05",
            name: "body_of_request",
            rule: "the same for whole requests read from a stream; non trivial: there is a body",
            weight: 1,
            max: 0,
            limit_ms: 5000,
            run: message,
        },
    ]
}

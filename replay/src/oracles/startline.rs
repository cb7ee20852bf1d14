//! C03: start lines.
use super::io_util::*;
use super::router::METHODS;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::io::ErrorKind;
use wruster::http::errors::HttpError;
use wruster::http::{HttpMethod, Request, Response, StatusCode};

const NAMES: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];

fn index(m: HttpMethod) -> usize {
    METHODS.iter().position(|x| *x as u16 == m as u16).unwrap()
}

/// Method, uri, version and the length of the line, when it is well formed.
fn request_line(b: &[u8]) -> Option<(usize, Vec<u8>, Vec<u8>, usize)> {
    let sp = b.iter().position(|c| *c == b' ')?;
    let m = NAMES.iter().position(|n| n.as_bytes() == &b[..sp])?;
    let r = &b[sp + 1..];
    let sp2 = r.iter().position(|c| *c == b' ')?;
    let uri = &r[..sp2];
    if uri.is_empty() || uri.contains(&b'\n') {
        return None;
    }
    let r2 = &r[sp2 + 1..];
    let lf = r2.iter().position(|c| *c == b'\n')?;
    if lf < 2 || r2[lf - 1] != b'\r' {
        return None;
    }
    Some((m, uri.to_vec(), r2[..lf - 1].to_vec(), sp + 1 + sp2 + 1 + lf + 1))
}

fn mutate(g: &mut Gen, b: &mut Vec<u8>) {
    let pool: &[u8] = b" \r\n\t/.:HTP1230+-aZ\x00\x7f\x80\xff\xc3\xa9";
    for _ in 0..g.range(1, 3) {
        if b.is_empty() {
            b.push(*g.pick(pool));
            continue;
        }
        let i = g.below(b.len());
        match g.below(6) {
            0 => {
                b.remove(i);
            }
            1 => b.insert(i, *g.pick(pool)),
            2 => b[i] = *g.pick(pool),
            3 => b.truncate(i),
            4 => {
                let c = b[i];
                b.insert(i, c);
            }
            _ => b[i] ^= 0x20,
        }
    }
}

fn word(g: &mut Gen, max: usize) -> Vec<u8> {
    let atoms: [&[u8]; 12] = [b"/", b"a", b"b.html", b"?q=1", b"%20", b"..", "é".as_bytes(), b"x", b"\r", b"\t", b":", b"\xff"];
    let mut v = vec![];
    for _ in 0..g.range(1, max) {
        let k = if g.chance(85) { g.below(8) } else { g.below(12) };
        v.extend_from_slice(atoms[k]);
    }
    v
}

fn request(g: &mut Gen) -> Done {
    let mut line: Vec<u8> = Vec::new();
    let name = *g.pick(&NAMES);
    line.extend_from_slice(name.as_bytes());
    line.push(b' ');
    line.extend(if g.chance(80) {
        let mut w = vec![b'/'];
        w.extend(word(g, 5));
        w
    } else if g.chance(10) {
        vec![b'u'; g.range(1000, 20000)]
    } else {
        word(g, 4)
    });
    line.push(b' ');
    let versions: [&[u8]; 7] = [b"HTTP/1.1", b"HTTP/1.0", b"HTTP/2", b"HTTP/0.9", b"x", b"HTTP/1.1 ", b"\r"];
    line.extend_from_slice(if g.chance(80) { b"HTTP/1.1" } else { g.pick::<&[u8]>(&versions) });
    line.extend_from_slice(b"\r\n");
    if g.chance(60) {
        mutate(g, &mut line);
    }
    if g.chance(8) {
        let alts = ["get", "Get", "GETT", "GE", "", " GET", "GET\t", "PATCHED", "TRAC"];
        line = format!("{} /a HTTP/1.1\r\n", g.pick(&alts)).into_bytes();
    }
    let mut data = line.clone();
    data.extend_from_slice(b"X-After: the line\r\nContent-Length: 3\r\n\r\nabcDEF");
    let end = if g.chance(15) {
        let k = *g.pick(&KINDS);
        data.truncate(g.below(line.len() + 1));
        Some(k)
    } else {
        if g.chance(20) {
            data.truncate(g.below(line.len() + 1));
        }
        None
    };
    g.note(format!("Request::read_from {} then {:?}", show(&data), end));
    let want = request_line(&data);
    let full = want.as_ref().map(|w| data.len() > w.3);
    let src = Source::new(g, data.clone(), end);
    let got = Request::read_from(src);
    let bad = match (&want, got) {
        (None, Ok(r)) => Some(format!("accepted a malformed line: {:?} {:?} {:?}", r.method, r.uri, r.version)),
        (None, Err(e)) => {
            if data.is_empty() && end.is_none() && e != HttpError::ConnectionClosed {
                Some(format!("an empty stream gives {:?}", e))
            } else if data.is_empty() && end == Some(ErrorKind::TimedOut) && e != HttpError::Timeout {
                Some(format!("a timeout gives {:?}", e))
            } else {
                None
            }
        }
        (Some(_), Err(e)) if full == Some(true) => {
            // The rest is a good message unless the line took part of it.
            let rest = &data[want.as_ref().unwrap().3..];
            if rest == b"X-After: the line\r\nContent-Length: 3\r\n\r\nabcDEF" {
                Some(format!("rejected a well formed line: {:?}", e))
            } else {
                None
            }
        }
        (Some(_), Err(_)) => None,
        (Some((m, uri, version, _)), Ok(mut r)) => {
            if index(r.method) != *m {
                Some(format!("method {:?}", r.method))
            } else if r.uri != String::from_utf8_lossy(uri) {
                Some(format!("uri {:?}", r.uri))
            } else if r.version != String::from_utf8_lossy(version) {
                Some(format!("version {:?}", r.version))
            } else if &data[want.as_ref().unwrap().3..] != b"X-After: the line\r\nContent-Length: 3\r\n\r\nabcDEF" {
                None
            } else if r.headers.get("X-After").map(|v| v.join(",")) != Some("the line".to_string()) {
                Some("what follows the line was consumed".to_string())
            } else {
                let mut c = vec![];
                match r.body.as_mut().map(|b| std::io::Read::read_to_end(b, &mut c)) {
                    Some(Ok(3)) if c == b"abc" => None,
                    x => Some(format!("what follows the line was altered: {:?} {:?}", x, c)),
                }
            }
        }
    };
    g.done(want.is_some() || data.len() > 4, bad)
}

fn u8_text(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| c.is_ascii_digit()) && std::str::from_utf8(b).unwrap().parse::<u8>().is_ok()
}

/// The status line is one that has to be accepted: code and reason length.
fn must_accept(b: &[u8]) -> Option<usize> {
    let sp = b.iter().position(|c| *c == b' ')?;
    let v = b[..sp].strip_prefix(b"HTTP/")?;
    let dot = v.iter().position(|c| *c == b'.')?;
    if !u8_text(&v[..dot]) || !u8_text(&v[dot + 1..]) {
        return None;
    }
    let r = &b[sp + 1..];
    let sp2 = r.iter().position(|c| *c == b' ')?;
    if sp2 != 3 || !r[..3].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let r2 = &r[4..];
    let lf = r2.iter().position(|c| *c == b'\n')?;
    if lf < 2 || r2[lf - 1] != b'\r' {
        return None;
    }
    Some(std::str::from_utf8(&r[..3]).unwrap().parse().unwrap())
}

/// The status line is one that has to be rejected.
fn must_reject(b: &[u8]) -> bool {
    let sp = match b.iter().position(|c| *c == b' ') {
        None => return true,
        Some(p) => p,
    };
    let v = String::from_utf8_lossy(&b[..sp]).trim_end().to_string();
    let ok = match v.strip_prefix("HTTP/") {
        Some(n) => match n.split_once('.') {
            Some((a, b)) => a.parse::<u8>().is_ok() && b.parse::<u8>().is_ok(),
            None => false,
        },
        None => false,
    };
    if !ok {
        return true;
    }
    let r = &b[sp + 1..];
    match r.iter().position(|c| *c == b' ') {
        Some(3) => {
            // digits, perhaps with a sign or white space at the end
            let t = String::from_utf8_lossy(&r[..3]).trim_end().to_string();
            t.parse::<usize>().is_err() || r.len() < 7
        }
        Some(n) => String::from_utf8_lossy(&r[..n]).len() != 3,
        None => true,
    }
}

fn status(g: &mut Gen) -> Done {
    let mut line: Vec<u8> = Vec::new();
    let versions = ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/255.255", "HTTP/256.1", "HTTP/1.256", "HTTP/1", "HTTP/1.1.1", "http/1.1", "HTTP/1.x", "HTTPS/1.1", "HTTP//1.1", "", "HTTP/.1", "HTTP/1.", "HTTP/01.10"];
    let v = if g.chance(60) { versions[g.below(4)] } else { *g.pick(&versions) };
    line.extend_from_slice(v.as_bytes());
    line.push(b' ');
    let code = if g.chance(70) { format!("{}", g.range(100, 999)) } else { (*g.pick(&["000", "20", "2000", "2x0", "+20", "", "-1", "007", "abc", "20\u{e9}"])).to_string() };
    line.extend_from_slice(code.as_bytes());
    line.push(b' ');
    let reason: &[u8] = *g.pick::<&[u8]>(&[b"OK", b"Not Found", b"x", b"", b" ", "é".as_bytes(), b"a\rb"]);
    line.extend_from_slice(reason);
    line.extend_from_slice(b"\r\n");
    if g.chance(45) {
        mutate(g, &mut line);
    }
    let mut data = line.clone();
    data.extend_from_slice(b"X-After: the line\r\nContent-Length: 3\r\n\r\nabcDEF");
    let end = if g.chance(15) {
        data.truncate(g.below(line.len() + 1));
        Some(*g.pick(&KINDS))
    } else {
        if g.chance(15) {
            data.truncate(g.below(line.len() + 1));
        }
        None
    };
    g.note(format!("Response::read_from {} then {:?}", show(&data), end));
    let accept = must_accept(&data);
    let lf = data.iter().position(|c| *c == b'\n').map(|p| p + 1);
    let complete = lf.map(|p| &data[p..] == b"X-After: the line\r\nContent-Length: 3\r\n\r\nabcDEF").unwrap_or(false);
    let reject = must_reject(&data);
    let got = Response::read_from(Source::new(g, data.clone(), end));
    let bad = match got {
        Ok(mut r) => {
            if reject {
                Some(format!("accepted a malformed status line: {:?}", r.status))
            } else if let Some(c) = accept {
                let n: usize = (&r.status).into();
                let mut t = vec![];
                if n != c {
                    Some(format!("status {} instead of {}", n, c))
                } else if !complete {
                    None
                } else if r.headers.get("X-After").map(|v| v.join(",")) != Some("the line".to_string()) {
                    Some("what follows the line was consumed".to_string())
                } else {
                    match r.body.as_mut().map(|b| std::io::Read::read_to_end(b, &mut t)) {
                        Some(Ok(3)) if t == b"abc" => None,
                        x => Some(format!("what follows the line was altered: {:?}", x)),
                    }
                }
            } else {
                None
            }
        }
        Err(e) => {
            if accept.is_some() && complete {
                Some(format!("rejected a well formed status line: {:?}", e))
            } else if data.is_empty() && end.is_none() && e != HttpError::ConnectionClosed {
                Some(format!("an empty stream gives {:?}", e))
            } else if data.is_empty() && end == Some(ErrorKind::TimedOut) && e != HttpError::Timeout {
                Some(format!("a timeout gives {:?}", e))
            } else {
                None
            }
        }
    };
    let _ = StatusCode::OK;
    g.done(accept.is_some() || reject, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C03",
            name: "request_line",
            rule: "request lines well formed, mutated and truncated, in random pieces with interruptions and i/o errors, compared with an independent recognizer; what follows the line has to remain; non trivial: more than four bytes",
            weight: 3,
            max: 0,
            limit_ms: 20000,
            run: request,
        },
        Oracle {
            prop: "C03",
            name: "status_line",
            rule: "status lines well formed, mutated and truncated, in random pieces with interruptions and i/o errors; the ones the property names have to be accepted with their code or rejected; non trivial: the property decides the line",
            weight: 2,
            max: 0,
            limit_ms: 20000,
            run: status,
        },
    ]
}

//! C04: header blocks.
use super::io_util::*;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::collections::BTreeMap;
use std::io::{BufReader, ErrorKind, Read};
use wruster::http::errors::HttpError;
use wruster::http::headers::Headers;

pub type Vals = BTreeMap<String, Vec<String>>;

pub enum Want {
    Ok(Vals, usize),
    Bad,
    Ended,
}

fn token(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}

pub fn canonical(name: &[u8]) -> String {
    let mut o = String::new();
    for (i, w) in name.split(|c| *c == b'-').enumerate() {
        if i > 0 {
            o.push('-');
        }
        let first = w.iter().position(|c| c.is_ascii_alphanumeric());
        for (k, c) in w.iter().enumerate() {
            o.push(if Some(k) == first { c.to_ascii_uppercase() as char } else { *c as char });
        }
    }
    o
}

pub fn latin(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

pub fn line(l: &[u8]) -> Option<(String, String)> {
    let n = l.iter().take_while(|c| token(**c)).count();
    if n == 0 || l.len() < n + 2 || l[n] != b':' {
        return None;
    }
    let blank = |c: &u8| *c == b' ' || *c == b'\t';
    let v = &l[n + 1..];
    let a = v.iter().take_while(|c| blank(c)).count();
    let v = &v[a..];
    let b = v.iter().rev().take_while(|c| blank(c)).count();
    let v = &v[..v.len() - b];
    if v.iter().any(|c| (*c < 0x20 && *c != b'\t') || *c == 0x7f) {
        return None;
    }
    Some((canonical(&l[..n]), latin(v)))
}

pub fn block(mut s: &[u8]) -> Want {
    let mut v = Vals::new();
    let mut pos = 0;
    loop {
        let i = match s.windows(2).position(|w| w == b"\r\n") {
            None => return Want::Ended,
            Some(i) => i,
        };
        pos += i + 2;
        if i == 0 {
            return Want::Ok(v, pos);
        }
        match line(&s[..i]) {
            None => return Want::Bad,
            Some((n, x)) => v.entry(n).or_default().push(x),
        }
        s = &s[i + 2..];
    }
}

pub fn vals(h: &Headers) -> Vals {
    h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn gen_line(g: &mut Gen) -> Vec<u8> {
    let names: [&[u8]; 14] = [
        b"host", b"Content-Length", b"content-type", b"X-a", b"x--b", b"-c-", b"1st-2nd", b"_u-v_w", b"ETag", b"~z", b"a.b-c.d", b"'q'-r", b"HOST", b"connection",
    ];
    let vals: [&[u8]; 16] = [
        b"", b"a", b"keep-alive", b"close", b"a b\tc", b"\"q\"", b"12", b"a:b", b"\xe9\xff", b"\x80", b"x,y;z=1", b"Mon, 01", b"~!@#", b"\xc3\xa9", b"a\rb", b"\nc",
    ];
    let blanks: [&[u8]; 6] = [b"", b" ", b"\t", b"  ", b" \t ", b"\x20\x20\x20"];
    let mut l = vec![];
    if g.chance(80) {
        l.extend_from_slice(g.pick::<&[u8]>(&names));
    } else {
        for _ in 0..g.below(6) {
            let t = g.next() as u8;
            l.push(if g.chance(90) && !token(t) { b'q' } else { t });
        }
    }
    if g.chance(3) {
        l.push(b' ');
    }
    if !g.chance(3) {
        l.push(b':');
    }
    l.extend_from_slice(g.pick::<&[u8]>(&blanks));
    let k = if g.chance(97) { g.below(14) } else { g.below(16) };
    l.extend_from_slice(vals[k]);
    if g.chance(3) {
        l.push(g.next() as u8);
    }
    if g.chance(2) {
        l.extend(std::iter::repeat(b'v').take(g.range(1000, 20000)));
    }
    l.extend_from_slice(g.pick::<&[u8]>(&blanks));
    l
}

fn read(g: &mut Gen) -> Done {
    let mut data = vec![];
    let n = if g.chance(3) { g.range(60, 600) } else { *g.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 5, 8]) };
    for i in 0..n {
        if n > 50 {
            data.extend_from_slice(format!("N{}: {}\r\n", if g.chance(50) { i } else { i % 7 }, i).as_bytes());
            continue;
        }
        data.extend(gen_line(g));
        data.extend_from_slice(if g.chance(97) { b"\r\n" } else { g.pick::<&[u8]>(&[b"\n", b"\r", b"\r\r\n", b"\n\r\n", b""]) });
    }
    if g.chance(93) {
        data.extend_from_slice(b"\r\n");
    }
    if g.chance(10) && !data.is_empty() {
        let i = g.below(data.len());
        match g.below(4) {
            0 => data.truncate(i),
            1 => data[i] = g.next() as u8,
            2 => {
                data.remove(i);
            }
            _ => data.insert(i, g.next() as u8),
        }
    }
    let tail: &[u8] = *g.pick::<&[u8]>(&[b"", b"BODY", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"\nx"]);
    data.extend_from_slice(tail);
    let end = if g.chance(20) { Some(*g.pick(&KINDS)) } else { None };
    g.note(format!("Headers::read_from {} then {:?}", show(&data), end));
    let want = block(&data);
    let src = Source::new(g, data.clone(), end);
    let mut r = match g.below(3) {
        0 => BufReader::with_capacity(1, src),
        1 => BufReader::with_capacity(7, src),
        _ => BufReader::new(src),
    };
    let got = Headers::read_from(&mut r);
    let bad = match (&want, got) {
        (Want::Ok(v, used), Ok(h)) => {
            let gv = vals(&h);
            let mut rest = vec![];
            let mut b = [0u8; 64];
            loop {
                match r.read(&mut b) {
                    Ok(0) => break,
                    Ok(n) => rest.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                    Err(_) => break,
                }
            }
            if &gv != v {
                Some(format!("the headers are {:?} instead of {:?}", gv, v))
            } else if rest != data[*used..] {
                Some(format!("after the headers there is {:?} instead of {:?}", show(&rest), show(&data[*used..])))
            } else {
                v.iter().find_map(|(k, x)| if h.get(k) != Some(x) { Some(format!("get({:?}) gives {:?}", k, h.get(k))) } else { None })
            }
        }
        (Want::Ok(..), Err(e)) => Some(format!("well formed headers are rejected: {:?}", e)),
        (Want::Bad, Ok(h)) => Some(format!("a malformed line is accepted: {:?}", vals(&h))),
        (Want::Bad, Err(HttpError::InvalidRequest(_))) => None,
        (Want::Bad, Err(e)) => Some(format!("a malformed line gives {:?}", e)),
        (Want::Ended, Ok(h)) => Some(format!("headers without their end are accepted: {:?}", vals(&h))),
        (Want::Ended, Err(e)) => match (end, &e) {
            (None, HttpError::ConnectionClosed) => None,
            (Some(ErrorKind::TimedOut), HttpError::Timeout) => None,
            (Some(ErrorKind::NotConnected), HttpError::ConnectionClosed) => None,
            (Some(k), HttpError::Unknown(_)) if k != ErrorKind::TimedOut && k != ErrorKind::NotConnected => None,
            _ => Some(format!("a stream that ends with {:?} gives {:?}", end, e)),
        },
    };
    g.done(!matches!(want, Want::Bad) && n > 0, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C04",
        name: "headers",
        rule: "blocks of 0 to 8 (sometimes hundreds of) generated header lines (all the token characters, blanks, bytes of all kinds, wrong line ends, truncations) read in random pieces through buffers of 1, 7 and 8192 bytes; result and leftover compared with an independent parser",
        weight: 1,
        max: 0,
        limit_ms: 5000,
        run: read,
    }]
}

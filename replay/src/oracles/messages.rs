//! C06, C07 and C21: messages written, read back and made from contents.
use super::io_util::*;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::collections::BTreeMap;
use std::io::{Cursor, Read};
use std::str::FromStr;
use wruster::http::headers::{Header, Headers};
use wruster::http::{Body, HttpMethod, IntoBody, IntoRequest, Request, Response, StatusCode, Version};

pub const METHODS: [(HttpMethod, &str); 9] = [
    (HttpMethod::GET, "GET"),
    (HttpMethod::HEAD, "HEAD"),
    (HttpMethod::POST, "POST"),
    (HttpMethod::PUT, "PUT"),
    (HttpMethod::DELETE, "DELETE"),
    (HttpMethod::CONNECT, "CONNECT"),
    (HttpMethod::OPTIONS, "OPTIONS"),
    (HttpMethod::TRACE, "TRACE"),
    (HttpMethod::PATCH, "PATCH"),
];
pub const STATUSES: [(StatusCode, &str); 41] = [
    (StatusCode::Continue, "100 Continue"),
    (StatusCode::SwitchingProtocols, "101 Switching Protocols"),
    (StatusCode::OK, "200 OK"),
    (StatusCode::Created, "201 Created"),
    (StatusCode::Accepted, "202 Accepted"),
    (StatusCode::NonAuthoritativeInformation, "203 Non-Authoritative Information"),
    (StatusCode::NoContent, "204 No Content"),
    (StatusCode::ResetContent, "205 Reset Content"),
    (StatusCode::PartialContent, "206 Partial Content"),
    (StatusCode::MultipleChoices, "300 Multiple Choices"),
    (StatusCode::MovedPermanently, "301 Moved Permanently"),
    (StatusCode::Found, "302 Found"),
    (StatusCode::SeeOther, "303 See Other"),
    (StatusCode::NotModified, "304 Not Modified"),
    (StatusCode::UseProxy, "305 Use Proxy"),
    (StatusCode::TemporaryRedirect, "307 Temporary Redirect"),
    (StatusCode::BadRequest, "400 Bad Request"),
    (StatusCode::Unauthorized, "401 Unauthorized"),
    (StatusCode::PaymentRequired, "402 Payment Required"),
    (StatusCode::Forbidden, "403 Forbidden"),
    (StatusCode::NotFound, "404 Not Found"),
    (StatusCode::MethodNotAllowed, "405 Method Not Allowed"),
    (StatusCode::NotAcceptable, "406 Not Acceptable"),
    (StatusCode::ProxyAuthenticationRequired, "407 Proxy Authentication Required"),
    (StatusCode::RequestTimeOut, "408 Request Time-out"),
    (StatusCode::Conflict, "409 Conflict"),
    (StatusCode::Gone, "410 Gone"),
    (StatusCode::LengthRequired, "411 Length Required"),
    (StatusCode::PreconditionFailed, "412 Precondition Failed"),
    (StatusCode::RequestEntityTooLarge, "413 Request Entity Too Large"),
    (StatusCode::RequestURITooLarge, "414 Request-URI Too Large"),
    (StatusCode::UnsupportedMediaType, "415 Unsupported Media Type"),
    (StatusCode::RequestedRangeNotSatisfiable, "416 Requested range not satisfiable"),
    (StatusCode::ExpectationFailed, "417 Expectation Failed"),
    (StatusCode::InternalServerError, "500 Internal Server Error"),
    (StatusCode::NotImplemented, "501 Not Implemented"),
    (StatusCode::BadGateway, "502 Bad Gateway"),
    (StatusCode::ServiceUnavailable, "503 Service Unavailable"),
    (StatusCode::GatewayTimeOut, "504 Gateway Time-out"),
    (StatusCode::HTTPVersionNotSupported, "505 HTTP Version not supported"),
    (StatusCode::ExtensionCode(299), "299 Extension code"),
];
pub const TYPES: [&str; 6] =
    ["text/plain", "text/html; charset=utf-8", "application/json", "image/png", "multipart/form-data; boundary=aBc", "x/y+z"];

pub type Fields = BTreeMap<String, Vec<String>>;

/// Fields with canonical names and values that survive being sent.
pub fn fields(g: &mut Gen, plain: bool) -> Fields {
    let mut f: Fields = BTreeMap::new();
    let names = ["Host", "X-A", "X-B", "Set-Cookie", "Accept", "A", "1a", "Via-9x", "!#$%&'*+-.^_`|~", "Content-Lengthy", "Connection"];
    for _ in 0..g.below(8) {
        let n = g.pick(&names).to_string();
        let v = value(g, plain);
        f.entry(n).or_default().push(v);
    }
    f
}

fn value(g: &mut Gen, plain: bool) -> String {
    match g.below(8) {
        0 => String::new(),
        1 => "a b\tc: d, e".to_string(),
        2 => "x".repeat(g.range(1, 300)),
        3 if !plain => "é ñ 日本".to_string(),
        4 => "close".to_string(),
        _ => (0..g.range(1, 12)).map(|_| (g.range(0x21, 0x7e) as u8) as char).collect(),
    }
}

pub fn to_headers(f: &Fields) -> Headers {
    let mut h = Headers::new();
    for (k, vs) in f {
        for v in vs {
            h.add(Header { name: k.clone(), value: v.clone() });
        }
    }
    h
}

pub fn of_headers(h: &Headers) -> Fields {
    h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn length(g: &mut Gen) -> usize {
    match g.below(300) {
        0 => (1 << 21) + g.below(3),
        1 => (1 << 21) + g.range(1, 200_000),
        2..=9 => g.range(5_000, 40_000),
        10..=40 => 0,
        _ => g.range(1, 300),
    }
}

fn data(g: &mut Gen, n: usize) -> Vec<u8> {
    let k = g.next() as u8;
    if n > 100_000 {
        // The content of every block is different.
        (0..n).map(|i| (i as u8) ^ ((i >> 8) as u8) ^ ((i >> 16) as u8) ^ k).collect()
    } else {
        g.bytes(n)
    }
}

/// Compares what was written with the message. None if it is right.
fn compare(out: &[u8], line: &str, f: &Fields, body: &[u8]) -> Option<String> {
    if !out.starts_with(line.as_bytes()) {
        return Some(format!("it starts with {} instead of {}", show(&out[..out.len().min(line.len() + 20)]), show(line.as_bytes())));
    }
    let mut at = line.len();
    let mut left: Fields = f.clone();
    let mut seen: Vec<String> = vec![];
    loop {
        if out[at..].starts_with(b"\r\n") {
            at += 2;
            break;
        }
        let e = match out[at..].windows(2).position(|w| w == b"\r\n") {
            None => return Some("the headers do not end".to_string()),
            Some(e) => at + e,
        };
        let l = String::from_utf8_lossy(&out[at..e]).to_string();
        at = e + 2;
        let (n, v) = match l.split_once(": ") {
            None => return Some(format!("unexpected line {:?}", l)),
            Some((n, v)) => (n.to_string(), v.to_string()),
        };
        match left.get_mut(&n) {
            Some(vs) if !vs.is_empty() && vs[0] == v => {
                vs.remove(0);
            }
            _ => return Some(format!("unexpected header line {:?} (repeated, changed or out of order)", l)),
        }
        seen.push(n);
    }
    if let Some((n, vs)) = left.iter().find(|(_, v)| !v.is_empty()) {
        return Some(format!("the values {:?} of {} are missing", vs, n));
    }
    if &out[at..] != body {
        let k = out[at..].iter().zip(body).take_while(|(a, b)| a == b).count();
        return Some(format!("the body has {} bytes instead of {}, equal up to {}", out.len() - at, body.len(), k));
    }
    None
}

fn writing(g: &mut Gen) -> Done {
    let request = g.chance(45);
    let mut f = fields(g, false);
    let n = length(g);
    let content = data(g, n);
    let body_fails = if g.chance(8) { Some(*g.pick(&KINDS)) } else { None };
    let has_body = g.chance(70);
    // The declared length usually is the real one.
    let declared = if g.chance(80) { n as u64 } else { g.below(3_000_000) as u64 };
    let own_length = g.chance(35);
    if own_length {
        let k = if g.chance(15) { 2 } else { 1 };
        f.insert("Content-Length".to_string(), (0..k).map(|_| format!("{}", g.below(1000))).collect());
    }
    let body = if has_body {
        let src = Source::new(g, content.clone(), body_fails);
        let t = if g.chance(50) { Some(mime::TEXT_PLAIN) } else { None };
        Some(Body::new(t, declared, Box::new(src)))
    } else {
        None
    };
    let content = if has_body { content } else { vec![] };
    let mut want = f.clone();
    let line;
    let mut dest = Dest::new(g, None);
    if dest.chunk < 64 && content.len() > 50_000 {
        dest.chunk = 4096;
    }
    let headers = to_headers(&f);
    let what;
    let run: Box<dyn FnOnce(&mut Dest) -> Result<(), String>>;
    if request {
        let (m, mt) = g.pick(&METHODS);
        let uri = ["/", "/a?b=c", "*", "http://x/y", "", "/é"][g.below(6)].to_string();
        let version = ["HTTP/1.1", "HTTP/1.0", "HTTP/2", ""][g.below(4)].to_string();
        line = format!("{} {} {}\r\n", mt, uri, version);
        if !has_body && !own_length {
            want.insert("Content-Length".to_string(), vec!["0".to_string()]);
        }
        let r = Request { method: *m, uri, version, headers, body };
        what = "Request::write";
        run = Box::new(move |d| r.write(d).map_err(|e| format!("{:?}", e)));
    } else {
        let (s, st) = if g.chance(60) { STATUSES[g.below(41)].clone() } else { (StatusCode::OK, "200 OK") };
        line = format!("HTTP/1.1 {}\r\n", st);
        if !own_length {
            want.insert("Content-Length".to_string(), vec![if has_body { declared.to_string() } else { "0".to_string() }]);
        }
        let mut r = Response { status: s, headers, body };
        what = "Response::write";
        run = Box::new(move |d| r.write(d).map_err(|e| format!("{:?}", e)));
    }
    let total = line.len() + want.iter().map(|(k, v)| v.iter().map(|x| k.len() + x.len() + 4).sum::<usize>()).sum::<usize>() + 2 + content.len();
    if g.chance(35) {
        // Failures near the ends of the parts are the most interesting.
        let at = match g.below(4) {
            0 => g.below(total + 1),
            1 => total - g.below(total.min(4) + 1),
            2 => g.below(line.len() + 2),
            _ => (total - content.len()).saturating_sub(g.below(4)),
        };
        dest.fail_at = Some((at, if g.chance(10) { std::io::ErrorKind::WriteZero } else { *g.pick(&KINDS) }));
    }
    g.note(format!(
        "{} {:?} fields {:?} body {} (length {}, {}) on a writer of {} bytes per call that fails at {:?}",
        what,
        line,
        f,
        has_body,
        declared,
        if content.len() < 40 { show(&content) } else { format!("{} bytes", content.len()) } + &format!(" then {:?}", body_fails),
        dest.chunk,
        dest.fail_at
    ));
    let r = run(&mut dest);
    let must_fail = dest.fail_at.map(|x| x.0 < total).unwrap_or(false);
    let source_fails = has_body && body_fails.is_some();
    let bad = match r {
        Ok(()) if must_fail => Some(format!("it succeeds although the writer failed after {} bytes of {}", dest.got.len(), total)),
        Ok(()) if source_fails => Some("it succeeds although the body failed".to_string()),
        Ok(()) => compare(&dest.got, &line, &want, &content),
        Err(_) if must_fail || source_fails || dest.failed => None,
        Err(e) => Some(format!("it fails with {} on a writer that does not fail", e)),
    };
    g.done(has_body && !content.is_empty(), bad)
}

/// The buffer used for large bodies has to reach the writer.
fn large(g: &mut Gen) -> Done {
    let declared = (1u64 << 21) + 1 + g.below(5) as u64;
    let n = g.range(0, 3000);
    let content = g.bytes(n);
    let mut dest = Dest::new(g, None);
    let line = "HTTP/1.1 200 OK\r\n";
    let head = line.len() + "Content-Length: ".len() + declared.to_string().len() + 4;
    let total = head + n;
    if g.chance(50) {
        let at = if g.chance(50) { g.range(head, total) } else { total - g.below(n.min(3) + 1) };
        dest.fail_at = Some((at, if g.chance(10) { std::io::ErrorKind::WriteZero } else { *g.pick(&KINDS) }));
    }
    g.note(format!("Response::write of a body of {} bytes that declares {} on a writer that fails at {:?} of {}", n, declared, dest.fail_at, total));
    let mut r = Response {
        status: StatusCode::OK,
        headers: Headers::new(),
        body: Some(Body::new(None, declared, Box::new(Source::new(g, content.clone(), None)))),
    };
    let res = r.write(&mut dest);
    let must_fail = dest.fail_at.map(|x| x.0 < total).unwrap_or(false);
    let mut want = BTreeMap::new();
    want.insert("Content-Length".to_string(), vec![declared.to_string()]);
    let bad = match res {
        Ok(()) if must_fail => Some("it succeeds although the writer failed".to_string()),
        Ok(()) => compare(&dest.got, line, &want, &content),
        Err(_) if must_fail || dest.failed => None,
        Err(e) => Some(format!("it fails with {:?}", e)),
    };
    g.done(n > 0, bad)
}

fn parts(g: &mut Gen) -> Done {
    let mut f = fields(g, false);
    if g.chance(20) {
        f.insert("é".to_string(), vec![value(g, false)]);
    }
    let mut dest = Dest::new(g, None);
    let total: usize = f.iter().map(|(k, v)| v.iter().map(|x| k.len() + x.len() + 4).sum::<usize>()).sum::<usize>() + 2;
    if g.chance(40) {
        dest.fail_at = Some((g.below(total + 1), if g.chance(10) { std::io::ErrorKind::WriteZero } else { *g.pick(&KINDS) }));
    }
    g.note(format!("Headers::write {:?} on a writer that fails at {:?} of {}", f, dest.fail_at, total));
    let r = to_headers(&f).write(&mut dest);
    let must_fail = dest.fail_at.map(|x| x.0 < total).unwrap_or(false);
    let bad = match r {
        Ok(()) if must_fail => Some("it succeeds although the writer failed".to_string()),
        Ok(()) => compare(&dest.got, "", &f, b""),
        Err(_) if must_fail || dest.failed => None,
        Err(e) => Some(format!("it fails with {:?}", e)),
    };
    g.done(!f.is_empty(), bad)
}

// ---- C07 ----------------------------------------------------------------
fn read_all<R: Read + ?Sized>(r: &mut R) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    r.read_to_end(&mut v).map_err(|e| format!("reading the body fails: {}", e))?;
    Ok(v)
}

fn round(g: &mut Gen) -> Done {
    let request = g.chance(50);
    let mut f = fields(g, true);
    let n = if g.chance(30) { 0 } else { length(g).min(50_000) };
    let content = g.bytes(n);
    let has_body = n > 0 || g.chance(30);
    if has_body && n > 0 {
        // A response declares the length itself.
        if request || g.chance(50) {
            f.insert("Content-Length".to_string(), vec![n.to_string()]);
        }
        if g.chance(50) {
            f.insert("Content-Type".to_string(), vec![g.pick(&TYPES).to_string()]);
        }
    } else if request && has_body && g.chance(50) {
        f.insert("Content-Length".to_string(), vec!["0".to_string()]);
    }
    let body = if has_body { Some(Body::new(None, n as u64, Box::new(Source::new(g, content.clone(), None)))) } else { None };
    let mut dest = Dest::new(g, None);
    let mut want = f.clone();
    let bad;
    if request {
        let (m, mt) = g.pick(&METHODS);
        let uri: String = match g.below(4) {
            0 => "/".to_string(),
            1 => "/é/日本".to_string(),
            _ => (0..g.range(1, 20)).map(|_| (g.range(0x21, 0x7e) as u8) as char).collect(),
        };
        let version = match g.below(5) {
            0 => "HTTP/1.0".to_string(),
            1 => "HTTP/2".to_string(),
            2 => (0..g.range(1, 9)).map(|_| (g.range(0x21, 0x7e) as u8) as char).collect(),
            _ => "HTTP/1.1".to_string(),
        };
        if !has_body {
            want.insert("Content-Length".to_string(), vec!["0".to_string()]);
        }
        g.note(format!("{} {} {} {:?} and a body of {} bytes", mt, uri, version, f, n));
        let r = Request { method: *m, uri: uri.clone(), version: version.clone(), headers: to_headers(&f), body };
        bad = match r.write(&mut dest) {
            Err(e) => Some(format!("writing fails: {:?}", e)),
            Ok(()) => {
                let src = Source::new(g, dest.got, None);
                match Request::read_from(src) {
                    Err(e) => Some(format!("it is not read back: {:?}", e)),
                    Ok(mut r) => {
                        let b = match r.body.as_mut() {
                            None => Ok(vec![]),
                            Some(b) => read_all(b),
                        };
                        if r.method != *m || r.uri != uri || r.version != version {
                            Some(format!("it is read back as {} {} {}", r.method, r.uri, r.version))
                        } else if of_headers(&r.headers) != want {
                            Some(format!("the headers are read back as {:?}", of_headers(&r.headers)))
                        } else if b != Ok(content.clone()) {
                            Some(format!("the body is read back as {:?}", b.map(|b| show(&b))))
                        } else {
                            None
                        }
                    }
                }
            }
        };
    } else {
        let (s, st) = STATUSES[g.below(41)].clone();
        if !want.contains_key("Content-Length") {
            want.insert("Content-Length".to_string(), vec![n.to_string()]);
        }
        g.note(format!("{} {:?} and a body of {} bytes", st, f, n));
        let mut r = Response { status: s.clone(), headers: to_headers(&f), body };
        bad = match r.write(&mut dest) {
            Err(e) => Some(format!("writing fails: {:?}", e)),
            Ok(()) => {
                let src = Source::new(g, dest.got, None);
                match Response::read_from(src) {
                    Err(e) => Some(format!("it is not read back: {:?}", e)),
                    Ok(mut r) => {
                        let b = match r.body.as_mut() {
                            None => Ok(vec![]),
                            Some(b) => read_all(b),
                        };
                        if usize::from(&r.status) != usize::from(&s) || r.status.to_string() != st {
                            Some(format!("the status is read back as {}", r.status))
                        } else if of_headers(&r.headers) != want {
                            Some(format!("the headers are read back as {:?}", of_headers(&r.headers)))
                        } else if b != Ok(content.clone()) {
                            Some(format!("the body is read back as {:?}", b.map(|b| show(&b))))
                        } else {
                            None
                        }
                    }
                }
            }
        };
    }
    g.done(n > 0, bad)
}

// ---- C21 ----------------------------------------------------------------
const TEXTS: [&str; 20] = ["", "a", "hello world", "é", "日本語 text", "\u{1F600}\u{1F600}", "a\r\nb\0c", "ß", "\u{FFFD}", " ", "x \n", "\t\r\n\r\ny", "\u{FEFF}", "\u{FEFF}a", "\0", "\r\n", "\u{200B}", "\u{2028}", "\u{A0}", "\u{301}e"];

fn check_body(b: Option<&mut Body>, want: &[u8], len: u64, t: Option<&str>) -> Option<String> {
    let b = match b {
        None => return Some("there is no body".to_string()),
        Some(b) => b,
    };
    if b.content_length != len {
        return Some(format!("the declared length is {} instead of {}", b.content_length, len));
    }
    if b.content_type.as_ref().map(|m| m.to_string()) != t.map(|s| s.to_string()) {
        return Some(format!("the content type is {:?} instead of {:?}", b.content_type, t));
    }
    match read_all(b) {
        Err(e) => Some(e),
        Ok(v) if v != want => Some(format!("the body is {} instead of {}", show(&v), show(want))),
        Ok(_) => b.ensure_read().err().map(|e| format!("{:?}", e)),
    }
}

fn check_fields(h: &Headers, len: u64, t: Option<&str>, must: bool) -> Option<String> {
    let f = of_headers(h);
    for (k, v) in &f {
        match k.as_str() {
            "Content-Length" if v.len() == 1 && v[0] == len.to_string() => {}
            "Content-Type" if v.len() == 1 && Some(v[0].as_str()) == t => {}
            _ => return Some(format!("the header {} is {:?}", k, v)),
        }
    }
    if must && !f.contains_key("Content-Length") && len > 0 {
        return Some("there is no Content-Length".to_string());
    }
    if must && t.is_some() && !f.contains_key("Content-Type") {
        return Some("there is no Content-Type".to_string());
    }
    None
}

fn made(g: &mut Gen) -> Done {
    let mut text = g.pick(&TEXTS).to_string();
    for _ in 0..g.below(3) {
        text.push_str(*g.pick(&TEXTS));
    }
    if g.chance(20) {
        for _ in 0..*g.pick(&[1, 5, 300, 9000]) {
            let top = *g.pick(&[0x80, 0x800, 0x10000, 0x110000]);
            text.push(char::from_u32(g.below(top) as u32).unwrap_or('x'));
        }
    }
    let tt = *g.pick(&TYPES);
    let t: mime::Mime = tt.parse().unwrap();
    let tt = t.to_string();
    let bytes = text.as_bytes().to_vec();
    let n = bytes.len() as u64;
    let bad;
    let path = ["/", "/a b", "", "x"][g.below(4)];
    let (m, _) = g.pick(&METHODS);
    match g.below(8) {
        0 => {
            g.note(format!("Body from the String {:?} and {}", text, tt));
            let mut b = IntoBody::into(text.clone(), t);
            bad = check_body(Some(&mut b), &bytes, n, Some(&tt));
        }
        1 => {
            g.note(format!("Body::from({:?}, {})", text, tt));
            let mut b = Body::from(text.as_str(), t);
            bad = check_body(Some(&mut b), &bytes, n, Some(&tt));
        }
        2 => {
            g.note(format!("Body from {:?} with From<&str>", text));
            let mut b: Body = From::from(text.as_str());
            bad = check_body(Some(&mut b), &bytes, n, Some("text/plain"));
        }
        3 => {
            g.note(format!("Response::from_str({:?})", text));
            let mut r = Response::from_str(&text).unwrap();
            bad = check_fields(&r.headers, n, Some("text/plain"), false)
                .or_else(|| check_body(r.body.as_mut(), &bytes, n, Some("text/plain")))
                .or_else(|| if usize::from(&r.status) != 200 { Some("the status is not 200".to_string()) } else { None });
        }
        4 => {
            // The content can be longer or shorter than the length.
            let d = match g.below(4) {
                0 => g.below(bytes.len() + 1) as u64,
                1 => n + g.below(9) as u64,
                _ => n,
            };
            g.note(format!("Response::from_content({}, {}, {})", show(&bytes), d, tt));
            let src = Source::new(g, bytes.clone(), None);
            let mut r = Response::from_content(src, d, t);
            let k = (d as usize).min(bytes.len());
            bad = check_fields(&r.headers, d, Some(&tt), true)
                .or_else(|| {
                    if of_headers(&r.headers).get("Content-Length") != Some(&vec![d.to_string()]) {
                        Some("there is no Content-Length".to_string())
                    } else {
                        None
                    }
                })
                .or_else(|| check_body(r.body.as_mut(), &bytes[..k], d, Some(&tt)))
                .or_else(|| if usize::from(&r.status) != 200 { Some("the status is not 200".to_string()) } else { None });
        }
        5 => {
            let typed = g.chance(70);
            g.note(format!("Request::from_body({:?}, {:?}, {}, {:?})", text, if typed { Some(&tt) } else { None }, m, path));
            let b = Body::new(if typed { Some(t) } else { None }, n, Box::new(Cursor::new(bytes.clone())));
            let mut r = Request::from_body(b, *m, path);
            let ty = if typed { Some(tt.as_str()) } else { None };
            bad = check_fields(&r.headers, n, ty, true)
                .or_else(|| check_body(r.body.as_mut(), &bytes, n, ty))
                .or_else(|| if r.method != *m || r.uri != path || r.version != Version::HTTP1_1.to_string() { Some(format!("the request is {:?}", r)) } else { None });
        }
        6 => {
            g.note(format!("Request::from({:?}, {}, {}, {:?})", text, tt, m, path));
            let mut r = Request::from(text.as_str(), t, *m, path.to_string());
            bad = check_fields(&r.headers, n, Some(&tt), false)
                .or_else(|| check_body(r.body.as_mut(), &bytes, n, Some(&tt)))
                .or_else(|| if r.method != *m || r.uri != path || r.version != "HTTP/1.1" { Some(format!("the request is {:?}", r)) } else { None });
        }
        _ => {
            g.note(format!("IntoRequest::into(String {:?}, {}, {}, {:?})", text, tt, m, path));
            let mut r = IntoRequest::into(text.clone(), t, *m, path.to_string());
            bad = check_fields(&r.headers, n, Some(&tt), false)
                .or_else(|| check_body(r.body.as_mut(), &bytes, n, Some(&tt)))
                .or_else(|| if r.method != *m || r.uri != path || r.version != "HTTP/1.1" { Some(format!("the request is {:?}", r)) } else { None });
        }
    }
    g.done(n > 0, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C06",
            name: "write",
            rule: "requests and responses of every kind written to writers that take few bytes per call, interrupt and fail at some byte, with bodies that fail, of up to 2.2 MB; the bytes received are compared with the message; non trivial: there is a body",
            weight: 3,
            max: 0,
            limit_ms: 10000,
            run: writing,
        },
        Oracle {
            prop: "C06",
            name: "write_large",
            rule: "bodies that declare more than 2 MB (the buffered path) and writers that fail in the last bytes; non trivial: the body is not empty",
            weight: 1,
            max: 0,
            limit_ms: 10000,
            run: large,
        },
        Oracle {
            prop: "C06",
            name: "write_headers",
            rule: "header blocks written to failing writers; non trivial: there are headers",
            weight: 1,
            max: 0,
            limit_ms: 5000,
            run: parts,
        },
        Oracle {
            prop: "C07",
            name: "round_trip",
            rule: "well formed requests and responses written to a writer that takes few bytes per call and read back from a source that gives few bytes per read; non trivial: there is a body",
            weight: 1,
            max: 0,
            limit_ms: 10000,
            run: round,
        },
        Oracle {
            prop: "C21",
            name: "constructors",
            rule: "every constructor with texts of one to four bytes per character, lengths shorter and longer than the content and several types; non trivial: the content is not empty",
            weight: 1,
            max: 0,
            limit_ms: 5000,
            run: made,
        },
    ]
}

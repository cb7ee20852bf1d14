//! C08: methods, versions and statuses as texts. C09: persistence.
use super::router::METHODS;
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::str::FromStr;
use wruster::http::headers::{Header, Headers};
use wruster::http::{HttpMethod, Request, Response, StatusCode, Version};
#[cfg(wruster_verif)]
use wruster::verif;

const NAMES: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
const VERSIONS: [(&str, Version); 3] = [("HTTP/1.0", Version::HTTP1_0), ("HTTP/1.1", Version::HTTP1_1), ("HTTP/2", Version::HTTP2)];
const REASONS: [(usize, &str); 40] = [
    (100, "Continue"), (101, "Switching Protocols"), (200, "OK"), (201, "Created"), (202, "Accepted"),
    (203, "Non-Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"),
    (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Found"), (303, "See Other"), (304, "Not Modified"),
    (305, "Use Proxy"), (307, "Temporary Redirect"), (400, "Bad Request"), (401, "Unauthorized"),
    (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"),
    (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Time-out"), (409, "Conflict"),
    (410, "Gone"), (411, "Length Required"), (412, "Precondition Failed"), (413, "Request Entity Too Large"),
    (414, "Request-URI Too Large"), (415, "Unsupported Media Type"), (416, "Requested range not satisfiable"),
    (417, "Expectation Failed"), (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"),
    (503, "Service Unavailable"), (504, "Gateway Time-out"), (505, "HTTP Version not supported"),
];

fn named(n: usize) -> Option<StatusCode> {
    Some(match n {
        100 => StatusCode::Continue, 101 => StatusCode::SwitchingProtocols, 200 => StatusCode::OK, 201 => StatusCode::Created,
        202 => StatusCode::Accepted, 203 => StatusCode::NonAuthoritativeInformation, 204 => StatusCode::NoContent,
        205 => StatusCode::ResetContent, 206 => StatusCode::PartialContent, 300 => StatusCode::MultipleChoices,
        301 => StatusCode::MovedPermanently, 302 => StatusCode::Found, 303 => StatusCode::SeeOther, 304 => StatusCode::NotModified,
        305 => StatusCode::UseProxy, 307 => StatusCode::TemporaryRedirect, 400 => StatusCode::BadRequest,
        401 => StatusCode::Unauthorized, 402 => StatusCode::PaymentRequired, 403 => StatusCode::Forbidden, 404 => StatusCode::NotFound,
        405 => StatusCode::MethodNotAllowed, 406 => StatusCode::NotAcceptable, 407 => StatusCode::ProxyAuthenticationRequired,
        408 => StatusCode::RequestTimeOut, 409 => StatusCode::Conflict, 410 => StatusCode::Gone, 411 => StatusCode::LengthRequired,
        412 => StatusCode::PreconditionFailed, 413 => StatusCode::RequestEntityTooLarge, 414 => StatusCode::RequestURITooLarge,
        415 => StatusCode::UnsupportedMediaType, 416 => StatusCode::RequestedRangeNotSatisfiable, 417 => StatusCode::ExpectationFailed,
        500 => StatusCode::InternalServerError, 501 => StatusCode::NotImplemented, 502 => StatusCode::BadGateway,
        503 => StatusCode::ServiceUnavailable, 504 => StatusCode::GatewayTimeOut, 505 => StatusCode::HTTPVersionNotSupported,
        _ => return None,
    })
}

fn check_status(n: usize, s: StatusCode) -> Option<String> {
    let back: usize = (&s).into();
    if back != n {
        return Some(format!("the number of status {} is {}", n, back));
    }
    let reason = REASONS.iter().find(|r| r.0 == n).map(|r| r.1).unwrap_or("Extension code");
    if let (StatusCode::ExtensionCode(_), Some(_)) = (&s, named(n)) {
        return None;
    }
    if s.reason() != reason {
        return Some(format!("the reason of {} is {:?}", n, s.reason()));
    }
    let text = format!("{} {}", n, reason);
    if s.to_string() != text {
        return Some(format!("status {} is written {:?}", n, s.to_string()));
    }
    let c = s.clone();
    if c != s {
        return Some(format!("the clone of {} is {:?}", n, c));
    }
    let t: String = s.into();
    if t != text {
        return Some(format!("status {} is converted to {:?}", n, t));
    }
    None
}

fn tables(g: &mut Gen) -> Done {
    let k = g.index;
    if k < 1200 {
        let n = k as usize;
        g.note(format!("status {}", n));
        let s = StatusCode::from(n);
        if let (Some(w), true) = (named(n), true) {
            if s != w {
                return g.done(true, Some(format!("{} converts to {:?}", n, s)));
            }
            if let Some(b) = check_status(n, w) {
                return g.done(true, Some(b));
            }
        }
        let bad = check_status(n, s);
        // What is written in a response.
        if bad.is_none() {
            let mut to = Vec::new();
            Response::from_status(StatusCode::from(n)).write(&mut to).unwrap();
            let want = format!("HTTP/1.1 {} {}\r\n", n, REASONS.iter().find(|r| r.0 == n).map(|r| r.1).unwrap_or("Extension code"));
            if !to.starts_with(want.as_bytes()) {
                return g.done(true, Some(format!("written as {:?}", String::from_utf8_lossy(&to))));
            }
        }
        return g.done(true, bad);
    }
    if k < 1300 {
        let i = (k % 9) as usize;
        let j = g.below(9);
        g.note(format!("methods {} {}", NAMES[i], NAMES[j]));
        let m = METHODS[i];
        let bad = if m.to_string() != NAMES[i] {
            Some(format!("{:?} is written {}", m, m))
        } else if HttpMethod::from_str(NAMES[i]).map(|x| x as u16) != Ok(m as u16) {
            Some(format!("{} is read as {:?}", NAMES[i], HttpMethod::from_str(NAMES[i])))
        } else if (METHODS[i] == METHODS[j]) != (i == j) {
            Some(format!("{:?} == {:?} is {}", METHODS[i], METHODS[j], METHODS[i] == METHODS[j]))
        } else {
            None
        };
        return g.done(true, bad);
    }
    if k < 1310 {
        let i = (k % 3) as usize;
        g.note(format!("version {}", VERSIONS[i].0));
        let bad = if VERSIONS[i].1.to_string() != VERSIONS[i].0 {
            Some(format!("{:?} is written {}", VERSIONS[i].1, VERSIONS[i].1))
        } else {
            match Version::from_str(VERSIONS[i].0) {
                Ok(v) if v == VERSIONS[i].1 => None,
                x => Some(format!("{} is read as {:?}", VERSIONS[i].0, x)),
            }
        };
        return g.done(true, bad);
    }
    if g.chance(20) {
        let n = match g.below(4) {
            0 => g.next() as usize,
            1 => usize::MAX - g.below(3),
            2 => g.below(100000),
            _ => REASONS[g.below(40)].0 + g.below(3) * 1000,
        };
        g.note(format!("status {}", n));
        let bad = check_status(n, StatusCode::from(n));
        return g.done(true, bad);
    }
    // Other texts are rejected.
    let mut t: String = if g.chance(50) { NAMES[g.below(9)].to_string() } else { VERSIONS[g.below(3)].0.to_string() };
    match g.below(10) {
        8 => t = t[..1].to_string() + &t[1..].to_lowercase(),
        9 => {
            let i = g.below(t.len());
            t = t[..i].to_lowercase() + &t[i..];
        }
        0 => t = t.to_lowercase(),
        1 => t.push(*g.pick(&[' ', '0', '.', 'S', '\n', '\0'])),
        2 => {
            t.pop();
        }
        3 => t = format!(" {}", t),
        4 => {
            let i = g.below(t.len());
            t.remove(i);
        }
        5 => {
            let i = g.below(t.len());
            let c = (g.range(32, 126) as u8) as char;
            t.replace_range(i..i + 1, &c.to_string());
        }
        6 => t = String::new(),
        _ => {
            let i = g.below(t.len());
            let c = t.as_bytes()[i] ^ 0x20;
            t.replace_range(i..i + 1, &(c as char).to_string());
        }
    }
    g.note(format!("text {:?}", t));
    let m = HttpMethod::from_str(&t).ok().map(|m| m as u16);
    let wm = NAMES.iter().position(|n| *n == t).map(|i| METHODS[i] as u16);
    if m != wm {
        return g.done(true, Some(format!("read as the method {:?}", m)));
    }
    let v = Version::from_str(&t).ok();
    let wv = VERSIONS.iter().position(|n| n.0 == t);
    match (&v, wv) {
        (None, None) => {}
        (Some(v), Some(i)) if *v == VERSIONS[i].1 => {}
        _ => return g.done(true, Some(format!("read as the version {:?}", v))),
    }
    g.done(true, None)
}

fn persistence(g: &mut Gen) -> Done {
    let versions = ["HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/2.0", "HTTP/0.9", "HTTP/1.2", "HTTP/3", "", "http/1.1", "HTTP/1.1 ", "HTTP/1", "HTTP/11"];
    let version = if g.chance(75) { versions[g.below(3)] } else { *g.pick(&versions) };
    let values = ["close", "Close", "CLOSE", "keep-alive", "Keep-Alive", "KEEP-ALIVE", "upgrade", "", "closed", "close, TE", "keep-alive, close", "keepalive", " close", "cLoSe", "kEEP-aLIVE", "clos", "close ", "close\t", "close,", "keep-alive ", "\tkeep-alive", "Close;", "keep-alive, Upgrade"];
    let mut h = Headers::new();
    let mut vs: Vec<String> = Vec::new();
    for _ in 0..*g.pick(&[0usize, 1, 1, 1, 2, 3]) {
        let v = g.pick(&values).to_string();
        h.add(Header { name: "Connection".to_string(), value: v.clone() });
        vs.push(v);
    }
    if g.chance(30) {
        h.add(Header { name: "Content-Length".to_string(), value: "0".to_string() });
    }
    if g.chance(10) {
        h.add(Header { name: "Keep-Alive".to_string(), value: "close".to_string() });
    }
    let r = Request { method: *g.pick(&METHODS), uri: "/".to_string(), version: version.to_string(), headers: h, body: None };
    g.note(format!("version {:?}, Connection {:?}", version, vs));
    let first = vs.first().map(|s| s.to_ascii_lowercase()).unwrap_or_default();
    let want = first != "close" && (version == "HTTP/1.1" || version == "HTTP/2" || (version == "HTTP/1.0" && first == "keep-alive"));
    let a = r.is_connection_persistent();
    #[cfg(wruster_verif)]
    let b = verif::is_connection_persistent(&r);
    #[cfg(not(wruster_verif))]
    let b = a;
    let bad = if a != want {
        Some(format!("the request says {}", a))
    } else if b != want {
        Some(format!("the server says {}", b))
    } else {
        None
    };
    g.done(true, bad)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C08",
            name: "tables",
            rule: "every status number below 1200, every method, version and pair of methods, then random numbers and mutated texts, compared with an independent table; all are non trivial",
            weight: 1,
            max: 400_000,
            limit_ms: 20000,
            run: tables,
        },
        Oracle {
            prop: "C09",
            name: "persistence",
            rule: "versions and lists of Connection values, the decision of the server and the one of the request are compared with the property; all are non trivial",
            weight: 1,
            max: 300_000,
            limit_ms: 20000,
            run: persistence,
        },
    ]
}

//! C01: route resolution.
use crate::gen::Gen;
use crate::{Done, Oracle};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use wruster::http::headers::Headers;
use wruster::http::{HttpMethod, Request, Response, StatusCode};
use wruster::router::{HttpHandler, Router};
#[cfg(wruster_verif)]
use wruster::verif;

pub const METHODS: [HttpMethod; 9] = [
    HttpMethod::GET,
    HttpMethod::HEAD,
    HttpMethod::POST,
    HttpMethod::PUT,
    HttpMethod::DELETE,
    HttpMethod::CONNECT,
    HttpMethod::OPTIONS,
    HttpMethod::TRACE,
    HttpMethod::PATCH,
];

pub fn request(method: HttpMethod, uri: &str) -> Request {
    Request { method, uri: uri.to_string(), version: "HTTP/1.1".to_string(), headers: Headers::new(), body: None }
}

/// A handler that answers with its own number.
pub fn handler(id: usize) -> HttpHandler {
    Box::new(move |_| Response::from_status(StatusCode::ExtensionCode(1000 + id)))
}

fn seg(g: &mut Gen) -> String {
    let atoms = ["a", "b", "ab", "aa", "/", "", "é", "c", "~", " ", "ñandú", "z", "A", "0"];
    let n = g.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.pick::<&str>(&atoms));
    }
    s
}

pub fn route(g: &mut Gen) -> String {
    let n = g.below(4);
    let mut s = String::from("/");
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        s.push_str(&seg(g));
    }
    if g.chance(3) {
        s = "x".to_string() + &s;
    }
    if g.chance(3) {
        s.push_str(&"q".repeat(g.range(20, 300)));
    }
    s
}

#[cfg(wruster_verif)]
fn routes(g: &mut Gen) -> Done {
    let router = Router::new();
    let mut model: HashMap<Vec<u8>, [Option<usize>; 9]> = HashMap::new();
    let mut known: Vec<String> = Vec::new();
    let n = g.range(1, 12);
    let mut desc = String::new();
    for id in 0..n {
        let r = if !known.is_empty() && g.chance(45) {
            let base = g.pick(&known).clone();
            match g.below(3) {
                0 => base,
                1 => base.clone() + &seg(g),
                _ => {
                    let k = g.below(base.chars().count()) + 1;
                    base.chars().take(k).collect()
                }
            }
        } else {
            route(g)
        };
        if r.is_empty() {
            continue;
        }
        let m = g.below(9);
        desc.push_str(&format!("add({:?},{:?},#{}) ", r, METHODS[m], id));
        router.add(&r, METHODS[m], handler(id));
        model.entry(r.as_bytes().to_vec()).or_insert([None; 9])[m] = Some(id);
        known.push(r);
        g.note(desc.clone());
        // Query between the additions.
        for _ in 0..g.range(1, 6) {
            let q = match g.below(5) {
                0 => route(g),
                1 => g.pick(&known).clone(),
                2 => {
                    let b = g.pick(&known).clone();
                    b + &seg(g)
                }
                3 => {
                    let b = g.pick(&known).clone();
                    b + "/" + &seg(g)
                }
                _ => {
                    let b = g.pick(&known).clone();
                    let k = g.below(b.chars().count() + 1);
                    b.chars().take(k).collect()
                }
            };
            let mi = if g.chance(50) { m } else { g.below(9) };
            let mut want = None;
            for k in (1..=q.len()).rev() {
                if let Some(hs) = model.get(&q.as_bytes()[..k]) {
                    want = hs[mi];
                    break;
                }
            }
            g.note(format!("{} get({:?},{:?})", desc, q, METHODS[mi]));
            let got = verif::resolve(&router, &q, METHODS[mi]).map(|h| match h(&mut request(METHODS[mi], &q)).status {
                StatusCode::ExtensionCode(c) => c - 1000,
                _ => usize::MAX,
            });
            if got != want {
                return g.done(true, Some(format!("resolved {:?}, expected {:?}", got, want)));
            }
        }
    }
    g.done(model.len() > 1, None)
}

/// The normalized form of a path, written from the statement of C02.
fn normal_form(uri: &str) -> Option<String> {
    if !uri.starts_with('/') {
        return None;
    }
    let mut segs: Vec<&str> = Vec::new();
    for s in uri.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                segs.pop()?;
            }
            s => segs.push(s),
        }
    }
    Some(format!("/{}", segs.join("/")))
}

fn wild_path(g: &mut Gen) -> String {
    let atoms = [
        "a", "b", "..", ".", "", "...", "a.", ".a", "..a", "a..", "é", "%2e%2e", " ", "c", "ab", "\\", "..\\", "?", "#", "~", "a?x=1", "\u{0}", "\u{1F600}",
    ];
    let mut s = String::new();
    match g.below(20) {
        0 => {}
        1 => s.push_str("."),
        2 => s.push_str("*"),
        3 => s.push_str("http:/"),
        _ => s.push('/'),
    }
    let n = g.below(8);
    for i in 0..n {
        if i > 0 {
            s.push('/');
            if g.chance(10) {
                s.push('/');
            }
        }
        s.push_str(if g.chance(45) { *g.pick(&["a", "b", "..", "."]) } else { *g.pick(&atoms[..]) });
    }
    if g.chance(25) {
        s.push('/');
    }
    if g.chance(2) {
        s = s + &"/zz".repeat(g.range(50, 400)) + &"/..".repeat(g.range(0, 420));
    }
    s
}

#[cfg(wruster_verif)]
fn dispatch(g: &mut Gen) -> Done {
    let router = Router::new();
    let seen: Arc<Mutex<Vec<(usize, String, HttpMethod, usize)>>> = Arc::new(Mutex::new(Vec::new()));
    let mut model: HashMap<Vec<u8>, [Option<usize>; 9]> = HashMap::new();
    let mut desc = String::new();
    for id in 0..g.range(0, 5) {
        let r = match g.below(4) {
            0 => "/".to_string(),
            1 => wild_path(g),
            _ => match normal_form(&wild_path(g)) {
                Some(r) => r,
                None => "/a/".to_string(),
            },
        };
        if r.is_empty() {
            continue;
        }
        let m = if g.chance(60) { 0 } else { g.below(9) };
        desc.push_str(&format!("add({:?},{:?},#{}) ", r, METHODS[m], id));
        let log = Arc::clone(&seen);
        router.add(
            &r,
            METHODS[m],
            Box::new(move |q: &mut Request| {
                log.lock().unwrap().push((id, q.uri.clone(), q.method, q.headers.iter().count()));
                q.uri.push_str("#changed");
                Response::from_status(StatusCode::ExtensionCode(1000 + id))
            }),
        );
        model.entry(r.as_bytes().to_vec()).or_insert([None; 9])[m] = Some(id);
    }
    let routes = Arc::new(router);
    let mut nontrivial = false;
    for _ in 0..g.range(1, 8) {
        let uri = wild_path(g);
        let m = if g.chance(70) { 0 } else { g.below(9) };
        g.note(format!("{} request({:?},{:?})", desc, METHODS[m], uri));
        let mut q = request(METHODS[m], &uri);
        q.headers.add(wruster::http::headers::Header { name: "X-Y".into(), value: "z".into() });
        seen.lock().unwrap().clear();
        let resp = verif::run_action(&mut q, Arc::clone(&routes));
        let calls = seen.lock().unwrap().clone();
        let form = normal_form(&uri);
        let got = verif::normalize(&std::path::PathBuf::from(&uri)).map(|p| p.to_str().unwrap().to_string());
        if got != form {
            return g.done(true, Some(format!("normalized to {:?}, expected {:?}", got, form)));
        }
        let (status, want) = match &form {
            None => (500, None),
            Some(p) => {
                let mut h = None;
                for k in (1..=p.len()).rev() {
                    if let Some(hs) = model.get(&p.as_bytes()[..k]) {
                        h = hs[m];
                        break;
                    }
                }
                match h {
                    None => (404, None),
                    Some(id) => (1000 + id, Some((id, p.clone(), METHODS[m], 1))),
                }
            }
        };
        let code = match resp.status {
            StatusCode::ExtensionCode(c) => c,
            StatusCode::NotFound => 404,
            StatusCode::InternalServerError => 500,
            _ => 0,
        };
        let want_calls: Vec<_> = want.iter().cloned().collect();
        if calls != want_calls {
            return g.done(true, Some(format!("the handlers called are {:?}, expected {:?}", calls, want_calls)));
        }
        if code != status {
            return g.done(true, Some(format!("status {:?}, expected {}", resp.status, status)));
        }
        let after = match &want {
            None => uri.clone(),
            Some((_, p, _, _)) => p.clone() + "#changed",
        };
        if q.uri != after || q.method != METHODS[m] || q.version != "HTTP/1.1" || q.headers.iter().count() != 1 {
            return g.done(true, Some(format!("the request afterwards has the uri {:?}, expected {:?}", q.uri, after)));
        }
        nontrivial |= want.is_some();
    }
    g.done(nontrivial, None)
}

/// Without the hook: the requests are sent to a server.
#[cfg(not(wruster_verif))]
fn served(g: &mut Gen, wild: bool) -> Done {
    use std::io::{Read, Write};
    let router = Router::new();
    let mut model: HashMap<Vec<u8>, [Option<usize>; 9]> = HashMap::new();
    let mut known: Vec<String> = vec![];
    let mut desc = String::new();
    let seen: Arc<Mutex<Vec<(usize, String)>>> = Default::default();
    let plain = |g: &mut Gen| loop {
        let p = if wild { wild_path(g) } else { route(g) };
        if !p.is_empty() && p.chars().all(|c| !c.is_control() && !c.is_whitespace()) {
            return p;
        }
    };
    for id in 0..g.range(1, 8) {
        let r = match g.below(3) {
            0 if !known.is_empty() => {
                let b = g.pick(&known).clone();
                let k = g.below(b.chars().count()) + 1;
                b.chars().take(k).collect()
            }
            1 if !known.is_empty() => g.pick(&known).clone() + "b",
            _ => {
                let p = plain(g);
                normal_form(&p).unwrap_or(p)
            }
        };
        let m = if g.chance(60) { 0 } else { g.below(9) };
        desc.push_str(&format!("add({:?},{:?},#{}) ", r, METHODS[m], id));
        let log = Arc::clone(&seen);
        router.add(
            &r,
            METHODS[m],
            Box::new(move |q: &mut Request| {
                log.lock().unwrap().push((id, q.uri.clone()));
                Response::from_status(StatusCode::Accepted)
            }),
        );
        model.entry(r.as_bytes().to_vec()).or_insert([None; 9])[m] = Some(id);
        known.push(r);
    }
    g.note(desc.clone());
    let long = std::time::Duration::from_secs(15);
    let at = crate::oracles::net::free();
    let mut server = wruster::Server::from_timeouts(wruster::Timeouts { read_request_timeout: long, write_response_timeout: long });
    if server.run(&at.to_string(), router).is_err() {
        return g.done(false, None);
    }
    let mut bad = None;
    let mut nontrivial = false;
    for _ in 0..g.range(1, 10) {
        let uri = match g.below(3) {
            0 => plain(g),
            1 => g.pick(&known).clone() + "/c",
            _ => g.pick(&known).clone(),
        };
        let form = normal_form(&uri);
        if !wild && form.as_ref() != Some(&uri) {
            continue;
        }
        let m = if g.chance(70) { 0 } else { g.below(9) };
        if METHODS[m] == HttpMethod::CONNECT {
            continue;
        }
        g.note(format!("{} request({:?},{:?})", desc, METHODS[m], uri));
        let want = form.as_ref().and_then(|p| (1..=p.len()).rev().find_map(|k| model.get(&p.as_bytes()[..k])).and_then(|h| h[m]));
        let status = match (&form, want) {
            (None, _) => "500",
            (_, None) => "404",
            _ => "202",
        };
        seen.lock().unwrap().clear();
        let Ok(mut c) = std::net::TcpStream::connect(at) else { continue };
        let _ = c.set_read_timeout(Some(long));
        let method = format!("{:?}", METHODS[m]);
        let mut got = vec![];
        let sent = c.write_all(format!("{} {} HTTP/1.1\r\nConnection: close\r\n\r\n", method, uri).as_bytes()).and_then(|_| c.read_to_end(&mut got));
        let text = String::from_utf8_lossy(&got).to_string();
        let code = text.split(' ').nth(1).unwrap_or("").to_string();
        let calls = seen.lock().unwrap().clone();
        let want_calls: Vec<_> = want.iter().map(|id| (*id, form.clone().unwrap())).collect();
        if code != status || calls != want_calls || sent.is_err() {
            bad = Some(format!("{:?}: status {:?} and handlers called {:?}, expected {} and {:?}", sent, code, calls, status, want_calls));
            break;
        }
        nontrivial |= want.is_some();
    }
    let _ = server.shutdown();
    g.done(nontrivial, bad)
}

#[cfg(not(wruster_verif))]
fn routes(g: &mut Gen) -> Done {
    served(g, false)
}

#[cfg(not(wruster_verif))]
fn dispatch(g: &mut Gen) -> Done {
    served(g, true)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C01",
        name: "routes",
        rule: "random sequences of route registrations (prefixes, extensions and repetitions of each other, with non ASCII bytes) and queries; the handler resolved is compared with the one of the longest registered prefix; non trivial: at least two different routes",
        weight: 1,
        max: 0,
        limit_ms: 20000,
        run: routes,
    },
    Oracle {
        prop: "C02",
        name: "dispatch",
        rule: "random routes and request uris made of plain, empty, dot and dot-dot segments (relative and climbing ones included); run_action is compared with a normalization and a longest prefix resolution written apart: handler called, uri it sees, status, request left; non trivial: at least one request reaches a handler",
        weight: 1,
        max: 0,
        limit_ms: 20000,
        run: dispatch,
    }]
}

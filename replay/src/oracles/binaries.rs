//! C26 and C27: the programs wrusdummy and wrustatic, run as processes of their own.
use crate::gen::Gen;
use crate::oracles::net;
use crate::{Done, Oracle};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream, ToSocketAddrs};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(12);

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("vbin-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn file(&self, name: &str, content: &[u8]) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, content).unwrap();
        p.to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A running program, that is killed when it is dropped.
struct Running(Child);
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn start(g: &mut Gen, name: &str, args: &[String], from: &Path) -> Running {
    let exe = std::env::current_exe().unwrap().with_file_name(name);
    let level = *g.pick(&["", "error", "debug"]);
    let c = Command::new(&exe).args(args).current_dir(from).env("RUST_LOG", level).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    match c {
        Ok(c) => Running(c),
        Err(e) => net::give_up(e),
    }
}

/// How it ended, when it does.
fn end(r: &mut Running) -> Option<ExitStatus> {
    let t = Instant::now();
    while t.elapsed() < PATIENCE {
        if let Ok(Some(s)) = r.0.try_wait() {
            return Some(s);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    None
}

/// Connects to it, once it listens.
fn connect(r: &mut Running, at: SocketAddr) -> Result<TcpStream, String> {
    let t = Instant::now();
    loop {
        match TcpStream::connect_timeout(&at, PATIENCE) {
            Ok(s) => {
                s.set_read_timeout(Some(PATIENCE)).map_err(|e| e.to_string())?;
                s.set_write_timeout(Some(PATIENCE)).map_err(|e| e.to_string())?;
                return Ok(s);
            }
            Err(e) => {
                if let Ok(Some(s)) = r.0.try_wait() {
                    return Err(format!("it ended: {}", s));
                }
                if t.elapsed() > PATIENCE {
                    return Err(format!("it does not listen: {}", e));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// A free address, and how it is given: some times by the name of the host.
fn place(g: &mut Gen) -> (SocketAddr, String) {
    if g.chance(15) {
        let a = std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr());
        if let Ok(a) = a {
            let named = format!("localhost:{}", a.port());
            if named.to_socket_addrs().ok().and_then(|mut l| l.next()) == Some(a) {
                return (a, named);
            }
        }
    }
    let a = net::free();
    (a, a.to_string())
}

/// Its address has not been taken by another program.
fn is_free(at: SocketAddr) -> bool {
    std::net::TcpListener::bind(at).is_ok()
}

struct Got {
    status: String,
    fields: Vec<(String, String)>,
    body: Vec<u8>,
}
impl Got {
    fn all(&self, name: &str) -> Vec<&str> {
        self.fields.iter().filter(|f| f.0.eq_ignore_ascii_case(name)).map(|f| f.1.as_str()).collect()
    }
}

/// Sends a request, the last of the connection, and reads its response.
fn ask(mut s: impl Read + Write, method: &str, path: &str, body: usize) -> Result<Got, String> {
    let mut q = format!("{} {} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n", method, path);
    if body > 0 {
        q.push_str(&format!("Content-Length: {}\r\n\r\n{}", body, "b".repeat(body)));
    } else {
        q.push_str("\r\n");
    }
    s.write_all(q.as_bytes()).and_then(|_| s.flush()).map_err(|e| format!("a request can not be sent: {}", e))?;
    let mut all = vec![];
    let mut b = [0; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => break,
            Ok(n) => all.extend_from_slice(&b[..n]),
            // The end of a TLS session without a notice.
            Err(_) if !all.is_empty() => break,
            Err(e) => return Err(format!("no response: {}", e)),
        }
    }
    let p = all.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no response but {:?}", String::from_utf8_lossy(&all)))?;
    let head = String::from_utf8_lossy(&all[..p]).to_string();
    let mut lines = head.split("\r\n");
    let status = lines.next().unwrap_or("").to_string();
    let fields = lines.filter_map(|l| l.split_once(':')).map(|(n, v)| (n.to_string(), v.trim().to_string())).collect();
    Ok(Got { status, fields, body: all[p + 4..].to_vec() })
}

#[derive(Clone)]
struct Route {
    path: String,
    method: String,
    status: u16,
    content: String,
    content_type: String,
}

/// A text between quotes, in YAML.
fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const METHODS: [&str; 9] = ["GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"];
const PATHS: [&str; 12] = ["/", "/a", "/a/b", "/ab", "/a/b/c.txt", "/é", "/static/", "/A", "/a%20b", "/zz", "/a*", "/a/:b"];
const TYPES: [&str; 5] = ["text/plain", "application/json", "text/html; charset=utf-8", "image/png", "application/x-thing+xml"];

fn content(g: &mut Gen) -> String {
    let n = [0, 1, g.range(2, 30), g.range(31, 300), g.range(8000, 70000)][if g.chance(8) { 4 } else { g.below(4) }];
    let letters: Vec<char> = "abc \n\r\t\"\\{}:#é€𝄞0'-%\u{1}".chars().collect();
    (0..n).map(|_| *g.pick(&letters)).collect()
}

fn dummy(g: &mut Gen) -> Done {
    let dir = Dir::new();
    let n = [0, 1, g.range(1, 4), g.range(3, 14)][g.below(4)];
    let mut routes: BTreeMap<String, Route> = BTreeMap::new();
    for i in 0..n {
        let r = Route {
            path: g.pick(&PATHS).to_string(),
            method: if g.chance(50) { METHODS[g.below(3)] } else { *g.pick(&METHODS) }.to_string(),
            status: [200, 201, 404, 500, 299, g.range(100, 999) as u16][g.below(6)],
            content: content(g),
            content_type: g.pick(&TYPES).to_string(),
        };
        if !routes.values().any(|o| o.path == r.path && o.method == r.method) {
            routes.insert(["r", "all gets", "x:y", "é", "0"][g.below(5)].to_string() + &i.to_string(), r);
        }
    }
    let wrong = if g.chance(40) { g.range(1, 12) } else { 0 };
    // What is wrong is in one of the routes, of many.
    let mut bad_key = None;
    if (3..=7).contains(&wrong) {
        let k = format!("bad{}", g.below(100));
        let mut r = Route { path: "/bad".into(), method: "GET".into(), status: 200, content: "x".into(), content_type: "text/plain".into() };
        match wrong {
            3 => r.method = g.pick(&["get", "FOO", "", "GET ", "GETS"]).to_string(),
            4 => r.content_type = g.pick(&["nope", "", "text", "/plain", "text plain"]).to_string(),
            _ => {}
        }
        bad_key = Some(k.clone());
        routes.insert(k, r);
    }
    let mut text = String::new();
    for (k, r) in &routes {
        let bad = bad_key.as_ref() == Some(k);
        text.push_str(&format!("{}:\n", quoted(k)));
        text.push_str(&format!("  path: {}\n", quoted(&r.path)));
        if !(bad && wrong == 5) {
            text.push_str(&format!("  method: {}\n", quoted(&r.method)));
        }
        text.push_str("  response:\n");
        text.push_str(&format!("    status: {}\n", if bad && wrong == 6 { "70000".to_string() } else { r.status.to_string() }));
        if !(bad && wrong == 7) {
            text.push_str(&format!("    content: {}\n", quoted(&r.content)));
        }
        text.push_str(&format!("    {}: {}\n", if g.chance(70) { "type" } else { "content_type" }, quoted(&r.content_type)));
    }
    if routes.is_empty() {
        text.push_str("{}\n");
    }
    if wrong == 8 {
        text.push_str("\"unfinished: [\n");
    }
    let file = dir.file(*g.pick(&["routes.yaml", "a b", "é.yml"]), text.as_bytes());
    let mut used = None;
    let (at, named) = if wrong == 9 {
        let l = net::listen();
        let a = l.local_addr().unwrap();
        used = Some(l);
        (a, a.to_string())
    } else {
        place(g)
    };
    // Its directory is the one it starts in.
    let file = if g.chance(30) { Path::new(&file).file_name().unwrap().to_str().unwrap().to_string() } else { file };
    let mut args = vec![named, file.clone()];
    match wrong {
        1 => args[1] = dir.0.join("missing.yaml").to_str().unwrap().to_string(),
        2 => args[1] = dir.0.to_str().unwrap().to_string(),
        10 => {
            args.pop();
        }
        11 => {
            let at = g.range(0, 2);
            args.insert(at, [file.clone(), "more".into(), String::new(), "--help".into()][g.below(4)].clone())
        }
        12 => args[0] = "not an address".into(),
        _ => {}
    }
    g.note(format!("wrusdummy {:?} with {}{}", args, if text.len() < 700 { format!("{:?}", text) } else { format!("{} routes", routes.len()) }, if wrong == 9 { ", its address in use" } else { "" }));
    let mut p = start(g, "wrusdummy", &args, &dir.0);
    if wrong > 0 {
        let bad = match end(&mut p) {
            None => Some("it did not end".to_string()),
            Some(s) if s.success() => Some("it ended well".to_string()),
            Some(_) => None,
        };
        drop(used);
        return g.done(true, bad);
    }
    if let Err(e) = connect(&mut p, at) {
        if !is_free(at) {
            return g.done(false, None);
        }
        return g.done(true, Some(e));
    }
    let mut asked = 0;
    let mut probes: Vec<(String, String)> = routes.values().map(|r| (r.method.clone(), r.path.clone())).collect();
    // A route answers the same any number of times.
    if g.chance(50) {
        probes.extend(probes.clone());
    }
    for _ in 0..g.range(3, 12) {
        let more = *g.pick(&["", "", "/x", "x", "/b", "?q=1", "/../zz"]);
        probes.push((g.pick(&METHODS).to_string(), format!("{}{}", g.pick(&PATHS), more)));
    }
    for (m, path) in probes {
        // The form of the path that is routed.
        let mut segs: Vec<&str> = vec![];
        let mut above = false;
        for s in path.split('/') {
            match s {
                "" | "." => {}
                ".." => above |= segs.pop().is_none(),
                s => segs.push(s),
            }
        }
        if above {
            continue;
        }
        let normal = format!("/{}", segs.join("/"));
        let longest = routes.values().filter(|r| normal.as_bytes().starts_with(r.path.as_bytes())).map(|r| r.path.len()).max();
        let want = routes.values().find(|r| Some(r.path.len()) == longest && normal.as_bytes().starts_with(r.path.as_bytes()) && r.method == m);
        let s = match connect(&mut p, at) {
            Ok(s) => s,
            Err(e) => return g.done(true, Some(format!("{} {}: {}", m, path, e))),
        };
        let got = match ask(s, &m, &path, [0, 0, 0, 5, 3000][g.below(5)]) {
            Ok(r) => r,
            Err(e) => return g.done(true, Some(format!("{} {}: {}", m, path, e))),
        };
        asked += 1;
        let status = got.status.split(' ').nth(1).unwrap_or("").to_string();
        let fault = match want {
            None if status != "404" => Some(format!("is answered with {:?} and is of no route", got.status)),
            None => None,
            Some(r) => {
                if status != r.status.to_string() {
                    Some(format!("is answered with {:?} and not with {}", got.status, r.status))
                } else if got.body != r.content.as_bytes() {
                    Some(format!("is answered with {} bytes that are not the {} of the content", got.body.len(), r.content.len()))
                } else if got.all("Content-Type") != [r.content_type.as_str()] {
                    Some(format!("is answered with the types {:?} and not {}", got.all("Content-Type"), r.content_type))
                } else if got.all("Content-Length") != [r.content.len().to_string()] {
                    Some(format!("is answered with the lengths {:?} and not {}", got.all("Content-Length"), r.content.len()))
                } else {
                    None
                }
            }
        };
        if let Some(f) = fault {
            return g.done(true, Some(format!("{} {} {}", m, path, f)));
        }
    }
    if let Ok(Some(s)) = p.0.try_wait() {
        return g.done(true, Some(format!("it ended: {}", s)));
    }
    g.done(!routes.is_empty() && asked > 0, None)
}

fn secure(s: TcpStream, roots: &Path) -> Result<rustls::StreamOwned<rustls::ClientConnection, TcpStream>, String> {
    let pem = std::fs::read(roots).map_err(|e| e.to_string())?;
    let cert = rustls_pemfile::certs(&mut &pem[..]).map_err(|e| e.to_string())?.remove(0);
    let mut store = rustls::RootCertStore::empty();
    store.add(&rustls::Certificate(cert)).map_err(|e| e.to_string())?;
    let config = rustls::ClientConfig::builder().with_safe_defaults().with_root_certificates(store).with_no_client_auth();
    let c = rustls::ClientConnection::new(Arc::new(config), "localhost".try_into().unwrap()).map_err(|e| e.to_string())?;
    Ok(rustls::StreamOwned::new(c, s))
}

fn statics(g: &mut Gen) -> Done {
    let dir = Dir::new();
    std::fs::create_dir_all(dir.0.join("www/sub dir")).unwrap();
    std::fs::create_dir_all(dir.0.join("www/deep/er")).unwrap();
    std::fs::create_dir_all(dir.0.join("other")).unwrap();
    let mut files: Vec<(String, Vec<u8>, &str)> = vec![];
    for (name, t) in [("index.html", "text/html"), ("a.txt", "text/plain"), ("sub dir/x.json", "application/json"), ("deep/er/x.css", "text/css"), ("é.bin", "application/octet-stream")] {
        if g.chance(75) {
            let n = [0, 1, g.range(2, 400), g.range(3000, 50000)][g.below(4)];
            let d = g.bytes(n);
            dir.file(&format!("www/{}", name), &d);
            files.push((name.to_string(), d, t));
        }
    }
    dir.file("other/a.txt", b"another directory");
    dir.file("secret.txt", b"above the directory");
    let key = dir.file("the key.pem", &std::fs::read("/repo/wruster/tests/certs/key.pem").unwrap());
    let cert = dir.file("the cert.pem", &std::fs::read("/repo/wruster/tests/certs/cert.pem").unwrap());
    let tls = g.chance(50);
    let wrong = if g.chance(40) { g.range(1, 12) } else { 0 };
    let mut used = None;
    let (at, named) = if wrong == 1 {
        let l = net::listen();
        let a = l.local_addr().unwrap();
        used = Some(l);
        (a, a.to_string())
    } else {
        place(g)
    };
    let www = match g.below(6) {
        0 => "www".to_string(),
        1 => "./www/".to_string(),
        2 => "other/../www".to_string(),
        _ => dir.0.join("www").to_str().unwrap().to_string(),
    };
    // It can start in the directory it serves.
    let inside = g.chance(15);
    let www = if inside { g.pick(&[".", "./", "../www"]).to_string() } else { www };
    let mut args = vec![named, www];
    let missing = dir.0.join("missing").to_str().unwrap().to_string();
    let junk = dir.file("junk.pem", &[&b"-----BEGIN CERTIFICATE-----\nnot base64 !\n-----END CERTIFICATE-----\n"[..], b"hello", b""][g.below(3)]);
    let both = dir.file("both.pem", &[std::fs::read(&key).unwrap(), std::fs::read(&cert).unwrap()].concat());
    let opts: Vec<(&str, String)> = match wrong {
        2 => vec![("--tls-private", if g.chance(50) { key.clone() } else { both })],
        3 => vec![("--tls-cert", if g.chance(50) { cert.clone() } else { both })],
        4 => vec![("--tls-private", missing.clone()), ("--tls-cert", cert.clone())],
        5 => vec![("--tls-private", key.clone()), ("--tls-cert", missing)],
        6 => vec![("--tls-private", junk.clone()), ("--tls-cert", cert.clone())],
        7 => vec![("--tls-private", key.clone()), ("--tls-cert", junk)],
        8 => vec![("--tls-private", cert.clone()), ("--tls-cert", key.clone())],
        _ if tls => vec![("--tls-private", key.clone()), ("--tls-cert", cert.clone())],
        _ => vec![],
    };
    match wrong {
        9 => {
            args.pop();
        }
        10 => args.push("more".into()),
        11 => args[0] = "not an address".into(),
        12 => args.push("--unknown".into()),
        _ => {}
    }
    let mut o: Vec<String> = vec![];
    for (n, v) in &opts {
        if g.chance(50) {
            o.push(n.to_string());
            o.push(v.clone());
        } else {
            o.push(format!("{}={}", n, v));
        }
    }
    if g.chance(50) {
        args.extend(o);
    } else {
        args.splice(0..0, o);
    }
    g.note(format!("wrustatic {:?} with the files {:?}{}", args, files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>(), if wrong == 1 { ", its address in use" } else { "" }));
    let mut p = start(g, "wrustatic", &args, &if inside { dir.0.join("www") } else { dir.0.clone() });
    if wrong > 0 {
        let bad = match end(&mut p) {
            None => Some("it did not end".to_string()),
            Some(s) if s.success() => Some("it ended well".to_string()),
            Some(_) => None,
        };
        drop(used);
        return g.done(true, bad);
    }
    if let Err(e) = connect(&mut p, at) {
        if !is_free(at) {
            return g.done(false, None);
        }
        return g.done(true, Some(e));
    }
    let mut probes: Vec<(String, String, Option<usize>)> = vec![];
    for (i, f) in files.iter().enumerate() {
        if !f.0.contains(' ') {
            probes.push(("GET".into(), format!("/{}", f.0), Some(i)));
            if g.chance(50) {
                probes.push((g.pick(&METHODS[1..]).to_string(), format!("/{}", f.0), None));
            }
        }
    }
    for p in ["/", "/sub", "/none.txt", "/../secret.txt", "/secret.txt", "/other/a.txt", "/the"] {
        if g.chance(40) {
            let m = if g.chance(70) { "GET" } else { *g.pick(&METHODS) };
            probes.push((m.into(), p.into(), None));
        }
    }
    // What a file has can change between two requests.
    let again: Vec<_> = if g.chance(50) { probes.iter().filter(|p| p.2.is_some()).cloned().collect() } else { vec![] };
    let changes = probes.len();
    probes.extend(again);
    for (i, (m, path, want)) in probes.iter().enumerate() {
        if i == changes {
            for f in files.iter_mut() {
                let n = g.range(0, 500);
                f.1 = g.bytes(n);
                dir.file(&format!("www/{}", f.0), &f.1);
            }
        }
        let s = match connect(&mut p, at) {
            Ok(s) => s,
            Err(e) => return g.done(true, Some(format!("{} {}: {}", m, path, e))),
        };
        let got = if tls { secure(s, Path::new(&cert)).and_then(|s| ask(s, m, path, 0)) } else { ask(s, m, path, 0) };
        let got = match got {
            Ok(r) => r,
            Err(e) => return g.done(true, Some(format!("{} {}: {}", m, path, e))),
        };
        let status = got.status.split(' ').nth(1).unwrap_or("").to_string();
        let fault = match want {
            None if status == "404" || (status == "500" && path.contains("..")) => None,
            None => Some(format!("is answered with {:?}", got.status)),
            Some(i) => {
                let f = &files[*i];
                if status != "200" {
                    Some(format!("is answered with {:?}", got.status))
                } else if got.body != f.1 {
                    Some(format!("is answered with {} bytes that are not the {} of the file", got.body.len(), f.1.len()))
                } else if got.all("Content-Length") != [f.1.len().to_string()] {
                    Some(format!("is answered with the lengths {:?} and not {}", got.all("Content-Length"), f.1.len()))
                } else if got.all("Content-Type") != [f.2] {
                    Some(format!("is answered with the types {:?} and not {}", got.all("Content-Type"), f.2))
                } else {
                    None
                }
            }
        };
        if let Some(f) = fault {
            return g.done(true, Some(format!("{} {} {}", m, path, f)));
        }
    }
    if tls {
        // Nothing is told to who does not use TLS.
        if let Ok(s) = connect(&mut p, at) {
            if let Ok(r) = ask(s, "GET", "/a.txt", 0) {
                return g.done(true, Some(format!("a request without TLS is answered with {:?}", r.status)));
            }
        }
    }
    if let Ok(Some(s)) = p.0.try_wait() {
        return g.done(true, Some(format!("it ended: {}", s)));
    }
    g.done(!files.is_empty(), None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![
        Oracle {
            prop: "C26",
            name: "dummy_server",
            rule: "the program wrusdummy with configurations of up to 14 routes of any method, status, content and type, or with something wrong in its arguments, file, routes or address; each route and other paths and methods are requested and compared with the configuration, and the exit status tells whether it failed; non trivial: something was answered, or refused",
            weight: 1,
            max: 0,
            limit_ms: 60000,
            run: dummy,
        },
        Oracle {
            prop: "C27",
            name: "static_server",
            rule: "the program wrustatic over a generated directory, plain or with a key and a certificate, or with something wrong in its arguments, files or address; files and other paths and methods are requested over the protocol that was asked for; non trivial: there are files, or it was refused",
            weight: 1,
            max: 0,
            limit_ms: 60000,
            run: statics,
        },
    ]
}

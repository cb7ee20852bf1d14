//! C18: the static handler.
use crate::gen::Gen;
use crate::oracles::router::request;
use crate::{Done, Oracle};
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use wruster::http::{HttpMethod, StatusCode};
use wruster_handlers::serve_static;

static COUNT: AtomicUsize = AtomicUsize::new(0);

/// A directory of its own, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vstatic-{}-{}", std::process::id(), n));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        Scratch(dir)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

enum Node {
    Dir(BTreeMap<String, Node>),
    File(Vec<u8>),
    Socket,
}

const NAMES: [&str; 38] = [
    "a", "b", "index.html", "a.txt", "style.css", "data.json", "x.png", "noext", "...", "..a", "a..", ".hidden", "a b.txt", "é.txt", "日本", "~", "%2e%2e", "\\", "c:",
    "A", "a.tar.gz", "*", "secret", "-", "a\nb", "x.HTML",
    "a%20b.txt", "a+b.txt", "%41", "q?x", "h#f", "a;b", " a", "a ", "e\u{301}.txt", "&amp;", "index.htm", "a\tb",
];

fn types(name: &str) -> Option<&'static str> {
    let ext = match name.rfind('.') {
        Some(i) if i > 0 => &name[i + 1..],
        _ => return Some("application/octet-stream"),
    };
    match ext.to_ascii_lowercase().as_str() {
        "html" => Some("text/html"),
        "txt" => Some("text/plain"),
        "css" => Some("text/css"),
        "json" => Some("application/json"),
        "png" => Some("image/png"),
        _ => None,
    }
}

fn fill(g: &mut Gen, at: &Path, depth: usize, all: &mut Vec<String>, at_uri: &str) -> BTreeMap<String, Node> {
    let mut m = BTreeMap::new();
    for _ in 0..g.range(0, 4) {
        let name = g.pick(&NAMES).to_string();
        if m.contains_key(&name) {
            continue;
        }
        let p = at.join(&name);
        let uri = format!("{}/{}", at_uri, name);
        all.push(uri.clone());
        let node = if depth < 3 && g.chance(35) {
            fs::create_dir(&p).unwrap();
            Node::Dir(fill(g, &p, depth + 1, all, &uri))
        } else if g.chance(4) {
            match std::os::unix::net::UnixListener::bind(&p) {
                Ok(_) => Node::Socket,
                Err(_) => continue,
            }
        } else {
            let n = match g.below(6) {
                0 => 0,
                1 => 1,
                2 => g.range(8000, 20000),
                _ => g.below(300),
            };
            let data = g.bytes(n);
            fs::write(&p, &data).unwrap();
            Node::File(data)
        };
        m.insert(name, node);
    }
    m
}

fn hostile(g: &mut Gen, all: &[String], outside: &str) -> String {
    let mut uri = if !all.is_empty() && g.chance(75) { g.pick(all).clone() } else { String::from("/") };
    for _ in 0..[0, 0, 0, 1, 1, 2, 3][g.below(7)] {
        match g.below(20) {
            0 => uri.push('/'),
            1 => uri.push_str("/."),
            2 => uri.push_str("/.."),
            3 => uri.push_str(&format!("/../{}", outside)),
            4 => uri = format!("/{}", uri),
            5 => uri = format!("/..{}", uri),
            6 => uri = format!("/.{}", uri),
            7 => uri = uri.replace('/', "//"),
            8 => uri.push('\0'),
            9 => uri.push_str(g.pick(&NAMES)),
            10 => uri.push_str(&format!("/{}", g.pick(&NAMES))),
            11 => uri.push_str(&"n".repeat(g.range(240, 5000))),
            12 => uri = uri.trim_start_matches('/').to_string(),
            13 => {
                let k = g.below(uri.chars().count() + 1);
                uri = uri.chars().take(k).collect();
            }
            14 => uri.push_str("?q=1"),
            15 => uri.push_str(g.pick(&["#f", ";p=1", "?", "#", "%00", "%2f..", " ", "%20"])),
            16 => uri = uri.replace(' ', g.pick(&["%20", "+"])),
            17 => {
                // A character as its code in hexadecimal.
                let k = g.below(uri.chars().count() + 1);
                uri = uri.chars().enumerate().map(|(i, c)| if i == k && c.is_ascii() { format!("%{:02x}", c as u32) } else { c.to_string() }).collect();
            }
            18 => uri = if g.chance(50) { uri.to_uppercase() } else { uri.to_lowercase() },
            _ => uri = uri.replacen('/', "/x/../", 1),
        }
    }
    if g.chance(3) {
        uri = ["", "/", "//", ".", "..", "/.", "/..", "/etc/passwd", "//etc/passwd", "\0", "/\0", "é", "*"][g.below(13)].to_string();
    }
    uri
}

/// The file that a uri names, None when there is none.
fn find<'a>(root: &'a BTreeMap<String, Node>, uri: &str) -> Option<(&'a Vec<u8>, String)> {
    let u = uri.strip_prefix('/').unwrap_or(uri);
    if u.is_empty() || u.starts_with('/') || u.contains('\0') || u.split('/').any(|s| s == "..") {
        return None;
    }
    let mut dir = Some(root);
    let mut last: Option<(&Node, String)> = None;
    for s in u.split('/') {
        let d = dir?;
        if s.is_empty() || s == "." {
            last = None;
            continue;
        }
        let n = d.get(s)?;
        dir = match n {
            Node::Dir(m) => Some(m),
            _ => None,
        };
        last = Some((n, s.to_string()));
    }
    match last {
        Some((Node::File(d), name)) => Some((d, name)),
        _ => None,
    }
}

fn files(g: &mut Gen) -> Done {
    let scratch = Scratch::new();
    let base = scratch.0.join("base");
    fs::create_dir(&base).unwrap();
    fs::write(scratch.0.join("secret"), b"outside").unwrap();
    fs::create_dir(scratch.0.join("based")).unwrap();
    fs::write(scratch.0.join("based").join("a"), b"outside too").unwrap();
    let mut all = vec![];
    let root = fill(g, &base, 0, &mut all, "");
    let dir = match g.below(4) {
        0 => format!("{}/", base.display()),
        1 => format!("{}/.", base.display()),
        2 => {
            let l = scratch.0.join("link");
            std::os::unix::fs::symlink(&base, &l).unwrap();
            l.display().to_string()
        }
        _ => base.display().to_string(),
    };
    let mut served = false;
    let outsides = ["secret", "based/a", "base/a"];
    for _ in 0..g.range(3, 10) {
        let outside = *g.pick(&outsides);
        let uri = hostile(g, &all, outside);
        let grow = g.below(10);
        let method = *g.pick(&[HttpMethod::GET, HttpMethod::GET, HttpMethod::POST]);
        g.note(format!("tree={:?} uri={:?} change={}", all, if uri.len() > 200 { format!("{}… ({} bytes)", uri.chars().take(60).collect::<String>(), uri.len()) } else { uri.clone() }, grow));
        let want = find(&root, &uri);
        let req = request(method, &uri);
        let r = serve_static(&dir, &req);
        let say = |s: String| Some(format!("uri {:?}: {}", uri.chars().take(80).collect::<String>(), s));
        let (data, name) = match want {
            None => {
                if !matches!(r.status, StatusCode::NotFound) {
                    return g.done(true, say(format!("names no file of the directory, but the response is {:?}", r.status)));
                }
                if r.body.is_some() {
                    return g.done(true, say("a response 404 with a body".into()));
                }
                continue;
            }
            Some(x) => x,
        };
        served = true;
        let status = format!("{:?}", r.status);
        if !matches!(r.status, StatusCode::OK) {
            return g.done(true, say(format!("names a file of {} bytes, but the response is {}", data.len(), status)));
        }
        let lens: Vec<String> = r.headers.get("Content-Length").cloned().unwrap_or_default();
        if lens != [data.len().to_string()] {
            return g.done(true, say(format!("a file of {} bytes, but Content-Length is {:?}", data.len(), lens)));
        }
        let t: Vec<String> = r.headers.get("Content-Type").cloned().unwrap_or_default();
        if t.len() != 1 || types(&name).map_or(false, |x| !(t[0] == x || t[0].starts_with(&format!("{};", x)))) {
            return g.done(true, say(format!("the content type is {:?}", t)));
        }
        let mut body = match r.body {
            Some(b) => b,
            None => return g.done(true, say("no body".into())),
        };
        if body.content_length != data.len() as u64 {
            return g.done(true, say(format!("a file of {} bytes, but the length of the body is {}", data.len(), body.content_length)));
        }
        if body.content_type.as_ref().map(|m| m.to_string()) != Some(t[0].clone()) {
            return g.done(true, say(format!("the type of the body is {:?}, not {:?}", body.content_type, t)));
        }
        // The file can change once the response is made.
        let mut expect = data.clone();
        if grow < 2 {
            let u = uri.strip_prefix('/').unwrap_or(&uri);
            let p = base.join(u);
            if grow == 0 {
                fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(b"more of it").unwrap();
            } else {
                let k = data.len() / 2;
                fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(k as u64).unwrap();
                expect.truncate(k);
            }
        }
        let mut got = vec![];
        let e = body.content.read_to_end(&mut got);
        if grow < 2 {
            let u = uri.strip_prefix('/').unwrap_or(&uri);
            fs::write(base.join(u), data).unwrap();
        }
        if e.is_err() || got != expect {
            return g.done(true, say(format!("a file of {} bytes gives {} bytes {:?}{}", expect.len(), got.len(), e, if got.len() == expect.len() { ", others" } else { "" })));
        }
    }
    g.done(served, None)
}

pub fn oracles() -> Vec<Oracle> {
    vec![Oracle {
        prop: "C18",
        name: "static_files",
        rule: "trees of files and directories (and sockets) in a scratch directory, uris that name them and hostile ones (\"..\", roots, NULs, long names, empty, trailing separators), served through a direct, dotted or linked directory; the status, headers and content must be those of a model of the tree, also when the file grows or shrinks before it is sent",
        weight: 1,
        max: 0,
        limit_ms: 10000,
        run: files,
    }]
}

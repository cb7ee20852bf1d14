//! vx: mechanical extraction of functions of /repo into a Verus file.
//!
//!   vx UNIT.vu --repo /repo --out OUT.rs --map MAP.json
//!      [--base BASE.txt] [--record BASE.txt] [--degrade ID]... [--probe ID|all]...
//!
//! The unit file is Verus text plus directives (lines that start with '@').
//! The bodies of the functions come from the sources on every run; see
//! DESIGN.md for the complete list of rewrites.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;

mod edit;
mod find;
mod guards;
mod inline;

use edit::*;

#[derive(Default, Debug, Clone)]
pub struct FnDir {
    pub file: String,
    pub path: String,
    pub name: Option<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub attr: String,
    pub start: String,
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub closures_of: BTreeMap<String, String>,
    pub subs: Vec<(String, String, bool)>,
    pub opts: HashSet<String>,
    pub implhdr: Option<String>,
    pub params: Option<String>,
    pub id: String,
    pub line: usize,
}

enum Piece {
    Raw(String),
    Method(String, String),
    Path(String, String),
    Effect(String),
    Question(String),
    Fn(FnDir),
    Item { file: String, kind: String, name: String, opts: Vec<String>, subs: Vec<(String, String, bool)> },
}

pub struct Source {
    pub text: String,
    pub ast: syn::File,
}

fn die(msg: &str) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3);
}

fn parse_sub(rest: &str) -> Option<(String, String)> {
    // "a" => "b", with \" and \n escapes
    let mut out = Vec::new();
    let mut it = rest.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' {
            let mut s = String::new();
            while let Some(c) = it.next() {
                match c {
                    '\\' => match it.next() {
                        Some('n') => s.push('\n'),
                        Some(c) => s.push(c),
                        None => return None,
                    },
                    '"' => break,
                    c => s.push(c),
                }
            }
            out.push(s);
        }
    }
    if out.len() == 2 {
        let b = out.pop().unwrap();
        let a = out.pop().unwrap();
        Some((a, b))
    } else {
        None
    }
}

fn load_unit(path: &str, pieces: &mut Vec<Piece>, depth: usize, trusted: bool) {
    if depth > 5 {
        die("too many nested @use");
    }
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let mut raw = String::new();
    let mut lines = text.lines().enumerate().peekable();
    while let Some((lno, line)) = lines.next() {
        if !line.starts_with('@') {
            raw.push_str(line);
            raw.push('\n');
            continue;
        }
        let mut words = line.split_whitespace();
        let d = words.next().unwrap();
        match d {
            "@use" => {
                pieces.push(Piece::Raw(std::mem::take(&mut raw)));
                let f = words.next().unwrap();
                // `trusted`: the contracts of the functions are assumed here
                // (the unit that owns the file proves them).
                let t = words.next() == Some("trusted");
                load_unit(dir.join(f).to_str().unwrap(), pieces, depth + 1, trusted || t);
            }
            // Calls that take the ghost state of the world.
            // The axioms that tell what the question mark makes of an error.
            "@question" => {
                for w in words {
                    pieces.push(Piece::Question(w.to_string()));
                }
            }
            "@effect" => {
                for w in words {
                    pieces.push(Piece::Effect(w.to_string()));
                }
            }
            "@method" | "@path" => {
                let a = words.next().unwrap().to_string();
                let b = words.next().unwrap().to_string();
                pieces.push(if d == "@method" { Piece::Method(a, b) } else { Piece::Path(a, b) });
            }
            "@item" => {
                pieces.push(Piece::Raw(std::mem::take(&mut raw)));
                let file = words.next().unwrap().to_string();
                let kind = words.next().unwrap().to_string();
                let name = words.next().unwrap().to_string();
                let opts = words.map(|w| w.to_string()).collect();
                let mut subs = vec![];
                while let Some((_, l)) = lines.peek() {
                    if let Some(r) = l.strip_prefix(".sub ") {
                        let (a, b) = parse_sub(r).unwrap_or_else(|| die(&format!("bad .sub: {}", l)));
                        subs.push((a, b, true));
                        lines.next();
                    } else {
                        break;
                    }
                }
                pieces.push(Piece::Item { file, kind, name, opts, subs });
            }
            "@fn" => {
                pieces.push(Piece::Raw(std::mem::take(&mut raw)));
                let file = words.next().unwrap().to_string();
                let p = words.collect::<Vec<_>>().join(" ");
                let mut f = FnDir { file, path: p, line: lno + 1, ..Default::default() };
                if trusted {
                    f.opts.insert("external".into());
                }
                // section collector
                let mut cur: Option<(String, usize)> = None;
                loop {
                    let (ln, l) = lines.next().unwrap_or_else(|| die(&format!("{}:{}: missing @end", path, lno + 1)));
                    if l.trim() == "@end" {
                        break;
                    }
                    if let Some(rest) = l.strip_prefix('.') {
                        let mut w = rest.split_whitespace();
                        let k = w.next().unwrap().to_string();
                        let tail = rest[k.len()..].trim().to_string();
                        cur = None;
                        match k.as_str() {
                            "ret" => f.ret = Some(tail),
                            "name" => f.name = Some(tail),
                            "attr" => {
                                f.attr.push_str(&tail);
                                f.attr.push('\n')
                            }
                            "impl" => f.implhdr = Some(tail),
                            "params" => f.params = Some(tail),
                            "opts" => f.opts.extend(tail.split_whitespace().map(|s| s.to_string())),
                            "sub" | "sub?" => {
                                let (a, b) = parse_sub(&tail)
                                    .unwrap_or_else(|| die(&format!("{}:{}: bad .sub", path, ln + 1)));
                                f.subs.push((a, b, k == "sub"));
                            }
                            "closure" => {
                                // By its position, or the method it is given to.
                                let n = w.next().unwrap();
                                let r = tail.splitn(2, ' ').nth(1).unwrap_or("").to_string();
                                match n.parse::<usize>() {
                                    Ok(n) => { f.closures.insert(n, r); }
                                    Err(_) => { f.closures_of.insert(n.to_string(), r); }
                                }
                            }
                            "spec" | "start" => cur = Some((k, 0)),
                            "loop" | "loopstart" | "loopend" => {
                                let n: usize = w.next().unwrap().parse().unwrap();
                                let it = w.next().and_then(|s| s.strip_prefix("iter=").map(|s| s.to_string()).or_else(|| s.strip_prefix("index=").map(|s| format!("#{}", s))));
                                if k == "loop" {
                                    f.loops.insert(n, (it, String::new()));
                                }
                                cur = Some((k, n));
                            }
                            _ => die(&format!("{}:{}: unknown .{}", path, ln + 1, k)),
                        }
                        continue;
                    }
                    match &cur {
                        Some((k, n)) => {
                            let dst = match k.as_str() {
                                "spec" => &mut f.spec,
                                "start" => &mut f.start,
                                "loop" => &mut f.loops.get_mut(n).unwrap().1,
                                "loopstart" => f.loopstart.entry(*n).or_default(),
                                "loopend" => f.loopend.entry(*n).or_default(),
                                _ => unreachable!(),
                            };
                            dst.push_str(l);
                            dst.push('\n');
                        }
                        None => {
                            if !l.trim().is_empty() && !l.trim().starts_with("//") {
                                die(&format!("{}:{}: text outside of a section", path, ln + 1));
                            }
                        }
                    }
                }
                f.id = f.path.clone();
                pieces.push(Piece::Fn(f));
            }
            _ => die(&format!("{}:{}: unknown directive {}", path, lno + 1, d)),
        }
    }
    pieces.push(Piece::Raw(raw));
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut unit = String::new();
    let (mut repo, mut out, mut map) = (String::from("/repo"), String::new(), String::new());
    let (mut base, mut record) = (String::new(), String::new());
    let mut degrade: HashSet<String> = HashSet::new();
    let mut probe: HashSet<String> = HashSet::new();
    let mut i = 0;
    while i < args.len() {
        let nxt = || args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--repo" => repo = nxt(),
            "--out" => out = nxt(),
            "--map" => map = nxt(),
            "--base" => base = nxt(),
            "--record" => record = nxt(),
            "--degrade" => {
                degrade.insert(nxt());
            }
            "--probe" => {
                probe.insert(nxt());
            }
            a => {
                unit = a.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let mut pieces = Vec::new();
    load_unit(&unit, &mut pieces, 0, false);

    // Baseline of the local names, used to follow renames.
    let mut base_locals: HashMap<String, edit::Base> = HashMap::new();
    if !base.is_empty() {
        if let Ok(t) = fs::read_to_string(&base) {
            for l in t.lines() {
                let mut w = l.splitn(2, '\t');
                let id = w.next().unwrap_or("").to_string();
                base_locals.insert(id, edit::Base::parse(w.next().unwrap_or("")));
            }
        }
    }
    let mut recorded = String::new();

    let mut sources: HashMap<String, Result<Source, String>> = HashMap::new();
    let mut env = edit::Env { listed: HashSet::new(), methods: vec![], paths: vec![], effects: vec![], questions: vec![] };
    let mut all_raw = String::new();
    for p in &pieces {
        match p {
            Piece::Raw(r) => all_raw.push_str(r),
            Piece::Fn(f) => {
                env.listed.insert(find::last_name(&f.path));
            }
            Piece::Method(a, b) => env.methods.push((a.clone(), b.clone())),
            Piece::Path(a, b) => env.paths.push((a.clone(), b.clone())),
            Piece::Effect(a) => env.effects.push(a.clone()),
            Piece::Question(a) => env.questions.push(a.clone()),
            _ => {}
        }
        let file = match p {
            Piece::Fn(f) => &f.file,
            Piece::Item { file, .. } => file,
            _ => continue,
        };
        if !sources.contains_key(file) {
            let full = format!("{}/{}", repo, file);
            let r = match fs::read_to_string(&full) {
                Err(e) => Err(format!("{}: {}", full, e)),
                Ok(text) => match syn::parse_file(&text) {
                    Err(e) => Err(format!("{}: {}", full, e)),
                    Ok(ast) => Ok(Source { text, ast }),
                },
            };
            sources.insert(file.clone(), r);
        }
    }
    // Names defined by the prelude are never inlined.
    for w in all_raw.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect::<Vec<_>>().windows(2) {
        if w[0] == "fn" {
            env.listed.insert(w[1].to_string());
        }
    }

    let mut text = String::new();
    let mut recs: Vec<String> = Vec::new();
    for p in &pieces {
        match p {
            Piece::Raw(r) => text.push_str(r),
            Piece::Method(..) | Piece::Path(..) | Piece::Effect(..) | Piece::Question(..) => {}
            Piece::Item { file, kind, name, opts, subs } => {
                let lost = match &sources[file] {
                    Err(e) => Err(e.clone()),
                    Ok(src) => find::item(src, kind, name)
                        .map(|it| {
                            let mut s = emit_item(src, it, opts);
                            for (a, b, _) in subs {
                                if let Some(new) = edit::loose_replace(&s, a, b) {
                                    s = new;
                                }
                            }
                            s
                        })
                        .ok_or_else(|| "not found".to_string()),
                };
                let start = text.lines().count() + 1;
                let status = match &lost {
                    Ok(t) => {
                        text.push_str(t);
                        text.push('\n');
                        String::from("ok")
                    }
                    Err(e) => format!("lost: {}", e),
                };
                recs.push(format!(
                    "{{\"kind\":\"item\",\"id\":{},\"file\":{},\"out\":[{},{}],\"status\":{}}}",
                    jstr(&format!("{} {}", kind, name)),
                    jstr(file),
                    start,
                    text.lines().count(),
                    jstr(&status)
                ));
            }
            Piece::Fn(f) => {
                let start = text.lines().count() + 1;
                let mut notes: Vec<String> = Vec::new();
                let mut src_lines = (0, 0);
                let mut status = String::from("ok");
                match &sources[&f.file] {
                    Err(e) => status = format!("lost: {}", e),
                    Ok(src) => match find::function(src, &f.path) {
                        None => status = String::from("lost: function not found"),
                        Some(found) => {
                            src_lines = found.lines();
                            let blocals = base_locals.get(&f.id).cloned();
                            match emit_fn(src, &found, f, &env, blocals, degrade.contains(&f.id),
                                probe.contains(&f.id) || probe.contains("all"), &mut notes) {
                                Ok((t, now)) => {
                                    recorded.push_str(&format!("{}\t{}\n", f.id, now.print()));
                                    text.push_str(&t);
                                    text.push('\n');
                                    if degrade.contains(&f.id) {
                                        status = String::from("degraded");
                                    }
                                }
                                Err(e) => status = format!("lost: {}", e),
                            }
                        }
                    },
                }
                let clauses = f.spec.matches(',').count();
                let _ = clauses;
                let hasreq = f.spec.contains("requires");
                recs.push(format!(
                    "{{\"kind\":\"fn\",\"id\":{},\"file\":{},\"src\":[{},{}],\"out\":[{},{}],\"status\":{},\"external\":{},\"requires\":{},\"noprobe\":{},\"notes\":[{}]}}",
                    jstr(&f.id),
                    jstr(&f.file),
                    src_lines.0,
                    src_lines.1,
                    start,
                    text.lines().count(),
                    jstr(&status),
                    f.opts.contains("external"),
                    hasreq,
                    f.opts.contains("noprobe") || f.opts.contains("external"),
                    notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(",")
                ));
            }
        }
    }
    fs::write(&out, &text).unwrap_or_else(|e| die(&e.to_string()));
    if !record.is_empty() {
        fs::write(&record, recorded).unwrap();
    }
    if !map.is_empty() {
        fs::write(&map, format!("[\n{}\n]\n", recs.join(",\n"))).unwrap();
    }
}

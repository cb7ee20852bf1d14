use crate::find::{self, toks, Found};
use crate::inline;
use crate::{FnDir, Source};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

fn range<T: Spanned>(t: &T) -> std::ops::Range<usize> {
    t.span().byte_range()
}

fn remove_attrs(item: &mut Item) {
    use syn::visit_mut::VisitMut;
    struct A;
    impl VisitMut for A {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    A.visit_item_mut(item);
}

pub fn emit_item(_src: &Source, it: &Item, opts: &[String]) -> String {
    let mut it = it.clone();
    remove_attrs(&mut it);
    let vis: Visibility = parse_quote!(pub);
    match &mut it {
        Item::Struct(s) => {
            s.vis = vis.clone();
            for f in s.fields.iter_mut() {
                f.vis = vis.clone();
            }
        }
        Item::Enum(s) => s.vis = vis,
        Item::Const(s) => s.vis = vis,
        Item::Type(s) => s.vis = vis,
        Item::Trait(s) => s.vis = vis,
        _ => {}
    }
    let mut o = String::new();
    for p in opts {
        if let Some(d) = p.strip_prefix("derive=") {
            o.push_str(&format!("#[derive({})]\n", d));
        } else if let Some(d) = p.strip_prefix("attr=") {
            o.push_str(&format!("{}\n", d));
        }
    }
    if let Item::Enum(e) = &it {
        if opts.iter().any(|o| o == "nodisc") {
            let mut e = e.clone();
            for v in e.variants.iter_mut() {
                v.discriminant = None;
            }
            o.push_str(&e.to_token_stream().to_string());
            return o;
        }
    }
    o.push_str(&it.to_token_stream().to_string());
    o
}

/// Whether an expression calls something else than what only reads.
struct Calls(bool);
impl<'b> Visit<'b> for Calls {
    fn visit_expr(&mut self, e: &'b Expr) {
        const READS: [&str; 19] = [
            "to_string", "len", "is_empty", "as_str", "as_ref", "as_bytes", "clone", "kind", "source", "display", "id", "name", "peer_addr", "local_addr", "is_some",
            "is_none", "is_ok", "is_err", "to_owned",
        ];
        const CALLS: [&str; 3] = ["from_utf8_lossy", "current", "now"];
        match e {
            Expr::MethodCall(m) if READS.contains(&m.method.to_string().as_str()) => {}
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.last().map_or(false, |s| CALLS.contains(&s.ident.to_string().as_str())) => {}
                _ => self.0 = true,
            },
            Expr::Assign(a) if matches!(&*a.left, Expr::Path(_)) => {
                // name = value
                self.visit_expr(&a.right);
                return;
            }
            Expr::Path(_) | Expr::Field(_) | Expr::Reference(_) | Expr::Lit(_) | Expr::Index(_) | Expr::Paren(_) | Expr::Unary(_) | Expr::Binary(_) | Expr::Cast(_)
            | Expr::Range(_) | Expr::Tuple(_) => {}
            _ => self.0 = true,
        }
        visit::visit_expr(self, e);
    }
}

/// The elements that an expression reads by their index.
struct Elements<'b>(Vec<&'b ExprIndex>);
impl<'b> Visit<'b> for Elements<'b> {
    fn visit_expr_index(&mut self, e: &'b ExprIndex) {
        let mut c = Calls(false);
        c.visit_expr(&e.expr);
        c.visit_expr(&e.index);
        if !c.0 && !matches!(&*e.index, Expr::Range(_)) {
            self.0.push(e);
        } else {
            visit::visit_expr_index(self, e);
        }
    }
    fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
}

const LOG: [&str; 10] =
    ["debug", "info", "warn", "error", "trace", "println", "eprintln", "print", "eprint", "debug_assert"];

pub struct Env {
    pub listed: HashSet<String>,
    pub methods: Vec<(String, String)>,
    pub paths: Vec<(String, String)>,
    pub effects: Vec<String>,
    pub questions: Vec<String>,
}

struct Edits<'a> {
    text: &'a str,
    env: &'a Env,
    dir: &'a FnDir,
    edits: Vec<(usize, usize, String)>,
    loops: usize,
    closures: usize,
    /// The methods that closures are given to.
    given_to: HashMap<usize, String>,
    locals: Vec<String>,
    /// Names of the captures of an extracted closure.
    captures: Vec<String>,
    notes: Vec<String>,
    /// Closures without contract.
    raw: usize,
    /// Literal texts.
    lits: Vec<String>,
    /// The kinds of the loops.
    kinds: Vec<&'static str>,
    base_kinds: Vec<String>,
}

fn fmt_expr(text: &str, args: &[Expr], opaque: bool) -> Option<String> {
    let lit = match args.first()? {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => s.value(),
            _ => return None,
        },
        _ => return None,
    };
    if opaque {
        return Some("vx_opaque()".to_string());
    }
    let mut parts: Vec<String> = Vec::new();
    let mut cur = String::new();
    let mut next = 1;
    let cs: Vec<char> = lit.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                cur.push('{');
                i += 2;
            }
            '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let end = cs[i..].iter().position(|c| *c == '}')? + i;
                let spec: String = cs[i + 1..end].iter().collect();
                i = end + 1;
                let (name, f) = match spec.split_once(':') {
                    Some((n, f)) => (n.to_string(), f.to_string()),
                    None => (spec, String::new()),
                };
                if !(f.is_empty() || f == "#") {
                    return Some("vx_opaque()".to_string());
                }
                let arg = if name.is_empty() {
                    let a = args.get(next)?;
                    next += 1;
                    text[range(a)].to_string()
                } else if let Ok(n) = name.parse::<usize>() {
                    text[range(args.get(n + 1)?)].to_string()
                } else {
                    name
                };
                if !cur.is_empty() {
                    parts.push(format!("vx_lit({:?})", cur));
                    cur.clear();
                }
                parts.push(format!("vx_disp(&({}))", arg));
            }
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() || parts.is_empty() {
        parts.push(format!("vx_lit({:?})", cur));
    }
    let mut it = parts.into_iter();
    let mut r = it.next().unwrap();
    for p in it {
        r = format!("vx_cat({}, {})", r, p);
    }
    Some(r)
}

impl<'a> Edits<'a> {
    fn args(m: &Macro) -> Option<Vec<Expr>> {
        m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()
            .map(|p| p.into_iter().collect())
    }

    /// matches! and assert!.
    fn tests(&mut self, m: &Macro, all: std::ops::Range<usize>) -> bool {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name == "assert" {
            let a = match Self::args(m) {
                Some(a) if !a.is_empty() => a,
                _ => return false,
            };
            let r = range(&a[0]);
            self.cut(all.start..r.start, "vx_assert(".into());
            self.visit_expr(&a[0]);
            self.cut(r.end..all.end, ")".into());
            return true;
        }
        if name != "matches" {
            return false;
        }
        let p = syn::parse::Parser::parse2(
            |i: parse::ParseStream| {
                let e: Expr = i.parse()?;
                let _: Token![,] = i.parse()?;
                let p = Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.parse::<Option<Token![if]>>()?.is_some() { Some(i.parse::<Expr>()?) } else { None };
                let _: Option<Token![,]> = i.parse()?;
                Ok((e, p, g))
            },
            m.tokens.clone(),
        );
        let (e, p, g) = match p {
            Ok(x) => x,
            Err(_) => return false,
        };
        let r = range(&e);
        self.notes.push("matches! -> match".into());
        let guard = |ed: &mut Self, from: usize, text: String| match &g {
            None => ed.cut(from..all.end, format!("{} => true, _ => false }})", text)),
            Some(g) => {
                let gr = range(g);
                ed.cut(from..gr.start, format!("{} {} (", text, if text.contains(" if ") { "&&" } else { "if" }));
                ed.visit_expr(g);
                ed.cut(gr.end..all.end, ") => true, _ => false })".into());
            }
        };
        self.cut(all.start..r.start, "(match ".into());
        self.visit_expr(&e);
        match literal_texts(&p) {
            Some(lits) => {
                let cond: Vec<String> = lits.iter().map(|l| format!("vx_eq(&vx_s, {})", l)).collect();
                guard(self, r.end, format!(" {{ vx_s if ({})", cond.join(" || ")));
            }
            None => {
                self.visit_pat(&p);
                let text = p.to_token_stream().to_string();
                guard(self, r.end, format!(" {{ {}", text));
            }
        }
        true
    }

    /// What a macro that logs can do: the arguments that call something else
    /// than what only reads are evaluated or not.
    fn kept(&mut self, m: &Macro) -> String {
        let mut o = String::new();
        let mut elements = String::new();
        match Self::args(m) {
            Some(l) => {
                for a in &l {
                    let mut c = Calls(false);
                    c.visit_expr(a);
                    if c.0 {
                        o.push_str(&format!("if vx_any() {{ let _ = &({}); }} ", &self.text[range(a)]));
                    } else {
                        let e = self.elements(std::slice::from_ref(a));
                        if !e.is_empty() {
                            elements.push_str(&format!("if vx_any() {{ {}}} ", e));
                        }
                    }
                }
            }
            None => {
                if m.tokens.clone().into_iter().any(|t| matches!(t, proc_macro2::TokenTree::Group(_))) {
                    o.push_str("vx_not_read(); ");
                }
            }
        }
        if !o.is_empty() {
            self.notes.push("a macro that logs calls something".into());
        }
        o + &elements
    }
    /// Reads the elements that some expressions read.
    fn elements(&self, l: &[Expr]) -> String {
        let mut e = Elements(Vec::new());
        for a in l {
            e.visit_expr(a);
        }
        e.0.iter().map(|e| format!("let _ = &({}); ", &self.text[e.span().byte_range()])).collect()
    }
    /// The replacement of a macro, if it has one.
    fn mac(&mut self, m: &Macro) -> Option<String> {
        let name = m.path.segments.last()?.ident.to_string();
        if LOG.contains(&name.as_str()) {
            self.notes.push(format!("dropped {}!", name));
            let kept = self.kept(m);
            return Some(if kept.is_empty() { "()".into() } else { format!("{{ {} }}", kept) });
        }
        let opaque = self.dir.opts.contains("opaque_format");
        match name.as_str() {
            "format" => {
                let a = Self::args(m)?;
                let r = fmt_expr(self.text, &a, opaque)?;
                self.notes.push(format!("format! -> {}", if r == "vx_opaque()" { "arbitrary string" } else { "concatenation" }));
                let e = if r == "vx_opaque()" { self.elements(&a[1..]) } else { String::new() };
                Some(if e.is_empty() { r } else { format!("({{ {}{} }})", e, r) })
            }
            "write" => {
                let a = Self::args(m)?;
                let dst = self.text[range(&a[0])].to_string();
                let r = fmt_expr(self.text, &a[1..], opaque)?;
                self.notes.push("write! -> write_str of a concatenation".into());
                Some(format!("({}).write_str(({}).as_str())", dst, r))
            }
            "unreachable" | "unimplemented" | "panic" | "todo" => {
                self.notes.push(format!("{}! -> vx_unreachable (requires false)", name));
                Some("vx_unreachable()".into())
            }
            "assert_eq" => {
                let a = Self::args(m)?;
                Some(format!("vx_assert(({}) == ({}))", &self.text[range(&a[0])], &self.text[range(&a[1])]))
            }
            _ => None,
        }
    }
    /// The methods of Option and Result that take closures become matches:
    /// vx_open tells the two types apart, and builds the result.
    fn adapter(&mut self, m: &ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let opts = &self.dir.opts;
        let res = opts.contains("map_res");
        let gives_option = matches!(&*m.receiver, Expr::MethodCall(r) if ["get", "get_mut", "first", "last", "pop", "next", "strip_prefix", "strip_suffix"].contains(&r.method.to_string().as_str()));
        let opt = opts.contains("map_opt") || (res && gives_option);
        // What stands before the receiver, between it and the pattern,
        // between the pattern and the body, after the body, and the number
        // of parameters of the closure.
        let two = |mid: &str, w: &str, e: &str| ("(match ".to_string(), format!(" {{ {}", mid), w.to_string(), format!("{} }})", e));
        let n_in = match m.args.last() {
            Some(Expr::Closure(c)) => c.inputs.len(),
            Some(Expr::Path(_)) => 1,
            _ => return false,
        };
        let want = match name.as_str() {
            "map_or" => 2,
            "map_or_else" => 2,
            _ => 1,
        };
        if m.args.len() != want {
            return false;
        }
        let generic = name != "map_err" && name != "is_some_and" && name != "is_ok_and";
        if generic && (self.annotated(m) || is_iter(&m.receiver)) {
            return false;
        }
        let (pre, mid, into, post) = match (name.as_str(), n_in) {
            ("map_err", 1) => two("Ok(vx_v) => Ok(vx_v), Err(", ") => Err(", ")"),
            ("is_some_and", 1) => two("None => false, Some(", ") => ", ""),
            ("is_none_or", 1) => two("None => true, Some(", ") => ", ""),
            ("is_ok_and", 1) => two("Err(_) => false, Ok(", ") => ", ""),
            ("is_err_and", 1) => two("Ok(_) => false, Err(", ") => ", ""),
            ("map", 1) if opt => two("None => None, Some(", ") => Some(", ")"),
            ("map", 1) if res => two("Err(vx_e) => Err(vx_e), Ok(", ") => Ok(", ")"),
            ("and_then", 1) if opt => two("None => None, Some(", ") => ", ""),
            ("and_then", 1) if res => two("Err(vx_e) => Err(vx_e), Ok(", ") => ", ""),
            ("map", 1) => two("(vx_k, Err(vx_e)) => vx_k.vx_rest(vx_e), (vx_k, Ok(", ")) => vx_k.vx_wrap(", ")"),
            ("and_then", 1) => two("(vx_k, Err(vx_e)) => vx_k.vx_rest(vx_e), (vx_k, Ok(", ")) => ", ""),
            ("unwrap_or_else", 0) => two("(_, Ok(vx_v)) => vx_v, (_, Err(_)) => ", "", ""),
            ("unwrap_or_else", 1) => two("(_, Ok(vx_v)) => vx_v, (_, Err(", ")) => ", ""),
            ("ok_or_else", 0) => two("(_, Ok(vx_v)) => Ok(vx_v), (_, Err(_)) => Err(", "", ")"),
            ("or_else", 0) => two("(_, Ok(vx_v)) => Some(vx_v), (_, Err(_)) => ", "", ""),
            ("or_else", 1) => two("(_, Ok(vx_v)) => Ok(vx_v), (_, Err(", ")) => ", ""),
            ("filter", 1) => two("(_, Err(_)) => None, (_, Ok(vx_v)) => { let vx_keep = { let ", " = &vx_v; ", " }; if vx_keep { Some(vx_v) } else { None } }"),
            ("map_or", 1) => two("((_, Err(_)), vx_d) => vx_d, ((_, Ok(", ")), _) => ", ""),
            ("then", 0) => ("(if ".to_string(), " { Some(".to_string(), String::new(), ") } else { None })".to_string()),
            _ => return false,
        };
        let opened = mid.contains("(_, ") || mid.contains("(vx_k, ");
        let x = range(&*m.receiver);
        let end = range(m).end;
        let first = match (name.as_str(), m.args.first()) {
            ("map_or", Some(d)) => Some(d),
            _ => None,
        };
        let pre = if first.is_some() { format!("{}(", pre) } else { pre };
        if let Some(Expr::Path(f)) = m.args.last() {
            // X.map_err(path) becomes a match too.
            let n = f.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if name == "unwrap_or_else" || name == "or_else" || name == "filter" || (self.is_local(m.args.last().unwrap()) && generic) || n.is_empty() {
                return false;
            }
            self.notes.push(format!("{}(function) -> match", name));
            let call = self.text[range(f)].to_string();
            let call = self.env.paths.iter().find(|p| p.0 == toks(&f.path)).map(|p| p.1.clone()).unwrap_or(call);
            self.cut(x.start..x.start, pre);
            self.visit_expr(&m.receiver);
            let open = if opened { ".vx_open()" } else { "" };
            match first {
                Some(d) => {
                    let r = range(d);
                    self.cut(x.end..r.start, format!("{}, ", open));
                    self.visit_expr(d);
                    self.cut(r.end..end, format!("){}vx_x{}{}(vx_x){}", mid, into, call, post));
                }
                None => self.cut(x.end..end, format!("{}{}vx_x{}{}(vx_x){}", open, mid, into, call, post)),
            }
            return true;
        }
        let c = match m.args.last() {
            Some(Expr::Closure(c)) if c.inputs.len() <= 1 && c.asyncness.is_none() => c,
            _ => return false,
        };
        struct Exits(bool);
        impl<'x> Visit<'x> for Exits {
            fn visit_expr_return(&mut self, _: &'x ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'x ExprTry) {
                self.0 = true;
            }
        }
        let mut ex = Exits(false);
        ex.visit_expr(&c.body);
        if ex.0 {
            return false;
        }
        let pat = c.inputs.first().map(|p| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        });
        self.notes.push(format!("{}(closure) -> match", name));
        let b = range(&*c.body);
        self.cut(x.start..x.start, pre);
        self.visit_expr(&m.receiver);
        let open = if opened { ".vx_open()" } else { "" };
        let text = match &pat {
            Some(p) => {
                self.visit_pat(p);
                format!("{}{}{}", mid, p.to_token_stream(), into)
            }
            None => mid,
        };
        match first {
            Some(d) => {
                let r = range(d);
                self.cut(x.end..r.start, format!("{}, ", open));
                self.visit_expr(d);
                self.cut(r.end..b.start, format!("){}", text));
            }
            None => {
                self.cut(x.end..b.start, format!("{}{}", open, text));
            }
        }
        self.visit_expr(&c.body);
        self.cut(b.end..end, post);
        true
    }
    /// The closure of a call has annotations.
    fn annotated(&self, m: &ExprMethodCall) -> bool {
        self.dir.closures_of.contains_key(&m.method.to_string())
    }
    fn effect_path(&self, f: &Expr) -> bool {
        match f {
            Expr::Path(p) => {
                let t = toks(&p.path).replace(' ', "");
                self.dir.opts.contains("world") && self.env.effects.iter().any(|x| *x == t)
            }
            _ => false,
        }
    }
    /// Adds the ghost state to the arguments of a call.
    fn effect(&mut self, name: &str, empty: bool, comma: bool, end: usize) {
        if !name.is_empty() && !(self.dir.opts.contains("world") && self.env.effects.iter().any(|x| x == name)) {
            return;
        }
        self.tracked(empty, comma, end);
    }
    /// A method without arguments can be told from the others of its name.
    fn effect_method(&mut self, m: &syn::ExprMethodCall, end: usize) {
        let n = m.method.to_string();
        let n0 = format!("{}/{}", n, m.args.len());
        if self.dir.opts.contains("world") && self.env.effects.iter().any(|x| *x == n || *x == n0) {
            self.tracked(m.args.is_empty(), m.args.trailing_punct(), end);
        }
    }
    fn tracked(&mut self, empty: bool, comma: bool, end: usize) {
        let sep = if empty || comma { "" } else { ", " };
        self.cut(end - 1..end - 1, format!("{}Tracked(&mut *vx_w)", sep));
        let n = "ghost state added to the calls with effects".to_string();
        if !self.notes.contains(&n) {
            self.notes.push(n);
        }
    }
    fn is_local(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.locals.contains(&i.to_string()) || self.captures.contains(&i.to_string())),
            _ => false,
        }
    }
    fn cut(&mut self, r: std::ops::Range<usize>, s: String) {
        self.edits.push((r.start, r.end, s));
    }
    /// A continue in tail position of a for body becomes an else, as the
    /// verifier has no continue in for loops.
    fn tail_continue(&mut self, b: &Block) {
        let n = b.stmts.len();
        let end = range(b).end - 1;
        for (i, s) in b.stmts.iter().enumerate() {
            let e = match s {
                Stmt::Expr(e, _) => e,
                _ => continue,
            };
            if i + 1 == n {
                self.tail_continue_expr(e, range(s));
            } else if let Expr::If(x) = e {
                if let (None, Some(Stmt::Expr(Expr::Continue(c), _))) = (&x.else_branch, x.then_branch.stmts.last()) {
                    if c.label.is_none() {
                        let last = range(x.then_branch.stmts.last().unwrap());
                        self.cut(last, String::new());
                        let r = range(e).end;
                        self.cut(r..r, " else {".into());
                        self.cut(end..end, "}".into());
                        self.notes.push("continue of a for -> else".into());
                    }
                }
            }
        }
    }
    fn tail_continue_expr(&mut self, e: &Expr, whole: std::ops::Range<usize>) {
        match e {
            Expr::Continue(c) if c.label.is_none() => {
                self.notes.push("continue of a for -> else".into());
                self.cut(whole, "()".into())
            }
            Expr::If(x) => {
                self.tail_continue(&x.then_branch);
                if let Some((_, e)) = &x.else_branch {
                    self.tail_continue_expr(e, range(&**e));
                }
            }
            Expr::Block(b) => self.tail_continue(&b.block),
            Expr::Match(m) => {
                for a in &m.arms {
                    self.tail_continue_expr(&a.body, range(&*a.body));
                }
            }
            _ => {}
        }
    }
    fn loop_at(&mut self, body: &Block, it: Option<&Expr>) {
        let n = self.loops;
        self.loops += 1;
        let b = range(body);
        if let Some((iter, _)) = self.dir.loops.get(&n) {
            if let (Some(name), Some(e)) = (iter.as_ref().filter(|n| !n.starts_with('#')), it) {
                let p = range(e).start;
                self.cut(p..p, format!("{}: ", name));
            }
        }
        self.cut(b.start..b.start, format!("/*VX:LOOP{}*/", n));
        self.cut(b.start + 1..b.start + 1, format!("/*VX:LS{}*/", n));
        self.cut(b.end - 1..b.end - 1, format!("/*VX:LE{}*/", n));
    }
}

impl<'a, 'b> Visit<'b> for Edits<'a> {
    fn visit_attribute(&mut self, a: &'b Attribute) {
        let r = range(a);
        self.cut(r, String::new());
    }
    fn visit_stmt(&mut self, s: &'b Stmt) {
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if LOG.contains(&name.as_str()) {
                self.notes.push(format!("dropped {}!", name));
                let r = range(s);
                let kept = self.kept(&m.mac);
                self.cut(r, kept);
                return;
            }
            if self.tests(&m.mac, range(&m.mac)) {
                return;
            }
            if let Some(t) = self.mac(&m.mac) {
                let r = range(&m.mac);
                self.cut(r, t);
                return;
            }
            return;
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'b Expr) {
        match e {
            Expr::Macro(m) => {
                if self.tests(&m.mac, range(e)) {
                    return;
                }
                if let Some(t) = self.mac(&m.mac) {
                    let r = range(e);
                    self.cut(r, t);
                }
                return;
            }
            Expr::Closure(_) => {
                // Closures given to the methods of Option and Result do not count.
                let n = if self.given_to.get(&range(e).start).map_or(false, |m| takes_closure(m)) {
                    usize::MAX
                } else {
                    self.closures += 1;
                    self.closures - 1
                };
                if let (Some(t), Expr::Closure(c)) = (self.dir.closures.get(&n).or_else(|| self.given_to.get(&range(e).start).and_then(|m| self.dir.closures_of.get(m))).and_then(|t| t.strip_prefix("as ")), e) {
                    // The head of the closure is annotated, its body stays.
                    self.notes.push(format!("closure {}: annotated", n));
                    let b = range(&*c.body);
                    let r = range(e);
                    let pats: Vec<String> = c
                        .inputs
                        .iter()
                        .enumerate()
                        .map(|(i, p)| {
                            let p = match p {
                                Pat::Type(t) => &*t.pat,
                                p => p,
                            };
                            format!("let {} = vx_p{};", p.to_token_stream(), i)
                        })
                        .collect();
                    for p in &c.inputs {
                        self.visit_pat(p);
                    }
                    self.cut(r.start..b.start, format!("{} {{ {} ", t, pats.join(" ")));
                    self.visit_expr(&c.body);
                    self.cut(b.end..b.end, " }".into());
                    return;
                }
                if !self.dir.closures.contains_key(&n) {
                    self.raw += 1;
                }
                if let Some(t) = self.dir.closures.get(&n) {
                    self.notes.push(format!("closure {} -> {}", n, t));
                    let r = range(e);
                    self.cut(r, t.clone());
                    return;
                }
            }
            // An ignored value.
            Expr::Assign(a) if matches!(*a.left, Expr::Infer(_)) => {
                let r = range(e);
                let v = range(&*a.right);
                self.notes.push("_ = … -> { let _ = …; }".into());
                self.cut(r.start..v.start, "{ let _ = ".into());
                self.cut(r.end..r.end, "; }".into());
            }
            Expr::MethodCall(m) if self.adapter(m) => return,
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for a in &m.args {
                    if let Expr::Closure(_) = a {
                        self.given_to.insert(range(a).start, n.clone());
                    }
                }
                self.effect_method(m, range(e).end);
                if let Some((_, b)) = self.env.methods.iter().find(|x| x.0 == n) {
                    self.notes.push(format!(".{}() -> .{}()", n, b));
                    let r = range(&m.method);
                    self.cut(r, b.clone());
                }
            }
            Expr::Call(c) if self.effect_path(&c.func) => {
                self.effect("", c.args.is_empty(), c.args.trailing_punct(), range(e).end);
            }
            // A call of a value: the method vx_call takes its place.
            Expr::Call(c) if self.dir.opts.contains("callvars") && self.is_local(&c.func) => {
                self.notes.push("call of a value -> .vx_call()".into());
                let f = range(&*c.func);
                self.cut(f.end..f.end, ".vx_call".into());
                self.effect("vx_call", c.args.is_empty(), c.args.trailing_punct(), range(e).end);
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Str(t) => self.lits.push(t.token().to_string()),
                Lit::ByteStr(t) => {
                    let v: Vec<String> = t.value().iter().map(|b| format!("{}u8", b)).collect();
                    let r = range(e);
                    self.notes.push("byte string -> array".into());
                    self.cut(r, format!("&[{}]", v.join(", ")));
                }
                _ => {}
            },
            Expr::Path(p) => {
                let n = toks(&p.path);
                if let Some((_, b)) = self.env.paths.iter().find(|x| x.0 == n) {
                    self.notes.push(format!("{} -> {}", n, b));
                    let r = range(e);
                    self.cut(r, b.clone());
                    return;
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) => {
                let (x, l) = if is_str(&b.right) { (&*b.left, &*b.right) } else { (&*b.right, &*b.left) };
                let all = range(e);
                let lit = self.text[range(l)].to_string();
                let neg = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                self.notes.push("comparison with a literal text -> vx_eq".into());
                let xr = range(x);
                self.cut(all.start..xr.start, format!("({}vx_eq(&(", neg));
                self.visit_expr(x);
                self.cut(xr.end..all.end, format!("), {}))", lit));
                return;
            }
            // Two texts made on the spot are compared by their characters.
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (makes_text(&b.left) || makes_text(&b.right)) => {
                let all = range(e);
                let (x, y) = (range(&*b.left), range(&*b.right));
                let neg = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                self.notes.push("comparison of texts -> vx_eq2".into());
                self.cut(all.start..x.start, format!("({}vx_eq2(&(", neg));
                self.visit_expr(&b.left);
                self.cut(x.end..y.start, "), &(".into());
                self.visit_expr(&b.right);
                self.cut(y.end..all.end, ")))".into());
                return;
            }
            Expr::While(w) => {
                for a in &w.attrs {
                    self.visit_attribute(a);
                }
                let n = self.loops;
                let wants = self.base_kinds.get(n).map_or(false, |k| k == "loop");
                self.kinds.push(if wants { "loop" } else { "while" });
                if !wants {
                    self.loop_at(&w.body, None);
                } else {
                    // The contract of this loop is that of a loop with a break.
                    self.notes.push("while -> loop with a break".into());
                    self.loops += 1;
                    let all = range(e);
                    let head = match &w.label {
                        Some(l) => range(l).end,
                        None => all.start,
                    };
                    let b = range(&w.body);
                    let (cond, pat) = match &*w.cond {
                        Expr::Let(l) => (range(&*l.expr), Some(&*l.pat)),
                        c => (range(c), None),
                    };
                    let op = if pat.is_some() { "match " } else { "if !(" };
                    self.cut(head..cond.start, format!(" loop /*VX:LOOP{}*/ {{ /*VX:LS{}*/ {}", n, n, op));
                    match (&*w.cond, pat) {
                        (Expr::Let(l), Some(p)) => {
                            self.visit_expr(&l.expr);
                            self.visit_pat(p);
                            self.cut(cond.end..b.start, format!(" {{ {} => ", p.to_token_stream()));
                            visit::visit_block(self, &w.body);
                            self.cut(b.end..b.end, format!(", _ => {{ break; }} }} /*VX:LE{}*/ }}", n));
                        }
                        (c, _) => {
                            self.visit_expr(c);
                            self.cut(cond.end..b.start, ") { break; } ".into());
                            visit::visit_block(self, &w.body);
                            self.cut(b.end..b.end, format!(" /*VX:LE{}*/ }}", n));
                        }
                    }
                    return;
                }
            }
            Expr::Loop(w) => {
                let n = self.loops;
                let breaks = match (w.body.stmts.first(), self.base_kinds.get(n)) {
                    (Some(Stmt::Expr(Expr::If(i), _)), Some(k)) if k == "while" && i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => {
                        match (i.then_branch.stmts.len(), i.then_branch.stmts.first()) {
                            (1, Some(Stmt::Expr(Expr::Break(b), _))) if b.label.is_none() && b.expr.is_none() => Some(i),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                match breaks {
                    // The contract of this loop is that of a while.
                    Some(i) => {
                        self.kinds.push("while");
                        self.notes.push("loop that starts with a break -> while".into());
                        let all = range(e);
                        let head = match &w.label {
                            Some(l) => range(l).end,
                            None => all.start,
                        };
                        let c = range(&*i.cond);
                        let first = range(&w.body.stmts[0]);
                        self.loops += 1;
                        self.cut(head..c.start, " while !(".into());
                        self.visit_expr(&i.cond);
                        self.cut(c.end..first.end, format!(") /*VX:LOOP{}*/ {{ /*VX:LS{}*/ ", n, n));
                        for s in &w.body.stmts[1..] {
                            self.visit_stmt(s);
                        }
                        let b = range(&w.body).end;
                        self.cut(b - 1..b - 1, format!(" /*VX:LE{}*/ ", n));
                        return;
                    }
                    None => {
                        self.kinds.push("loop");
                        self.loop_at(&w.body, None)
                    }
                }
            }
            Expr::ForLoop(w) => {
                self.kinds.push("for");
                let index = self.dir.loops.get(&self.loops).and_then(|x| x.0.clone()).and_then(|x| x.strip_prefix('#').map(|s| s.to_string()));
                let over = match &*w.expr {
                    Expr::Reference(x) if x.mutability.is_none() => Some((range(&*w.expr), false)),
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((range(&*m.receiver), true)),
                    _ => None,
                };
                match (index, over) {
                    // A for over a slice with a continue: a while with an index.
                    (Some(i), Some((x, by_iter))) => {
                        let all = range(e);
                        let b = range(&w.body);
                        let end = range(&*w.expr).end;
                        let label = w.label.as_ref().map(|l| format!("{} ", &self.text[range(l)])).unwrap_or_default();
                        self.cut(all.start..x.start, format!("let {}_of = {}", i, if by_iter { "&" } else { "" }));
                        self.cut(x.end..end, format!("; let mut {}: usize = 0; {}while {} < {}_of.len() ", i, label, i, i));
                        let pat = self.text[range(&*w.pat)].to_string();
                        self.cut(b.start + 1..b.start + 1, format!(" let {} = &{}_of[{}]; {} = {} + 1; ", pat, i, i, i, i));
                        self.notes.push("for over a slice -> while with an index".into());
                        self.loop_at(&w.body, None);
                        visit::visit_block(self, &w.body);
                        self.visit_expr(&w.expr);
                        return;
                    }
                    _ => {
                        self.tail_continue(&w.body);
                        self.loop_at(&w.body, Some(&w.expr))
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_arm(&mut self, a: &'b Arm) {
        let alts: Vec<&Pat> = match &a.pat {
            Pat::Or(o) => o.cases.iter().collect(),
            p => vec![p],
        };
        let lits: Vec<&Lit> = alts
            .iter()
            .filter_map(|p| match p {
                Pat::Lit(l) => match &l.lit {
                    x @ Lit::Str(_) => Some(x),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        if !lits.is_empty() && lits.len() == alts.len() {
            let cond: Vec<String> = lits.iter().map(|l| format!("vx_eq(&vx_s, {})", &self.text[range(*l)])).collect();
            self.notes.push("match on literal texts -> guards".into());
            let r = range(&a.pat);
            match &a.guard {
                None => self.cut(r, format!("vx_s if {}", cond.join(" || "))),
                Some((_, g)) => {
                    let gr = range(&**g);
                    self.cut(r.start..gr.start, format!("vx_s if ({}) && (", cond.join(" || ")));
                    self.visit_expr(g);
                    self.cut(gr.end..gr.end, ")".into());
                }
            }
            self.visit_expr(&a.body);
            return;
        }
        visit::visit_arm(self, a);
    }
    fn visit_item(&mut self, i: &'b Item) {
        if let Item::Const(c) = i {
            self.visit_item_const(c);
        }
    }
    // The lifetime that a constant leaves out.
    fn visit_item_const(&mut self, c: &'b ItemConst) {
        if let Type::Reference(t) = &*c.ty {
            if t.lifetime.is_none() {
                let r = range(&*c.ty);
                self.cut(r.start + 1..r.start + 1, "'static ".into());
            }
        }
        visit::visit_item_const(self, c);
    }
    // A text in a pattern, outside of the arms that are turned into guards.
    fn visit_pat(&mut self, p: &'b Pat) {
        if let Pat::Lit(l) = p {
            if let Lit::Str(t) = &l.lit {
                self.lits.push(t.token().to_string());
            }
        }
        visit::visit_pat(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'b PatIdent) {
        if self.dir.opts.contains("mutlets")
            && p.mutability.is_none()
            && p.by_ref.is_none()
            && p.subpat.is_none()
            && p.ident.to_string().starts_with(|c: char| c.is_lowercase())
        {
            let r = range(&p.ident);
            self.cut(r.start..r.start, "mut ".into());
        }
        if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
            self.locals.push(p.ident.to_string());
        }
        visit::visit_pat_ident(self, p);
    }
}

fn rename_words(t: &str, map: &[(String, String)]) -> String {
    let mut out = String::new();
    let mut w = String::new();
    let flush = |w: &mut String, out: &mut String| {
        if !w.is_empty() {
            match map.iter().find(|(a, _)| a == w) {
                Some((_, b)) if !out.ends_with('.') || out.ends_with("..") => out.push_str(b),
                _ => out.push_str(w),
            }
            w.clear();
        }
    };
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut out);
            out.push(c);
        }
    }
    flush(&mut w, &mut out);
    out
}

/// Tells the functions called in a text from the locals with the same name.
fn apart(t: &str, locals: &[String]) -> String {
    let mut out = t.to_string();
    for l in locals {
        let mut from = 0;
        while let Some(i) = out[from..].find(&format!("{}(", l)) {
            let i = from + i;
            let alone = !out[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '.' || c == ':');
            if alone {
                out.insert_str(i, "self::");
            }
            from = i + l.len() + if alone { 6 } else { 0 };
        }
    }
    out
}

/// The texts of a pattern made of literal texts only.
fn literal_texts(p: &Pat) -> Option<Vec<String>> {
    let alts: Vec<&Pat> = match p {
        Pat::Or(o) => o.cases.iter().collect(),
        Pat::Paren(p) => return literal_texts(&p.pat),
        p => vec![p],
    };
    alts.iter()
        .map(|p| match p {
            Pat::Lit(l) => match &l.lit {
                x @ Lit::Str(_) => Some(x.to_token_stream().to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn makes_text(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "to_string" | "to_lowercase" | "as_str" | "to_uppercase"),
        Expr::Paren(p) => makes_text(&p.expr),
        Expr::Reference(p) => makes_text(&p.expr),
        _ => false,
    }
}

/// The expression makes an iterator, as far as its text tells.
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match (n.as_str(), m.args.len()) {
                ("map", _) | ("filter", _) | ("cloned", _) | ("copied", _) | ("inspect", _) | ("take", 1) => is_iter(&m.receiver),
                (
                    "iter" | "iter_mut" | "into_iter" | "drain" | "split" | "splitn" | "rsplit" | "rsplitn" | "split_terminator" | "split_whitespace" | "lines"
                    | "chars" | "char_indices" | "bytes" | "components" | "ancestors" | "enumerate" | "rev" | "keys" | "values" | "values_mut" | "into_keys"
                    | "into_values" | "zip" | "skip" | "chain" | "windows" | "chunks" | "chunks_exact" | "filter_map" | "flat_map" | "flatten" | "incoming"
                    | "take_while" | "skip_while" | "step_by" | "peekable" | "map_while" | "by_ref",
                    _,
                ) => true,
                _ => false,
            }
        }
        Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)) || is_iter(&p.expr),
        Expr::Reference(p) => is_iter(&p.expr),
        _ => false,
    }
}

fn is_str(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_str(&p.expr),
        _ => false,
    }
}

/// The methods of Option and Result whose closures run at once.
fn takes_closure(method: &str) -> bool {
    ["map", "map_err", "map_or", "map_or_else", "and_then", "or_else", "unwrap_or_else", "ok_or_else", "filter", "is_some_and", "is_none_or", "is_ok_and", "is_err_and", "then", "inspect", "inspect_err"].contains(&method)
}

/// A closure by its position among those that are not given to such methods.
struct FindClosure<'a> {
    want: usize,
    n: usize,
    found: Option<&'a ExprClosure>,
}
impl<'a> Visit<'a> for FindClosure<'a> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.visit_expr(&m.receiver);
        for a in &m.args {
            match a {
                Expr::Closure(c) if takes_closure(&m.method.to_string()) => visit::visit_expr_closure(self, c),
                a => self.visit_expr(a),
            }
        }
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if self.n == self.want {
            self.found = Some(c);
        }
        self.n += 1;
        visit::visit_expr_closure(self, c);
    }
}

/// What the annotations of a function were written for.
#[derive(Clone)]
pub struct Base {
    pub locals: Vec<String>,
    pub raw: usize,
    pub kinds: Vec<String>,
    pub lits: Vec<String>,
}
impl Base {
    pub fn parse(t: &str) -> Base {
        let mut f = t.split('\t');
        let words = |x: Option<&str>| x.unwrap_or("").split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<Vec<_>>();
        let locals = words(f.next()).into_iter().filter(|w| !w.starts_with(|c: char| c.is_uppercase())).collect();
        let raw = f.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let kinds = words(f.next());
        let lits = f.next().unwrap_or("").split('\u{1}').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
        Base { locals, raw, kinds, lits }
    }
    pub fn print(&self) -> String {
        format!("{}\t{}\t{}\t{}", self.locals.join(" "), self.raw, self.kinds.join(" "), self.lits.join("\u{1}"))
    }
}

pub fn emit_fn(
    src: &Source,
    found: &Found,
    dir: &FnDir,
    env: &Env,
    base: Option<Base>,
    degraded: bool,
    probe: bool,
    notes: &mut Vec<String>,
) -> std::result::Result<(String, Base), String> {
    // 1. Inline the helpers without contract.
    let helpers = inline::helpers(src, &env.listed);
    let mut block = found.block.clone();
    let mut inl = inline::Inliner {
        helpers: &helpers,
        imp: found.imp.map(find::impl_self),
        caller: found.sig.ident.to_string(),
        tail: true,
        done: vec![],
        failed: vec![],
        depth: 0,
    };
    if found.closure.is_some() {
        inl.tail = false;
    }
    use syn::visit_mut::VisitMut;
    inl.visit_block_mut(&mut block);
    let mut text: String = src.text.clone();
    let mut sig = found.sig.clone();
    if !inl.done.is_empty() {
        notes.push(format!("inlined: {}", inl.done.join(" ")));
        let mut t = String::new();
        crate::guards::print(found.sig.to_token_stream(), false, &mut t);
        crate::guards::print(block.to_token_stream(), false, &mut t);
        let f: ImplItemFn = parse_str(&t).map_err(|e| format!("reparse: {}", e))?;
        sig = f.sig.clone();
        block = f.block.clone();
        text = t;
    }
    for f in &inl.failed {
        notes.push(format!("not inlined: {}", f));
    }
    if dir.opts.contains("world") {
        let mut g = crate::guards::Guards::new();
        g.visit_block_mut(&mut block);
        if g.done > 0 {
            notes.push(format!("match guards -> if: {}", g.done));
            let mut t = String::new();
            crate::guards::print(sig.to_token_stream(), false, &mut t);
            crate::guards::print(block.to_token_stream(), false, &mut t);
            let f: ImplItemFn = parse_str(&t).map_err(|e| format!("reparse: {}", e))?;
            sig = f.sig.clone();
            block = f.block.clone();
            text = t;
        }
    }

    // 2. Closure extraction.
    let mut body_range = range(&block);
    let mut params = dir.params.clone();
    let mut closure_body: Option<Expr> = None;
    if let Some(n) = found.closure {
        let mut fc = FindClosure { want: n, n: 0, found: None };
        fc.visit_block(&block);
        let c = fc.found.ok_or("closure not found")?;
        body_range = range(&*c.body);
        closure_body = Some((*c.body).clone());
        if params.is_none() {
            params = Some(String::new());
        }
        notes.push("body of a closure, its captures are parameters".into());
    }

    let captures = match (&params, found.closure) {
        (Some(p), Some(_)) => p.split(',').filter_map(|a| a.split(':').next()).map(|n| n.trim().to_string()).collect(),
        _ => vec![],
    };
    let mut ed = Edits { text: &text, env, dir, edits: vec![], loops: 0, closures: 0, given_to: HashMap::new(), locals: vec![], captures, notes: vec![], raw: 0, lits: vec![], kinds: vec![], base_kinds: base.as_ref().map(|b| b.kinds.clone()).unwrap_or_default() };
    let mut given = 0;
    if found.closure.is_none() {
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                ed.visit_pat(&t.pat);
            }
        }
        ed.edits.clear();
        given = ed.locals.len();
        for s in &block.stmts {
            ed.visit_stmt(s);
        }
    } else if let Some(b) = &closure_body {
        ed.visit_expr(b);
    }
    let Edits { mut edits, loops, locals, notes: enotes, raw, lits, kinds, .. } = ed;
    let now = Base { locals: locals.clone(), raw, kinds: kinds.iter().map(|k| k.to_string()).collect(), lits: lits.iter().filter(|l| !l.contains(['\n', '\t'])).cloned().collect() };
    for n in enotes {
        if !notes.contains(&n) {
            notes.push(n);
        }
    }
    if let Some(&m) = dir.loops.keys().max() {
        if m >= loops {
            return Err(format!("the annotations are for {} loops and the function has {}", m + 1, loops));
        }
    }
    if loops > dir.loops.len() {
        notes.push(format!("loops without annotations: {}", loops - dir.loops.len()));
    }

    // 3. Apply the edits.
    edits.retain(|e| e.0 >= body_range.start && e.1 <= body_range.end);
    edits.sort_by_key(|e| (e.0, e.1));
    let mut body = String::new();
    let mut pos = body_range.start;
    for (a, b, s) in edits {
        if a < pos {
            continue;
        }
        body.push_str(&text[pos..a]);
        body.push_str(&s);
        pos = b;
    }
    body.push_str(&text[pos..body_range.end]);
    if found.closure.is_some() && !body.trim_start().starts_with('{') {
        body = format!("{{ {} }}", body);
    }

    // Comments of the source could contain anything: drop them.
    let body = strip_comments(&body);
    let mut body = body;
    // `mut self` is not in the subset: a local takes its place.
    let mut_self = params.is_none() && sig.inputs.first().map_or(false, |a| toks(a).replace(" ", "") == "mutself");
    if mut_self {
        body = rename_words(&body, &[("self".to_string(), "vx_self".to_string())]);
        let p = body.find('{').ok_or("no body")?;
        body.insert_str(p + 1, "\nlet mut vx_self = self;");
        notes.push("rewritten: mut self -> a local".into());
    }
    for (a, b, must) in &dir.subs {
        if let Some(new) = loose_replace(&body, a, b) {
            body = new;
            notes.push(format!("rewritten: {} -> {}", a.replace('\n', " "), b.replace('\n', " ")));
        } else if *must {
            return Err(format!("text to rewrite not found: {}", a));
        }
    }

    // What the contracts and annotations at hand do not cover.
    let mut new_lits: Vec<String> = Vec::new();
    if let Some(b) = &base {
        if raw > b.raw {
            notes.push("strange: closures without contract".into());
        }
        let un = |k: &[String]| (0..k.len()).filter(|n| !dir.loops.contains_key(n)).count();
        if un(&now.kinds) > un(&b.kinds) {
            notes.push("strange: loops without annotations".into());
        } else if now.kinds != b.kinds {
            notes.push("strange: loops of another kind".into());
        }
        for l in &lits {
            if !b.lits.contains(l) && !new_lits.contains(l) && l.len() < 24 && l.starts_with('"') && !l.contains(['\n', '\t']) {
                new_lits.push(l.clone());
            }
        }
    }

    // 4. Follow the renames of the locals in the annotations: those they use
    // that are gone take the names that are new, in order.
    let mut ren: Vec<(String, String)> = Vec::new();
    let mut params_ren: Vec<(String, String)> = Vec::new();
    let mut fresh: Vec<String> = Vec::new();
    if let Some(b) = base.map(|b| b.locals) {
        params_ren = b.iter().zip(locals.iter()).take(given).filter(|(x, y)| x != y).map(|(x, y)| (x.clone(), y.clone())).collect();
        let texts: Vec<&str> = dir.loops.values().map(|x| x.1.as_str()).chain(dir.loopstart.values().map(|x| x.as_str()))
            .chain(dir.loopend.values().map(|x| x.as_str())).chain([dir.start.as_str()]).collect();
        let used: Vec<&str> = texts.iter().flat_map(|t| t.split(|c: char| !c.is_alphanumeric() && c != '_')).collect();
        let uniq = |x: &[String], y: &[String]| {
            let mut l: Vec<String> = Vec::new();
            for n in x {
                if !y.contains(n) && !l.contains(n) {
                    l.push(n.clone());
                }
            }
            l
        };
        let all = uniq(&b, &locals);
        let gone: Vec<String> = all.iter().filter(|n| used.contains(&n.as_str())).cloned().collect();
        let new = uniq(&locals, &b);
        fresh = new.clone();
        let at = |l: &[String], n: &String| l.iter().position(|x| x == n);
        if !gone.is_empty() {
            if b.len() == locals.len() && all.len() == new.len() && all.iter().zip(new.iter()).all(|(x, y)| at(&b, x) == at(&locals, y)) {
                ren = all.into_iter().zip(new).collect();
                notes.push("annotations follow renamed locals".into());
            } else if gone.len() == new.len() {
                ren = gone.into_iter().zip(new).collect();
                if ren.iter().any(|x| !params_ren.contains(x)) {
                    notes.push("strange: annotations follow locals that may be renamed".into());
                }
            }
        }
    }
    let r = |s: &str| {
        let s = if ren.is_empty() { s.to_string() } else { rename_words(s, &ren) };
        apart(&s, &fresh)
    };

    for n in 0..loops {
        let inv = dir.loops.get(&n).map(|x| format!("\n{}", r(&x.1))).unwrap_or_default();
        body = body.replace(&format!("/*VX:LOOP{}*/", n), &inv);
        let ls = dir.loopstart.get(&n).map(|x| format!("\n{}", r(x))).unwrap_or_default();
        body = body.replace(&format!("/*VX:LS{}*/", n), &ls);
        let le = dir.loopend.get(&n).map(|x| format!("\n{}", r(x))).unwrap_or_default();
        body = body.replace(&format!("/*VX:LE{}*/", n), &le);
    }
    let mut start = r(&dir.start);
    struct Asks(bool);
    impl<'x> Visit<'x> for Asks {
        fn visit_expr_try(&mut self, _: &'x ExprTry) {
            self.0 = true;
        }
    }
    let mut asks = Asks(false);
    asks.visit_block(&block);
    if asks.0 && !env.questions.is_empty() {
        start.push_str(&format!("proof {{ broadcast use {}; }}\n", env.questions.join(", ")));
    }
    if !new_lits.is_empty() {
        start.push_str("proof { ");
        for l in &new_lits {
            start.push_str(&format!("reveal_strlit({}); ", l));
        }
        start.push_str("}\n");
        notes.push("texts that are new to the contract revealed".into());
    }
    if probe {
        start.push_str("proof { assert(false); }\n");
    }
    if !start.is_empty() {
        let p = body.find('{').ok_or("no body")?;
        body.insert_str(p + 1, &format!("\n{}", start));
    }
    if degraded || dir.opts.contains("external") {
        body = "{ unimplemented!() }".into();
    }

    // 5. Signature.
    let name = dir.name.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut gens = if found.closure.is_some() { String::new() } else { slice(&text, &sig.generics) };
    for (a, b, _) in &dir.subs {
        if let Some(new) = loose_replace(&gens, a, b) {
            gens = new;
        }
    }
    let mut inputs = match &params {
        Some(p) => p.clone(),
        None => {
            let v: Vec<String> = sig
                .inputs
                .iter()
                .enumerate()
                .map(|(i, a)| {
                    let t = match a {
                        FnArg::Typed(p) if matches!(*p.pat, Pat::Wild(_)) => format!("vx_arg{}: {}", i, &text[range(&*p.ty)]),
                        a => text[range(a)].to_string(),
                    };
                    if dir.opts.contains("self_mut") && toks(a) == "&self" {
                        "&mut self".to_string()
                    } else if mut_self && toks(a).replace(" ", "") == "mutself" {
                        "self".to_string()
                    } else {
                        t
                    }
                })
                .collect();
            v.join(", ")
        }
    };
    if dir.opts.contains("world") {
        let t = inputs.trim().trim_end_matches(',').to_string();
        inputs = format!("{}{}Tracked(vx_w): Tracked<&mut World>", t, if t.is_empty() { "" } else { ", " });
    }
    let mut out_ty = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some(text[range(&**t)].to_string()),
    };
    if found.closure.is_some() {
        out_ty = None;
    }
    let mut retname = dir.ret.clone();
    if let Some(x) = &retname {
        if let Some((n, t)) = x.split_once(':') {
            out_ty = Some(t.trim().to_string());
            retname = Some(n.trim().to_string());
        }
    }
    for (a, b, _) in &dir.subs {
        if let Some(t) = &mut out_ty {
            if let Some(new) = loose_replace(t, a, b) {
                *t = new;
            }
        }
        if let Some(new) = loose_replace(&inputs, a, b) {
            inputs = new;
        }
    }
    let ret = match (out_ty, retname) {
        (None, _) => String::new(),
        (Some(t), Some(n)) => format!(" -> ({}: {})", n, t),
        (Some(t), None) => format!(" -> {}", t),
    };
    let wher = if found.closure.is_some() {
        String::new()
    } else {
        match &sig.generics.where_clause {
            Some(w) => {
                let mut w = strip_comments(&text[range(w)]);
                for (a, b, _) in &dir.subs {
                    if let Some(new) = loose_replace(&w, a, b) {
                        w = new;
                    }
                }
                format!("\n{}", w)
            }
            None => String::new(),
        }
    };
    let vis = if dir.opts.contains("nopub") { "" } else { "pub " };
    let ext = if degraded || dir.opts.contains("external") { "#[verifier::external_body]\n" } else { "" };
    let mut o = format!(
        "{}{}{}fn {}{}({}){}{}\n{}{}\n",
        dir.attr,
        ext,
        vis,
        name,
        gens,
        inputs,
        ret,
        wher,
        rename_words(&dir.spec, &params_ren),
        body
    );
    if let Some(h) = &dir.implhdr {
        o = format!("{} {{\n{}\n}}\n", h, o);
    } else if let (Some(i), false) = (found.imp, dir.opts.contains("bare")) {
        let all = range(i);
        let b = i.brace_token.span.open().byte_range();
        let mut hdr = strip_comments(&src.text[all.start..b.start]);
        for a in &i.attrs {
            hdr = hdr.replace(&src.text[range(a)], "");
        }
        o = format!("{} {{\n{}\n}}\n", hdr.trim(), o);
    }
    Ok((o, now))
}

fn slice(text: &str, g: &Generics) -> String {
    match (&g.lt_token, &g.gt_token) {
        (Some(a), Some(b)) => text[range(a).start..range(b).end].to_string(),
        _ => String::new(),
    }
}

/// Removes the comments, except the marks of vx.
pub fn strip_comments(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            // string literal
            o.push(b[i]);
            i += 1;
            while i < b.len() {
                o.push(b[i]);
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    o.push(b[i]);
                } else if b[i] == '"' {
                    i += 1;
                    break;
                }
                i += 1;
            }
            continue;
        }
        if b[i] == '\'' {
            // char literal (or a lifetime)
            if i + 2 < b.len() && b[i + 1] == '\\' {
                let mut j = i + 2;
                while j < b.len() && b[j] != '\'' || j == i + 2 {
                    j += 1;
                }
                o.extend(&b[i..=j.min(b.len() - 1)]);
                i = j + 1;
                continue;
            }
            if i + 2 < b.len() && b[i + 2] == '\'' {
                o.extend(&b[i..i + 3]);
                i += 3;
                continue;
            }
        }
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '*' {
            let rest: String = b[i..(i + 6).min(b.len())].iter().collect();
            if rest.starts_with("/*VX:") {
                o.push(b[i]);
                i += 1;
                continue;
            }
            let mut depth = 0;
            while i < b.len() {
                if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '*' {
                    depth += 1;
                    i += 2;
                } else if b[i] == '*' && i + 1 < b.len() && b[i + 1] == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

/// Replaces `pat` wherever it occurs, however it is spaced.
pub fn loose_replace(text: &str, pat: &str, rep: &str) -> Option<String> {
    let t: Vec<char> = text.chars().collect();
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    let mut found = false;
    if p.is_empty() {
        return None;
    }
    while i < t.len() {
        let mut j = i;
        let mut k = 0;
        if t[i] == p[0] && !(word(p[0]) && i > 0 && word(t[i - 1])) {
            while j < t.len() && k < p.len() {
                if t[j] == p[k] {
                    k += 1;
                    j += 1;
                } else if t[j].is_whitespace() {
                    j += 1;
                } else {
                    break;
                }
            }
        }
        if k == p.len() && !(word(p[k - 1]) && p[k - 1] != '_' && j < t.len() && word(t[j])) {
            out.push_str(rep);
            found = true;
            i = j;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    if found { Some(out) } else { None }
}

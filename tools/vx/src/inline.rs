//! Inlining of the local helpers that have no contract in the unit, so moving
//! part of a function under contract to a helper doesn't lose the proof.
use crate::find::*;
use crate::Source;
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper {
    sig: Signature,
    block: Block,
    imp: Option<String>,
}

pub fn helpers(src: &Source, listed: &HashSet<String>) -> HashMap<String, Helper> {
    let mut m: HashMap<String, Vec<Helper>> = HashMap::new();
    for it in all_items(&src.ast.items) {
        match it {
            Item::Fn(f) if !skip(&f.attrs) => m.entry(f.sig.ident.to_string()).or_default().push(Helper {
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                imp: None,
            }),
            Item::Impl(i) if i.trait_.is_none() && !skip(&i.attrs) => {
                for ii in &i.items {
                    if let ImplItem::Fn(f) = ii {
                        if !skip(&f.attrs) {
                            m.entry(f.sig.ident.to_string()).or_default().push(Helper {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                imp: Some(impl_self(i)),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    m.into_iter()
        .filter(|(k, v)| v.len() == 1 && !listed.contains(k))
        .map(|(k, mut v)| (k, v.pop().unwrap()))
        .collect()
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn ret_stmt(s: &Stmt) -> bool {
    let mut h = HasRet(false);
    h.visit_stmt(s);
    h.0
}
fn ret_block(b: &Block) -> bool {
    b.stmts.iter().any(ret_stmt)
}
fn ret_expr(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr(e);
    h.0
}

fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => {
            diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false)
        }
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}
fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => diverges_expr(e),
        _ => false,
    }
}

fn block_of(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn block_expr(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: block_of(stmts) })
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// Appends `rest` to a sequence whose value is ().
fn then(mut a: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi)) = a.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
    a.extend(rest.iter().cloned());
    a
}

/// Rewrites a sequence of statements so it yields its value without `return`.
fn elim(stmts: &[Stmt], depth: usize) -> Option<Vec<Stmt>> {
    if depth > 40 {
        return None;
    }
    let i = match stmts.iter().position(ret_stmt) {
        None => return Some(stmts.to_vec()),
        Some(i) => i,
    };
    let mut out: Vec<Stmt> = stmts[..i].to_vec();
    let rest = &stmts[i + 1..];
    let last = rest.is_empty();
    let tail = match &stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => match &r.expr {
            Some(e) => {
                if ret_expr(e) {
                    elim_tail(e, depth + 1)?
                } else {
                    (**e).clone()
                }
            }
            None => parse_quote!(()),
        },
        Stmt::Expr(e, None) if last => elim_tail(e, depth + 1)?,
        Stmt::Expr(e, _) => branch(e, &mut |b| Some(then(b, rest)), depth)?,
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if init.diverge.is_some() {
                return None;
            }
            let pat = l.pat.clone();
            branch(
                &init.expr,
                &mut |mut b| {
                    // the value of the branch is bound to the pattern
                    let v = match b.pop()? {
                        Stmt::Expr(e, None) => e,
                        _ => return None,
                    };
                    b.push(parse_quote!(let #pat = #v;));
                    b.extend(rest.iter().cloned());
                    Some(b)
                },
                depth,
            )?
        }
        _ => return None,
    };
    out.push(Stmt::Expr(tail, None));
    Some(out)
}

fn elim_tail(e: &Expr, depth: usize) -> Option<Expr> {
    match e {
        Expr::Return(r) => match &r.expr {
            Some(e) => elim_tail(e, depth),
            None => Some(parse_quote!(())),
        },
        e if !ret_expr(e) => Some(e.clone()),
        Expr::If(_) | Expr::Match(_) | Expr::Block(_) => branch(e, &mut |b| Some(b), depth),
        Expr::Try(_) => None,
        _ => None,
    }
}

/// Continues every branch of `e` that does not return with `k`.
fn branch(e: &Expr, k: &mut dyn FnMut(Vec<Stmt>) -> Option<Vec<Stmt>>, depth: usize) -> Option<Expr> {
    let mut one = |b: Vec<Stmt>, k: &mut dyn FnMut(Vec<Stmt>) -> Option<Vec<Stmt>>| -> Option<Vec<Stmt>> {
        let b = if diverges(&b) { b } else { k(b)? };
        elim(&b, depth + 1)
    };
    match e {
        Expr::If(i) => {
            if ret_expr(&i.cond) {
                return None;
            }
            let t = one(i.then_branch.stmts.clone(), k)?;
            let f = match &i.else_branch {
                None => one(vec![], k)?,
                Some((_, e)) => one(stmts_of(e), k)?,
            };
            let mut n = i.clone();
            n.then_branch = block_of(t);
            n.else_branch = Some((Default::default(), Box::new(block_expr(f))));
            Some(Expr::If(n))
        }
        Expr::Match(m) => {
            if ret_expr(&m.expr) {
                return None;
            }
            let mut n = m.clone();
            for a in n.arms.iter_mut() {
                let b = one(stmts_of(&a.body), k)?;
                a.body = Box::new(block_expr(b));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(n))
        }
        Expr::Block(b) if b.label.is_none() => Some(block_expr(one(b.block.stmts.clone(), k)?)),
        Expr::Try(t) if !ret_expr(&t.expr) => {
            let inner = &t.expr;
            let ok = one(vec![parse_quote!(vx_ok)].into_iter().map(|e: Expr| Stmt::Expr(e, None)).collect(), k)?;
            let okb = block_of(ok);
            Some(parse_quote!(match #inner { Ok(vx_ok) => #okb, Err(vx_err) => Err(vx_err) }))
        }
        _ => None,
    }
}

/// Replaces the values `Ok(v)`, `Err(e)` in tail position when the block
/// replaces `helper(..)?`.
fn untry_tail(stmts: &mut Vec<Stmt>) -> bool {
    match stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => untry_expr(e),
        Some(Stmt::Expr(e, Some(_))) => diverges_expr(e),
        _ => false,
    }
}
fn untry_expr(e: &mut Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::If(i) => {
            let a = untry_tail(&mut i.then_branch.stmts);
            let b = match &mut i.else_branch {
                Some((_, e)) => untry_expr(e),
                None => false,
            };
            a && b
        }
        Expr::Match(m) => {
            let mut r = true;
            for a in m.arms.iter_mut() {
                r &= untry_expr(&mut a.body);
            }
            r
        }
        Expr::Block(b) => untry_tail(&mut b.block.stmts),
        Expr::Call(c) => {
            let f = toks(&c.func);
            if f == "Ok" && c.args.len() == 1 {
                let v = c.args[0].clone();
                *e = v;
            } else if f == "Err" {
                let v = e.clone();
                *e = parse_quote!(return #v);
            } else {
                let v = e.clone();
                *e = parse_quote!(#v?);
            }
            true
        }
        other => {
            let v = other.clone();
            *other = parse_quote!(#v?);
            true
        }
    }
}

/// A `return Ok(..)` that is not in tail position prevents the `?` form.
struct RetOk(bool);
impl<'a> Visit<'a> for RetOk {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        match &r.expr {
            Some(e) => {
                if !toks(e).starts_with("Err(") {
                    self.0 = true
                }
            }
            None => self.0 = true,
        }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("vx_self", i.span());
        }
    }
}

pub struct Inliner<'a> {
    pub helpers: &'a HashMap<String, Helper>,
    pub imp: Option<String>,
    pub caller: String,
    pub tail: bool,
    pub done: Vec<String>,
    pub failed: Vec<String>,
    pub depth: usize,
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}

fn without_continue(b: &Expr) -> Option<Vec<Stmt>> {
    let mut s = stmts_of(b);
    match s.last() {
        Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none() => {
            s.pop();
            Some(s)
        }
        _ => None,
    }
}

/// A `let` whose only other way out is a continue takes the rest of the body
/// inside.
fn continue_to_else(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        let Stmt::Local(l) = s else { continue };
        let Some(init) = &l.init else { continue };
        let rest = continue_to_else(&stmts[i + 1..]).unwrap_or_else(|| stmts[i + 1..].to_vec());
        let (pat, from) = (&l.pat, &init.expr);
        let inner: Expr = match (&init.diverge, &**from) {
            (Some((_, d)), _) => {
                let other = without_continue(d)?;
                parse_quote!(if let #pat = #from { #(#rest)* } else { #(#other)* })
            }
            (None, Expr::Match(m)) => {
                let mut m = m.clone();
                let mut kept = 0;
                for a in m.arms.iter_mut() {
                    match without_continue(&a.body) {
                        Some(o) => *a.body = parse_quote!({ #(#o)* }),
                        None => {
                            kept += 1;
                            let v = &a.body;
                            *a.body = parse_quote!({ let #pat = #v; #(#rest)* });
                        }
                    }
                }
                if kept != 1 || kept == m.arms.len() {
                    continue;
                }
                Expr::Match(m)
            }
            _ => continue,
        };
        let mut v = stmts[..i].to_vec();
        v.push(Stmt::Expr(inner, None));
        return Some(v);
    }
    None
}

fn strip_lifetimes(t: &Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t
}

impl<'a> Inliner<'a> {
    fn lookup(&self, e: &Expr) -> Option<(String, &'a Helper, Vec<Expr>, Option<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let name = p.segments.last()?.ident.to_string();
                let h = self.helpers.get(&name)?;
                let prefix = if p.segments.len() > 1 {
                    Some(p.segments[p.segments.len() - 2].ident.to_string())
                } else {
                    None
                };
                match (&prefix, &h.imp) {
                    (None, None) => {}
                    (Some(a), None) if a == "self" || a == "super" || a == "crate" => {}
                    (Some(a), Some(t)) if a == "Self" && Some(t) == self.imp.as_ref() => {}
                    (Some(a), Some(t)) if a == t => {}
                    _ => return None,
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if h.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    recv = Some(args.remove(0));
                }
                Some((name, h, args, recv))
            }
            Expr::MethodCall(c) => {
                let name = c.method.to_string();
                let h = self.helpers.get(&name)?;
                if h.imp.is_none() || h.sig.receiver().is_none() {
                    return None;
                }
                if toks(&c.receiver) != "self" || h.imp != self.imp {
                    return None;
                }
                Some((name, h, c.args.iter().cloned().collect(), Some((*c.receiver).clone())))
            }
            _ => None,
        }
    }

    /// Builds the block that replaces a call.
    fn build(&mut self, name: &str, h: &Helper, args: Vec<Expr>, recv: Option<Expr>, tail: bool, tried: bool) -> Option<Expr> {
        if name == self.caller || self.depth > 6 {
            return None;
        }
        if h.sig.asyncness.is_some() {
            return None;
        }
        let mut body = h.block.clone();
        let mut pre: Vec<Stmt> = Vec::new();
        if let Some(r) = &recv {
            let rt = toks(r);
            if rt != "self" {
                RenameSelf.visit_block_mut(&mut body);
                pre.push(parse_quote!(let vx_self = #r;));
            }
        }
        let generic: HashSet<String> = h
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut pats: Vec<Pat> = Vec::new();
        let mut tys: Vec<Type> = Vec::new();
        for a in &h.sig.inputs {
            if let FnArg::Typed(t) = a {
                pats.push((*t.pat).clone());
                let ts = toks(&t.ty);
                let uses_generic = ts.contains("impl")
                    || ts.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| generic.contains(w));
                if uses_generic {
                    tys.push(parse_quote!(_));
                } else {
                    tys.push(strip_lifetimes(&t.ty));
                }
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        if pats.len() == 1 {
            let (p, t, a) = (&pats[0], &tys[0], &args[0]);
            if toks(p) != toks(a) {
                if toks(t) == "_" {
                    pre.push(parse_quote!(let #p = #a;));
                } else {
                    pre.push(parse_quote!(let #p: #t = #a;));
                }
            }
        } else if !pats.is_empty() {
            // first evaluate, then bind
            let tmp: Vec<Ident> =
                (0..pats.len()).map(|i| Ident::new(&format!("vx_a{}", i), proc_macro2::Span::call_site())).collect();
            for i in 0..pats.len() {
                let (t, ty, a) = (&tmp[i], &tys[i], &args[i]);
                if toks(&pats[i]) == toks(a) {
                    continue;
                }
                if toks(ty) == "_" {
                    pre.push(parse_quote!(let #t = #a;));
                } else {
                    pre.push(parse_quote!(let #t: #ty = #a;));
                }
            }
            for i in 0..pats.len() {
                let (t, p) = (&tmp[i], &pats[i]);
                if toks(p) == toks(&args[i]) {
                    continue;
                }
                pre.push(parse_quote!(let #p = #t;));
            }
        }
        let unit_ret = matches!(h.sig.output, ReturnType::Default);
        if ret_block(&body) {
            if tried {
                let mut r = RetOk(false);
                r.visit_block(&body);
                // the tail of the block may legitimately return Ok
                let mut st = body.stmts.clone();
                if r.0 {
                    st = elim(&st, 0)?;
                }
                if !untry_tail(&mut st) {
                    return None;
                }
                body.stmts = st;
            } else if tail {
                // returning from the helper is returning from the caller
            } else {
                body.stmts = elim(&body.stmts, 0)?;
            }
        } else if tried {
            if !untry_tail(&mut body.stmts) {
                return None;
            }
        }
        if unit_ret && !tail {
            if let Some(Stmt::Expr(_, s)) = body.stmts.last_mut() {
                if s.is_none() {
                    *s = Some(Default::default());
                }
            }
        }
        let mut all = pre;
        all.extend(body.stmts);
        // nested helpers
        let mut e = block_expr(all);
        let saved = (self.tail, self.caller.clone());
        self.depth += 1;
        self.tail = tail;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        self.tail = saved.0;
        self.done.push(name.to_string());
        Some(e)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let tail = self.tail;
        let n = b.stmts.len();
        let mut after_loop = false;
        for (i, s) in b.stmts.iter_mut().enumerate() {
            self.tail = tail && i + 1 == n && matches!(s, Stmt::Expr(_, None));
            let was_block = matches!(s, Stmt::Expr(Expr::Block(_), _));
            self.visit_stmt_mut(s);
            // The contract of a loop can not be followed by two blocks.
            if after_loop && !was_block {
                if let Stmt::Expr(e @ Expr::Block(_), _) = s {
                    let block = e.clone();
                    *e = parse_quote!((#block));
                }
            }
            after_loop = matches!(s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
        }
        self.tail = tail;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let tail = self.tail;
        match e {
            Expr::If(i) => {
                self.tail = false;
                self.visit_expr_mut(&mut i.cond);
                self.tail = tail;
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail = tail;
                    self.visit_expr_mut(e);
                }
                self.tail = tail;
                return;
            }
            Expr::Match(m) => {
                self.tail = false;
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail = tail;
                    self.visit_expr_mut(&mut a.body);
                }
                self.tail = tail;
                return;
            }
            Expr::Block(b) => {
                self.visit_block_mut(&mut b.block);
                return;
            }
            Expr::Return(r) => {
                if let Some(e) = &mut r.expr {
                    self.tail = true;
                    self.visit_expr_mut(e);
                }
                self.tail = tail;
                return;
            }
            Expr::Closure(c) => {
                // `return` has another meaning inside a closure
                self.tail = false;
                self.visit_expr_mut(&mut c.body);
                self.tail = tail;
                return;
            }
            // A helper given by its name.
            Expr::MethodCall(c) => {
                for a in c.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        let call: Expr = parse_quote!(#p(vx_p0));
                        if let Some((_, h, args, None)) = self.lookup(&call) {
                            if let (1, Some(FnArg::Typed(t))) = (args.len(), h.sig.inputs.first()) {
                                if h.sig.generics.params.is_empty() && h.sig.inputs.len() == 1 {
                                    let ty = &t.ty;
                                    *a = parse_quote!(|vx_p0: #ty| #call);
                                }
                            }
                        }
                    }
                }
                if let (true, Some(Expr::Closure(f))) = (c.method == "get_or_insert_with" && c.args.len() == 1 && place(&c.receiver), c.args.first()) {
                    if f.inputs.is_empty() {
                        let (r, v) = (&c.receiver, &f.body);
                        *e = parse_quote!({
                            if #r.is_none() {
                                #r = Some(#v);
                            }
                            #r.as_mut().unwrap()
                        });
                        self.done.push("get_or_insert_with".into());
                    }
                }
            }
            Expr::ForLoop(l) if !matches!(&*l.expr, Expr::Reference(_)) => {
                if let Some(b) = continue_to_else(&l.body.stmts) {
                    l.body.stmts = b;
                    self.done.push("continue".into());
                }
            }
            Expr::Try(t) => {
                if let Some((name, h, args, recv)) = self.lookup(&t.expr) {
                    match self.build(&name, h, args, recv, false, true) {
                        Some(n) => {
                            *e = n;
                            return;
                        }
                        None => self.failed.push(name),
                    }
                }
            }
            _ => {}
        }
        self.tail = false;
        visit_mut::visit_expr_mut(self, e);
        self.tail = tail;
        if let Some((name, h, args, recv)) = self.lookup(e) {
            match self.build(&name, h, args, recv, tail, false) {
                Some(n) => *e = n,
                None => self.failed.push(name),
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

//! Matches with guards, in functions with a ghost world.
//!
//! `match E { P if G => A, rest }` becomes
//! `match E { P => if G { A } else { match P { rest } }, rest }`
//! (the pattern P is rebuilt as an expression): the verifier forgets the final
//! value of a mutable reference on the paths that follow a guard.
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Guards {
    pub done: usize,
    fresh: usize,
}

impl Guards {
    pub fn new() -> Guards {
        Guards { done: 0, fresh: 0 }
    }
    // The pattern with names for its wild cards, and the same as an expression.
    fn rebuild(&mut self, p: &Pat) -> Option<(Pat, Expr)> {
        Some(match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                let id = &i.ident;
                (p.clone(), parse_quote!(#id))
            }
            Pat::Lit(l) => {
                if let Lit::Str(_) = l.lit {
                    return None;
                }
                let l = &l.lit;
                (p.clone(), parse_quote!(#l))
            }
            Pat::Path(q) => (p.clone(), Expr::Path(q.clone())),
            Pat::Paren(q) => self.rebuild(&q.pat)?,
            Pat::Wild(_) => {
                self.fresh += 1;
                let id = Ident::new(&format!("vx_g{}", self.fresh), proc_macro2::Span::call_site());
                (parse_quote!(#id), parse_quote!(#id))
            }
            Pat::TupleStruct(t) => {
                let mut ps: Vec<Pat> = vec![];
                let mut es: Vec<Expr> = vec![];
                for e in &t.elems {
                    let (a, b) = self.rebuild(e)?;
                    ps.push(a);
                    es.push(b);
                }
                let path = &t.path;
                let q = Pat::TupleStruct(PatTupleStruct { elems: ps.into_iter().collect(), ..t.clone() });
                (q, parse_quote!(#path(#(#es),*)))
            }
            Pat::Tuple(t) => {
                let mut ps: Vec<Pat> = vec![];
                let mut es: Vec<Expr> = vec![];
                for e in &t.elems {
                    let (a, b) = self.rebuild(e)?;
                    ps.push(a);
                    es.push(b);
                }
                if es.len() < 2 {
                    return None;
                }
                let q = Pat::Tuple(PatTuple { elems: ps.into_iter().collect(), ..t.clone() });
                (q, parse_quote!((#(#es),*)))
            }
            _ => return None,
        })
    }
    fn arms(&mut self, arms: &[Arm]) -> Option<Vec<Arm>> {
        let Some((a, rest)) = arms.split_first() else { return Some(vec![]) };
        if let (Pat::Or(o), Some(_)) = (&a.pat, &a.guard) {
            let mut v: Vec<Arm> = o.cases.iter().map(|c| Arm { pat: c.clone(), comma: Some(Default::default()), ..a.clone() }).collect();
            v.extend(rest.iter().cloned());
            return self.arms(&v);
        }
        let mut rest = self.arms(rest)?;
        let mut a = a.clone();
        if let Some((_, g)) = a.guard.take() {
            let (p, e) = self.rebuild(&a.pat)?;
            let body = &a.body;
            let fit: Vec<&Arm> = rest.iter().filter(|r| may_match(&r.pat, &p)).collect();
            let other: Expr = match fit.first() {
                None => return None,
                Some(r) => match lets(&r.pat, &p, &e) {
                    Some(l) => {
                        let b = &r.body;
                        parse_quote!({ #(#l)* #b })
                    }
                    None => parse_quote!(match #e { #(#fit)* }),
                },
            };
            a.body = Box::new(parse_quote!({ if #g { #body } else { #other } }));
            a.pat = p;
            self.done += 1;
        }
        a.comma = Some(Default::default());
        rest.insert(0, a);
        Some(rest)
    }
}

fn name(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
// Whether the pattern a can match a value of the pattern b (never a wrong no).
fn may_match(a: &Pat, b: &Pat) -> bool {
    match (a, b) {
        (Pat::Paren(a), _) => may_match(&a.pat, b),
        (Pat::TupleStruct(a), Pat::TupleStruct(b)) => {
            name(&a.path) == name(&b.path)
                && (a.elems.len() != b.elems.len() || a.elems.iter().zip(b.elems.iter()).all(|(x, y)| may_match(x, y)))
        }
        (Pat::Lit(a), Pat::Lit(b)) => a == b,
        _ => true,
    }
}
// The bindings of the pattern a for a value of the pattern b, written as e,
// when it always matches.
fn lets(a: &Pat, b: &Pat, e: &Expr) -> Option<Vec<Stmt>> {
    match (a, b, e) {
        (Pat::Paren(a), _, _) => lets(&a.pat, b, e),
        (Pat::Wild(_), _, _) => Some(vec![]),
        (Pat::Ident(i), _, _) if i.by_ref.is_none() && i.subpat.is_none() => {
            if i.ident.to_string().starts_with(char::is_uppercase) {
                return None;
            }
            if let (Pat::Ident(_), Expr::Path(q)) = (b, e) {
                if q.path.is_ident(&i.ident) {
                    return Some(vec![]);
                }
            }
            Some(vec![parse_quote!(let #i = #e;)])
        }
        (Pat::Lit(x), Pat::Lit(y), _) if x == y => Some(vec![]),
        (Pat::TupleStruct(x), Pat::TupleStruct(y), Expr::Call(c))
            if name(&x.path) == name(&y.path) && x.elems.len() == y.elems.len() && c.args.len() == x.elems.len() && x.elems.len() == 1 =>
        {
            lets(&x.elems[0], &y.elems[0], &c.args[0])
        }
        _ => None,
    }
}

impl VisitMut for Guards {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Match(m) = e {
            let plain = matches!(&*m.expr, Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) | Expr::Tuple(_));
            if plain && m.arms.iter().any(|a| a.guard.is_some()) {
                let d = self.done;
                match self.arms(&m.arms) {
                    Some(a) => m.arms = a,
                    None => self.done = d,
                }
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Tokens as text, with a line for every statement and arm.
pub fn print(ts: proc_macro2::TokenStream, brace: bool, out: &mut String) {
    use proc_macro2::{Delimiter, Spacing, TokenTree};
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Parenthesis => ("(", ") "),
                    Delimiter::Bracket => ("[", "] "),
                    Delimiter::None => ("", " "),
                };
                out.push_str(a);
                print(g.stream(), g.delimiter() == Delimiter::Brace, out);
                out.push_str(b);
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if brace && (p.as_char() == ';' || p.as_char() == ',') {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}

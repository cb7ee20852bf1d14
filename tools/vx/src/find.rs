use crate::Source;
use quote::ToTokens;
use syn::spanned::Spanned;

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    squash(&t.to_token_stream().to_string())
}

pub fn skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = toks(a);
        t.contains("cfg(test)") || t.contains("cfg(wruster_verif)")
    })
}

/// A function found in the sources: its impl (if any) and its item.
#[derive(Clone)]
pub struct Found<'a> {
    pub imp: Option<&'a syn::ItemImpl>,
    pub attrs: &'a [syn::Attribute],
    pub sig: &'a syn::Signature,
    pub block: &'a syn::Block,
    pub span: proc_macro2::Span,
    pub closure: Option<usize>,
}

impl<'a> Found<'a> {
    pub fn lines(&self) -> (usize, usize) {
        (self.span.start().line, self.span.end().line)
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => toks(t),
    }
}

pub fn impl_self(i: &syn::ItemImpl) -> String {
    type_name(&i.self_ty)
}

fn impl_matches(i: &syn::ItemImpl, ty: &str, tr: Option<&str>) -> bool {
    if skip(&i.attrs) {
        return false;
    }
    let st = type_name(&i.self_ty);
    if st != ty && toks(&i.self_ty) != ty {
        return false;
    }
    match (tr, &i.trait_) {
        (None, None) => true,
        (Some(t), Some((_, p, _))) => {
            let last = p.segments.last().unwrap();
            last.ident == t || toks(last) == t || toks(p) == t
        }
        _ => false,
    }
}

pub fn last_name(path: &str) -> String {
    let p = path.split('#').next().unwrap();
    p.rsplit("::").next().unwrap().trim().to_string()
}

pub fn all_items(items: &[syn::Item]) -> Vec<&syn::Item> {
    let mut v = Vec::new();
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                if skip(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    v.extend(all_items(its));
                }
            }
            _ => v.push(it),
        }
    }
    v
}

pub fn function<'a>(src: &'a Source, path: &str) -> Option<Found<'a>> {
    let (p, closure) = match path.split_once('#') {
        Some((p, c)) => (p, c.strip_prefix("closure").and_then(|n| n.parse::<usize>().ok())),
        None => (path, None),
    };
    let mut f = function_plain(src, p)?;
    f.closure = closure;
    Some(f)
}

fn function_plain<'a>(src: &'a Source, path: &str) -> Option<Found<'a>> {
    let items = all_items(&src.ast.items);
    let (ty, tr, name): (Option<String>, Option<String>, String) = if path.starts_with('<') {
        // <Type as Trait>::name
        let end = path.rfind(">::")?;
        let inner = &path[1..end];
        let (a, b) = inner.split_once(" as ")?;
        (Some(squash(a)), Some(squash(b)), path[end + 3..].to_string())
    } else if let Some((t, n)) = path.rsplit_once("::") {
        (Some(t.to_string()), None, n.to_string())
    } else {
        (None, None, path.to_string())
    };
    for it in items {
        match (it, &ty) {
            (syn::Item::Fn(f), None) if f.sig.ident == name && !skip(&f.attrs) => {
                return Some(Found { imp: None, attrs: &f.attrs, sig: &f.sig, block: &f.block, span: f.span(), closure: None })
            }
            (syn::Item::Impl(i), Some(t)) if impl_matches(i, t, tr.as_deref()) => {
                for ii in &i.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name && !skip(&f.attrs) {
                            return Some(Found {
                                imp: Some(i),
                                attrs: &f.attrs,
                                sig: &f.sig,
                                block: &f.block,
                                span: f.span(),
                                closure: None,
                            });
                        }
                    }
                }
            }
            (syn::Item::Trait(t), Some(tn)) if t.ident == tn && tr.is_none() => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(Found { imp: None, attrs: &f.attrs, sig: &f.sig, block: b, span: f.span(), closure: None });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

pub fn item<'a>(src: &'a Source, kind: &str, name: &str) -> Option<&'a syn::Item> {
    for it in all_items(&src.ast.items) {
        let ok = match (kind, it) {
            ("struct", syn::Item::Struct(s)) => s.ident == name,
            ("enum", syn::Item::Enum(s)) => s.ident == name,
            ("const", syn::Item::Const(s)) => s.ident == name,
            ("type", syn::Item::Type(s)) => s.ident == name,
            ("trait", syn::Item::Trait(s)) => s.ident == name,
            _ => false,
        };
        if ok {
            return Some(it);
        }
    }
    None
}

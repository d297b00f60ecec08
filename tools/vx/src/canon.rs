//! Normalised names: impl headers without lifetimes, paths, `Self`, generic names.
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

pub struct Canon<'a> {
    pub generics: Vec<String>,
    pub order: Vec<String>,
    pub self_ty: Option<&'a Type>,
}

const BINOPS: &[&str] = &[
    "Add", "Sub", "Mul", "Div", "Rem", "AddAssign", "SubAssign", "MulAssign", "DivAssign", "PartialEq", "PartialOrd",
];

impl<'a> Canon<'a> {
    fn ident(&mut self, s: &str) -> String {
        if self.generics.iter().any(|g| g == s) {
            let n = match self.order.iter().position(|g| g == s) {
                Some(n) => n,
                None => {
                    self.order.push(s.to_string());
                    self.order.len() - 1
                }
            };
            format!("${}", n)
        } else {
            s.to_string()
        }
    }
    pub fn ty(&mut self, t: &Type) -> String {
        match t {
            Type::Path(p) => {
                if p.qself.is_none() && p.path.is_ident("Self") {
                    if let Some(st) = self.self_ty {
                        let saved = self.self_ty.take();
                        let r = self.ty(st);
                        self.self_ty = saved;
                        return r;
                    }
                }
                if let Some(q) = &p.qself {
                    let q = self.ty(&q.ty);
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    return format!("<{}>::{}", q, segs.join("::"));
                }
                self.path(&p.path)
            }
            Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.ty(&r.elem)),
            Type::Array(a) => {
                let e = self.ty(&a.elem);
                let l = self.expr(&a.len);
                format!("[{};{}]", e, l)
            }
            Type::Slice(a) => format!("[{}]", self.ty(&a.elem)),
            Type::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|e| self.ty(e)).collect();
                format!("({})", v.join(","))
            }
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            _ => t.to_token_stream().to_string(),
        }
    }
    fn expr(&mut self, e: &Expr) -> String {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                return self.ident(&i.to_string());
            }
        }
        e.to_token_stream().to_string()
    }
    pub fn path(&mut self, p: &Path) -> String {
        if p.segments.len() == 1 && p.segments[0].arguments.is_empty() {
            return self.ident(&p.segments[0].ident.to_string());
        }
        // keep `T::Entry`, shorten `std::ops::Add`
        let first = p.segments[0].ident.to_string();
        let mut s = String::new();
        if p.segments.len() > 1 && self.generics.contains(&first) {
            s.push_str(&self.ident(&first));
            s.push_str("::");
        }
        let last = p.segments.last().unwrap();
        s.push_str(&last.ident.to_string());
        if let PathArguments::AngleBracketed(a) = &last.arguments {
            let mut v = vec![];
            for arg in &a.args {
                match arg {
                    GenericArgument::Lifetime(_) => {}
                    GenericArgument::Type(t) => v.push(self.ty(t)),
                    GenericArgument::Const(e) => v.push(self.expr(e)),
                    o => v.push(o.to_token_stream().to_string()),
                }
            }
            if !v.is_empty() {
                s.push('<');
                s.push_str(&v.join(","));
                s.push('>');
            }
        }
        s
    }
}

/// Returns the key and the generic names in the order of their first appearance.
pub fn impl_key(it: &ItemImpl) -> (String, Vec<String>) {
    let generics: Vec<String> = it
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Const(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    let mut c = Canon { generics, order: vec![], self_ty: None };
    let st = c.ty(&it.self_ty);
    c.self_ty = Some(&it.self_ty);
    let key = match &it.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            let has_args = matches!(&last.arguments, PathArguments::AngleBracketed(a) if a.args.iter().any(|x| !matches!(x, GenericArgument::Lifetime(_))));
            let name = last.ident.to_string();
            let t = if !has_args && BINOPS.contains(&name.as_str()) {
                format!("{}<{}>", name, st)
            } else if has_args {
                c.path(&Path { leading_colon: None, segments: std::iter::once(last.clone()).collect() })
            } else {
                name
            };
            format!("{} for {}", t, st)
        }
        None => st,
    };
    (key, c.order)
}

pub fn rename_tokens(ts: proc_macro2::TokenStream, map: &HashMap<String, String>) -> proc_macro2::TokenStream {
    use proc_macro2::*;
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_tokens(g.stream(), map))),
            o => o,
        })
        .collect()
}

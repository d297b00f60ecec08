//! Expands invocations of the file's own `macro_rules!` macros.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree as T};
use quote::ToTokens;
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug)]
enum B {
    One(TokenStream),
    Many(Vec<HashMap<String, B>>),
}
type Env = HashMap<String, B>;

fn is(t: Option<&T>, c: char) -> bool {
    matches!(t, Some(T::Punct(p)) if p.as_char() == c)
}
fn head<P: syn::parse::Parse + ToTokens>(ts: &[T]) -> Option<(TokenStream, Vec<T>)> {
    let s: TokenStream = ts.iter().cloned().collect();
    (|i: ParseStream| {
        let p: P = i.parse()?;
        let r: TokenStream = i.parse()?;
        Ok((p.to_token_stream(), r.into_iter().collect()))
    })
    .parse2(s)
    .ok()
}
/// `$( ... ) sep rep` at the start of `p` (after the `$`): inner, separator, operator, tokens used
fn repetition(p: &[T]) -> Option<(Vec<T>, Option<T>, char, usize)> {
    let T::Group(g) = p.first()? else { return None };
    let inner: Vec<T> = g.stream().into_iter().collect();
    for c in ['*', '+', '?'] {
        if is(p.get(1), c) {
            return Some((inner, None, c, 2));
        }
    }
    for c in ['*', '+'] {
        if is(p.get(2), c) {
            return Some((inner, Some(p[1].clone()), c, 3));
        }
    }
    None
}
fn matches(pat: &[T], inp: Vec<T>, env: &mut Env) -> Option<Vec<T>> {
    let (mut i, mut inp) = (0, inp);
    while i < pat.len() {
        if is(pat.get(i), '$') {
            if let Some(T::Ident(n)) = pat.get(i + 1) {
                let T::Ident(frag) = pat.get(i + 3)? else { return None };
                let (m, rest) = match frag.to_string().as_str() {
                    "ident" => head::<Ident>(&inp)?,
                    "ty" => head::<Type>(&inp)?,
                    "path" => head::<Path>(&inp)?,
                    "literal" => head::<Lit>(&inp)?,
                    "lifetime" => head::<Lifetime>(&inp)?,
                    "expr" => {
                        let (e, r) = head::<Expr>(&inp)?;
                        let single = e.clone().into_iter().count() == 1;
                        (if single { e } else { T::Group(Group::new(Delimiter::Parenthesis, e)).into() }, r)
                    }
                    "tt" => {
                        let mut v = inp;
                        if v.is_empty() {
                            return None;
                        }
                        (v.remove(0).into(), v)
                    }
                    _ => return None,
                };
                env.insert(n.to_string(), B::One(m));
                inp = rest;
                i += 4;
                continue;
            }
            let (inner, sep, op, used) = repetition(&pat[i + 1..])?;
            let mut many = vec![];
            loop {
                if inp.is_empty() || (op == '?' && many.len() == 1) {
                    break;
                }
                let mut rest = inp.clone();
                if let (Some(s), false) = (&sep, many.is_empty()) {
                    if rest[0].to_string() != s.to_string() {
                        break;
                    }
                    rest.remove(0);
                    if rest.is_empty() {
                        break;
                    }
                }
                let mut e = Env::new();
                match matches(&inner, rest.clone(), &mut e) {
                    Some(r) if r.len() < rest.len() => {
                        many.push(e);
                        inp = r;
                    }
                    _ => break,
                }
            }
            if op == '+' && many.is_empty() {
                return None;
            }
            let mut vars = vec![];
            variables(&inner, &mut vars);
            for v in vars {
                env.insert(v, B::Many(many.clone()));
            }
            i += 1 + used;
            continue;
        }
        if inp.is_empty() {
            return None;
        }
        let x = inp.remove(0);
        match (&pat[i], &x) {
            (T::Group(a), T::Group(b)) if a.delimiter() == b.delimiter() => {
                let p: Vec<T> = a.stream().into_iter().collect();
                if !matches(&p, b.stream().into_iter().collect(), env)?.is_empty() {
                    return None;
                }
            }
            (T::Group(_), _) | (_, T::Group(_)) => return None,
            (a, b) if a.to_string() == b.to_string() => {}
            _ => return None,
        }
        i += 1;
    }
    Some(inp)
}
fn variables(p: &[T], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        match t {
            T::Group(g) => variables(&g.stream().into_iter().collect::<Vec<_>>(), out),
            T::Ident(n) if i > 0 && is(p.get(i - 1), '$') => out.push(n.to_string()),
            _ => {}
        }
    }
}
fn fill(body: &[T], env: &Env) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < body.len() {
        if is(body.get(i), '$') {
            if let Some(T::Ident(n)) = body.get(i + 1) {
                if n == "crate" {
                    out.extend(quote::quote!(crate));
                } else {
                    match env.get(&n.to_string())? {
                        B::One(t) => out.extend(t.clone()),
                        B::Many(_) => return None,
                    }
                }
                i += 2;
                continue;
            }
            let (inner, sep, _, used) = repetition(&body[i + 1..])?;
            let mut vars = vec![];
            variables(&inner, &mut vars);
            let many = vars.iter().find_map(|v| match env.get(v) {
                Some(B::Many(m)) => Some(m),
                _ => None,
            })?;
            for (k, e) in many.iter().enumerate() {
                let mut all = env.clone();
                all.extend(e.clone());
                if let (Some(s), true) = (&sep, k > 0) {
                    out.extend(TokenStream::from(s.clone()));
                }
                out.extend(fill(&inner, &all)?);
            }
            i += 1 + used;
            continue;
        }
        match &body[i] {
            T::Group(g) => out.extend(TokenStream::from(T::Group(Group::new(g.delimiter(), fill(&g.stream().into_iter().collect::<Vec<_>>(), env)?)))),
            t => out.extend(TokenStream::from(t.clone())),
        }
        i += 1;
    }
    Some(out)
}

struct Rules(HashMap<String, Vec<(Vec<T>, Vec<T>)>>);
impl Rules {
    fn expand(&self, m: &Macro) -> Option<TokenStream> {
        let inp: Vec<T> = m.tokens.clone().into_iter().collect();
        for (p, b) in self.0.get(&m.path.get_ident()?.to_string())? {
            let mut e = Env::new();
            if matches!(matches(p, inp.clone(), &mut e), Some(r) if r.is_empty()) {
                return fill(b, &e);
            }
        }
        None
    }
    fn items(&self, v: &mut Vec<Item>) {
        for i in std::mem::take(v) {
            if let Item::Macro(m) = &i {
                if m.ident.is_none() {
                    if let Some(f) = self.expand(&m.mac).and_then(|t| syn::parse2::<File>(t).ok()) {
                        v.extend(f.items);
                        continue;
                    }
                }
            }
            v.push(i);
        }
    }
}
impl VisitMut for Rules {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, v)) = &mut m.content {
            self.items(v);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        for i in std::mem::take(&mut m.items) {
            if let ImplItem::Macro(x) = &i {
                if let Some(t) = self.expand(&x.mac) {
                    if let Ok(w) = syn::parse2::<ItemImpl>(quote::quote!(impl X { #t })) {
                        m.items.extend(w.items);
                        continue;
                    }
                }
            }
            m.items.push(i);
        }
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                if let Some(mut w) = self.expand(&m.mac).and_then(|t| syn::parse2::<Block>(quote::quote!({ #t })).ok()) {
                    let hyg = w.stmts.iter().any(|s| matches!(s, Stmt::Local(_)));
                    if m.semi_token.is_some() {
                        if let Some(Stmt::Expr(_, semi)) = w.stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                    }
                    if hyg {
                        // names bound inside are not visible outside
                        b.stmts.push(Stmt::Expr(Expr::Block(parse_quote!(#w)), None));
                    } else {
                        b.stmts.extend(w.stmts);
                    }
                    continue;
                }
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(t) = self.expand(&m.mac) {
                if let Ok(x) = syn::parse2::<Expr>(t.clone()) {
                    *e = if matches!(x, Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Struct(_)) { x } else { parse_quote!((#x)) };
                } else if let Ok(w) = syn::parse2::<Block>(quote::quote!({ #t })) {
                    *e = parse_quote!(#w);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn collect(v: &[Item], r: &mut Rules) {
    for i in v {
        match i {
            Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                let Some(n) = &m.ident else { continue };
                let t: Vec<T> = m.mac.tokens.clone().into_iter().collect();
                let mut rules = vec![];
                let mut k = 0;
                while let (Some(T::Group(p)), Some(T::Group(b))) = (t.get(k), t.get(k + 3)) {
                    rules.push((p.stream().into_iter().collect(), b.stream().into_iter().collect()));
                    k += if is(t.get(k + 4), ';') { 5 } else { 4 };
                }
                r.0.insert(n.to_string(), rules);
            }
            Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    collect(v, r);
                }
            }
            _ => {}
        }
    }
}
pub fn expand(f: &mut File) {
    let mut r = Rules(HashMap::new());
    collect(&f.items, &mut r);
    if r.0.is_empty() {
        return;
    }
    // macros may use one another
    for _ in 0..4 {
        r.items(&mut f.items);
        r.visit_file_mut(f);
    }
    let gone: Vec<String> = r.0.keys().cloned().collect();
    let txt = f.items.iter().filter(|i| !matches!(i, Item::Macro(m) if m.ident.is_some())).map(|i| i.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
    f.items.retain(|i| !matches!(i, Item::Macro(m) if m.ident.as_ref().map_or(false, |n| gone.contains(&n.to_string()) && !txt.contains(&format!("{} !", n)))));
}

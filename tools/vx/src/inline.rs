//! Calls of helper functions the contracts do not know (functions that are new in the tree) are
//! replaced by the helper's body, so that the caller is verified with what the helper does.
//! Only plain cases: no recursion, and early returns only in a helper whose call is all the caller
//! returns; everything else is left as a call (of which the verifier then knows nothing).
use crate::canon;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    sig: Signature,
    block: Block,
    ty_head: Option<Ident>,
    generics: HashSet<String>,
    /// has early exits
    leaves: bool,
}

fn test_attr(a: &[Attribute]) -> bool {
    a.iter().any(|a| {
        a.path().is_ident("test") || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
    })
}
fn gens(g: &Generics) -> Vec<String> {
    g.params
        .iter()
        .map(|p| match p {
            GenericParam::Type(t) => t.ident.to_string(),
            GenericParam::Const(t) => t.ident.to_string(),
            GenericParam::Lifetime(t) => t.lifetime.ident.to_string(),
        })
        .collect()
}
fn idents(ts: TokenStream, out: &mut HashSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
/// Early exits.
fn leaves(b: &Block) -> bool {
    struct V(bool);
    impl<'b> Visit<'b> for V {
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
        fn visit_expr_return(&mut self, _: &'b ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'b ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
/// No calls of the function itself, no exits that are not those of a function.
fn plain(b: &Block, name: &str) -> bool {
    struct V<'a>(bool, &'a str);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr_await(&mut self, _: &'b ExprAwait) {
            self.0 = false;
        }
        fn visit_item(&mut self, i: &'b Item) {
            if !matches!(i, Item::Use(_)) {
                self.0 = false;
            }
        }
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            if p.path.segments.last().map_or(false, |s| s.ident == self.1) {
                self.0 = false;
            }
        }
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            if m.method == self.1 {
                self.0 = false;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(true, name);
    v.visit_block(b);
    v.0
}
fn fn_bound(t: &TokenStream) -> bool {
    let mut ids = HashSet::new();
    idents(t.clone(), &mut ids);
    ids.iter().any(|i| ["Fn", "FnMut", "FnOnce"].contains(&i.as_str()))
}
/// The parameters that are functions.
fn fn_params(sig: &Signature) -> HashSet<String> {
    let mut g: HashSet<String> = sig
        .generics
        .params
        .iter()
        .filter_map(|p| match p {
            GenericParam::Type(t) if fn_bound(&t.bounds.to_token_stream()) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect();
    for w in sig.generics.where_clause.iter().flat_map(|w| &w.predicates) {
        if let WherePredicate::Type(t) = w {
            if fn_bound(&t.bounds.to_token_stream()) {
                g.insert(t.bounded_ty.to_token_stream().to_string());
            }
        }
    }
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => {
                let ty = match &*t.ty {
                    Type::Reference(r) => &*r.elem,
                    t => t,
                };
                let isfn = match ty {
                    Type::ImplTrait(i) => fn_bound(&i.to_token_stream()),
                    t => g.contains(&t.to_token_stream().to_string()),
                };
                match &*t.pat {
                    Pat::Ident(p) if isfn => Some(p.ident.to_string()),
                    _ => None,
                }
            }
            _ => None,
        })
        .collect()
}
fn first_order(sig: &Signature) -> bool {
    let mut s = sig.clone();
    s.ident = format_ident!("f");
    let t = s.to_token_stream();
    let mut ids = HashSet::new();
    idents(t, &mut ids);
    !ids.iter().any(|i| ["dyn", "async"].contains(&i.as_str()))
        && sig.inputs.iter().all(|a| match a {
            FnArg::Receiver(r) => r.colon_token.is_none() && !(r.reference.is_none() && r.mutability.is_some()),
            FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none()),
        })
}

/// `return e` at the very end is `e`.
fn tail_return(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) = b.stmts.last() {
        let e = (**e).clone();
        b.stmts.pop();
        b.stmts.push(Stmt::Expr(e, None));
    }
}

/// A closing `loop` left by `return e` is left by `break e`.
fn loop_return(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
        fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
        fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Return(ExprReturn { expr: Some(x), .. }) = e {
                *e = parse_quote!(break #x);
            }
        }
    }
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        if l.label.is_none() {
            V.visit_block_mut(&mut l.body);
        }
    }
}

struct Names<'a>(&'a HashMap<String, TokenStream>);
impl<'a> Names<'a> {
    fn apply(&self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut dot = false;
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Ident(id) => {
                    let colon2 = matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == ':' && p.spacing() == proc_macro2::Spacing::Joint);
                    let s = id.to_string();
                    match self.0.get(&s) {
                        Some(r) if !dot && (!colon2 || s == "Self") => out.extend(r.clone()),
                        _ => out.extend([t.clone()]),
                    }
                    dot = false;
                }
                proc_macro2::TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.apply(g.stream()));
                    n.set_span(g.span());
                    out.extend([proc_macro2::TokenTree::Group(n)]);
                    dot = false;
                }
                proc_macro2::TokenTree::Punct(p) => {
                    // a range's second dot is not a field access
                    dot = p.as_char() == '.' && !(dot || matches!(i.checked_sub(1).and_then(|k| v.get(k)), Some(proc_macro2::TokenTree::Punct(q)) if q.as_char() == '.'));
                    out.extend([t.clone()]);
                }
                _ => {
                    dot = false;
                    out.extend([t.clone()]);
                }
            }
        }
        out
    }
}
fn declared(b: &Block) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'b> Visit<'b> for V {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(HashSet::new());
    v.visit_block(b);
    v.0
}
/// Struct literals and patterns with shorthand fields do not survive a renaming of tokens.
fn shorthand(b: &Block) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'b> Visit<'b> for V {
        fn visit_field_value(&mut self, f: &'b FieldValue) {
            if let Member::Named(n) = &f.member {
                self.0.insert(n.to_string());
            }
            syn::visit::visit_field_value(self, f);
        }
        fn visit_field_pat(&mut self, f: &'b FieldPat) {
            if let Member::Named(n) = &f.member {
                self.0.insert(n.to_string());
            }
            syn::visit::visit_field_pat(self, f);
        }
    }
    let mut v = V(HashSet::new());
    v.visit_block(b);
    v.0
}

pub struct Inliner {
    free: HashMap<String, Helper>,
    assoc: HashMap<String, Helper>,
    fresh: usize,
    closures: usize,
    pub done: usize,
}
impl Inliner {
    pub fn new(items: &[Item], module: &str, known: &dyn Fn(&str) -> bool) -> Self {
        let mut me = Inliner { free: HashMap::new(), assoc: HashMap::new(), fresh: 0, closures: 0, done: 0 };
        let mut twice = HashSet::new();
        let mut add = |m: &mut HashMap<String, Helper>, sig: &Signature, block: &Block, ty: Option<&ItemImpl>| {
            let name = sig.ident.to_string();
            let mut block = block.clone();
            tail_return(&mut block);
            loop_return(&mut block);
            if leaves(&block) {
                crate::body::late_return(&mut block);
            }
            if !twice.insert((ty.is_some(), name.clone())) || !plain(&block, &name) || !first_order(sig) || sig.asyncness.is_some() || sig.unsafety.is_some() {
                m.remove(&name);
                return;
            }
            let mut g: HashSet<String> = gens(&sig.generics).into_iter().collect();
            let mut ty_head = None;
            if let Some(i) = ty {
                g.extend(gens(&i.generics));
                g.insert("Self".into());
                if let Type::Path(p) = &*i.self_ty {
                    ty_head = p.path.segments.last().map(|s| s.ident.clone());
                }
            }
            let leaves = leaves(&block);
            m.insert(name, Helper { sig: sig.clone(), block, ty_head, generics: g, leaves });
        };
        for it in items {
            match it {
                Item::Fn(f) if !test_attr(&f.attrs) && !known(&format!("fn {} :: {}", module, f.sig.ident)) => add(&mut me.free, &f.sig, &f.block, None),
                Item::Impl(i) if i.trait_.is_none() && !test_attr(&i.attrs) => {
                    let key = canon::impl_key(i).0;
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if !test_attr(&f.attrs) && !known(&format!("{} :: {}", key, f.sig.ident)) {
                                add(&mut me.assoc, &f.sig, &f.block, Some(i));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        me
    }
    pub fn is_empty(&self) -> bool {
        self.free.is_empty() && self.assoc.is_empty()
    }
    /// `h` applied to `args` (the receiver first)
    fn expand(&mut self, h: &Helper, args: Vec<Expr>) -> Option<Expr> {
        if h.sig.inputs.len() != args.len() {
            return None;
        }
        let decl = declared(&h.block);
        let short = shorthand(&h.block);
        let mut ren: HashMap<String, TokenStream> = HashMap::new();
        if let Some(t) = &h.ty_head {
            ren.insert("Self".into(), quote!(#t));
        }
        let mut first = vec![];
        let mut second = vec![];
        let fns = fn_params(&h.sig);
        for (p, a) in h.sig.inputs.iter().zip(args) {
            let simple = match &a {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            // a list of plain names stays what it is
            let list = match &a {
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    Expr::Array(l) => l.elems.iter().map(|e| match e {
                        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                        _ => None,
                    }).collect::<Option<Vec<String>>>(),
                    _ => None,
                },
                _ => None,
            };
            match p {
                FnArg::Receiver(r) => {
                    if simple.as_deref() == Some("self") {
                        continue;
                    }
                    let n = format_ident!("vxs{}", self.fresh);
                    self.fresh += 1;
                    match (&r.reference, &r.mutability) {
                        (Some(_), Some(_)) => first.push(quote!(let #n = &mut #a;)),
                        (Some(_), None) => first.push(quote!(let #n = &#a;)),
                        _ => first.push(quote!(let #n = #a;)),
                    }
                    ren.insert("self".into(), quote!(#n));
                }
                FnArg::Typed(t) => {
                    let Pat::Ident(pi) = &*t.pat else { return None };
                    let name = pi.ident.to_string();
                    if fns.contains(&name) {
                        // the function is only called (or handed on): its name will do
                        let a = match &a {
                            Expr::Reference(r) => (*r.expr).clone(),
                            a => a.clone(),
                        };
                        match &a {
                            Expr::Path(p) => {
                                let s = p.path.get_ident()?.to_string();
                                if s != name {
                                    if decl.contains(&s) || decl.contains(&name) || short.contains(&name) {
                                        return None;
                                    }
                                    let id = format_ident!("{}", s);
                                    ren.insert(name, quote!(#id));
                                }
                            }
                            Expr::Closure(c) => {
                                let mut free = HashSet::new();
                                idents(c.body.to_token_stream(), &mut free);
                                if free.iter().any(|x| decl.contains(x)) || h.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(p) if free.contains(&p.ident.to_string())))) {
                                    // the closure's names would be caught by the helper's own
                                    let n = format_ident!("vxc{}", self.fresh);
                                    self.fresh += 1;
                                    first.insert(0, quote!(let #n = #c;));
                                    ren.insert(name, quote!(#n));
                                    if decl.contains(&pi.ident.to_string()) {
                                        return None;
                                    }
                                } else {
                                    let id = &pi.ident;
                                    second.push(quote!(let #id = #c;));
                                }
                            }
                            _ => return None,
                        }
                        continue;
                    }
                    if let Some(s) = &simple {
                        if pi.mutability.is_none() {
                            if *s == name {
                                continue;
                            }
                            if !decl.contains(s) && !decl.contains(&name) && !short.contains(&name) {
                                let id = format_ident!("{}", s);
                                ren.insert(name, quote!(#id));
                                continue;
                            }
                        }
                    }
                    if let Some(l) = &list {
                        if pi.mutability.is_none() && !decl.contains(&name) && !short.contains(&name) && !l.iter().any(|x| decl.contains(x)) {
                            ren.insert(name, quote!((#a)));
                            continue;
                        }
                    }
                    let mut ids = HashSet::new();
                    idents(t.ty.to_token_stream(), &mut ids);
                    let ty = &t.ty;
                    let has_lt = t.ty.to_token_stream().to_string().contains('\'');
                    let asc = if ids.is_disjoint(&h.generics) && !ids.contains("impl") && !has_lt { quote!(: #ty) } else { quote!() };
                    let n = format_ident!("vxi{}", self.fresh);
                    self.fresh += 1;
                    let (m, id) = (&pi.mutability, &pi.ident);
                    first.push(quote!(let #n #asc = #a;));
                    second.push(quote!(let #m #id = #n;));
                }
            }
        }
        if first.len() == 1 && second.len() == 1 {
            // one argument: no temporary needed
            let (f, s) = (first.pop().unwrap(), second.pop().unwrap());
            let (f, s): (Stmt, Stmt) = (parse2(quote!(#f)).ok()?, parse2(quote!(#s)).ok()?);
            if let (Stmt::Local(mut f), Stmt::Local(s)) = (f, s) {
                match &mut f.pat {
                    Pat::Type(t) => *t.pat = s.pat,
                    p => *p = s.pat,
                }
                first.push(f.to_token_stream());
            }
        }
        let stmts = &h.block.stmts;
        let body = Names(&ren).apply(quote!(#(#stmts)*));
        self.done += 1;
        parse2(quote!({ #(#first)* #(#second)* #body })).ok()
    }
    pub fn run(&mut self, items: &mut Vec<Item>) {
        if self.is_empty() {
            return;
        }
        for _ in 0..4 {
            let n = self.done;
            for it in items.iter_mut() {
                self.visit_item_mut(it);
            }
            if self.done == n {
                break;
            }
        }
    }
}
/// A call of a closure that is bound to a name, with the closure's body in its place.
pub fn expand_closure(c: &ExprClosure, call: &ExprCall, fresh: usize) -> Option<Expr> {
    let mut own = HashSet::new();
    let mut inputs: Vec<TokenStream> = vec![];
    for p in &c.inputs {
        inputs.push(match p {
            Pat::Type(t) => t.to_token_stream(),
            p => quote!(#p : _),
        });
        idents(p.to_token_stream(), &mut own);
    }
    let mut free = HashSet::new();
    idents(c.body.to_token_stream(), &mut free);
    let mut given = HashSet::new();
    idents(call.args.to_token_stream(), &mut given);
    if given.iter().any(|g| free.contains(g) || own.contains(g)) {
        return None;
    }
    let sig: Signature = parse2(quote!(fn f(#(#inputs),*))).ok()?;
    let body = &c.body;
    let block: Block = match &**body {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        b => parse2(quote!({ #b })).ok()?,
    };
    if !first_order(&sig) || leaves(&block) || !plain(&block, "") || !fn_params(&sig).is_empty() {
        return None;
    }
    let h = Helper { sig, block, ty_head: None, generics: HashSet::new(), leaves: false };
    let mut i = Inliner { free: HashMap::new(), assoc: HashMap::new(), fresh, closures: 0, done: 0 };
    i.expand(&h, call.args.iter().cloned().collect())
}
impl Inliner {
    /// The call `e` of a helper, with the helper's body in its place.
    fn resolve(&mut self, e: &Expr, end: bool) -> Option<Expr> {
        match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let h = match segs.len() {
                        1 => self.free.get(&segs[0]).cloned(),
                        2 if segs[0] == "self" => self.free.get(&segs[1]).cloned(),
                        2 => self.assoc.get(&segs[1]).filter(|h| segs[0] == "Self" || h.ty_head.as_ref().map_or(false, |t| *t == segs[0])).cloned(),
                        _ => None,
                    };
                    match h {
                        Some(h) if (end || !h.leaves) && !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) => self.expand(&h, c.args.iter().cloned().collect()),
                        _ => None,
                    }
                }
                _ => None,
            },
            Expr::MethodCall(m) => match self.assoc.get(&m.method.to_string()).cloned() {
                Some(h) if (end || !h.leaves) && matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) => {
                    let mut a = vec![(*m.receiver).clone()];
                    a.extend(m.args.iter().cloned());
                    self.expand(&h, a)
                }
                _ => None,
            },
            _ => None,
        }
    }
    /// Calls whose value is the function's result.
    fn ends(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if semi.is_none() || matches!(e, Expr::Return(_)) {
                self.end(e);
            }
        }
    }
    fn end(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(n) = self.resolve(e, true) {
                    *e = n;
                }
            }
            Expr::Return(ExprReturn { expr: Some(x), .. }) => self.end(x),
            Expr::Paren(x) => self.end(&mut x.expr),
            Expr::Block(x) if x.label.is_none() => self.ends(&mut x.block),
            Expr::If(x) => {
                self.ends(&mut x.then_branch);
                if let Some((_, x)) = &mut x.else_branch {
                    self.end(x);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.end(&mut a.body);
                }
            }
            _ => {}
        }
    }
    fn function(&mut self, b: &mut Block) {
        self.ends(b);
        self.flat(b);
    }
    fn flat(&mut self, b: &mut Block) {
        // a body that is nothing but a block
        while let [Stmt::Expr(Expr::Block(x), None)] = &b.stmts[..] {
            if x.label.is_some() || !x.attrs.is_empty() {
                break;
            }
            let s = x.block.stmts.clone();
            b.stmts = s;
        }
        // a body that ends in one
        if self.done > 0 {
            while let Some(Stmt::Expr(Expr::Block(x), None)) = b.stmts.last() {
                if x.label.is_some() || !x.attrs.is_empty() {
                    break;
                }
                let s = x.block.stmts.clone();
                b.stmts.pop();
                b.stmts.extend(s);
            }
        }
    }
}
impl VisitMut for Inliner {
    fn visit_item_mod_mut(&mut self, _: &mut ItemMod) {}
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        self.function(&mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.function(&mut f.block);
    }
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        visit_mut::visit_expr_return_mut(self, r);
        if let (Some(e), 0) = (&mut r.expr, self.closures) {
            self.end(e);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closures += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        self.closures -= 1;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = self.resolve(e, false) {
            *e = n;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        self.flat(b);
    }
}

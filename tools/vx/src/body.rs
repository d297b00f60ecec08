//! Mechanical desugarings of function bodies.
use crate::contracts::FnC;
use crate::printer::Raw;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- macros

/// assert!/assert_eq!/panic! to calls of the trusted runtime-check functions.
pub struct Macros;
fn parse_args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}
impl Macros {
    fn conv(m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = parse_args(m)?;
                let c: Expr = if name.ends_with("assert") {
                    a.first()?.clone()
                } else {
                    let (x, y) = (a.first()?, a.get(1)?);
                    if name.ends_with("eq") {
                        parse_quote!(#x == #y)
                    } else {
                        parse_quote!(#x != #y)
                    }
                };
                // only some builds contain the debug_ ones
                Some(if name.starts_with("debug") {
                    parse_quote!(crate::vxp::rt_debug_assert(#c))
                } else {
                    parse_quote!(crate::vxp::rt_assert(#c))
                })
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(crate::vxp::rt_panic())),
            _ => None,
        }
    }
}
impl VisitMut for Macros {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = Self::conv(&m.mac) {
                *e = n;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = Self::conv(&m.mac) {
                *s = Stmt::Expr(n, m.semi_token.or(Some(Default::default())));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- local names

/// Scope-aware renaming of parameters and locals to the names of the contract.
pub struct Rename<'a> {
    pub wanted: &'a [String],
    pub seen: Vec<String>,
    scopes: Vec<Vec<(String, String, usize)>>,
    /// declarations whose new name hides another variable that is still used
    pub hides: std::cell::RefCell<HashSet<usize>>,
}
impl<'a> Rename<'a> {
    pub fn new(wanted: &'a [String]) -> Self {
        Rename { wanted, seen: vec![], scopes: vec![vec![]], hides: Default::default() }
    }
    pub fn preset(&mut self, from: &str, to: &str) {
        self.scopes[0].push((from.into(), to.into(), usize::MAX));
    }
    pub fn declare(&mut self, p: &mut Pat) {
        struct D<'b, 'c>(&'b mut Rename<'c>);
        impl<'b, 'c> VisitMut for D<'b, 'c> {
            fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                let name = p.ident.to_string();
                if name.chars().next().map_or(false, |c| c.is_uppercase()) {
                    return; // a constant or unit struct
                }
                let n = self.0.seen.len();
                self.0.seen.push(name.clone());
                let new = self.0.wanted.get(n).cloned().unwrap_or(name.clone());
                p.ident = Ident::new(&new, p.ident.span());
                self.0.scopes.last_mut().unwrap().push((name, new, n));
                if let Some((_, sp)) = &mut p.subpat {
                    self.visit_pat_mut(sp);
                }
            }
            fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
                if f.colon_token.is_none() {
                    // shorthand: the field keeps its name, the variable may not
                    f.colon_token = Some(Default::default());
                }
                self.visit_pat_mut(&mut f.pat);
            }
            fn visit_expr_mut(&mut self, _: &mut Expr) {}
        }
        D(self).visit_pat_mut(p);
    }
    fn lookup(&self, n: &str) -> Option<&String> {
        let all = || self.scopes.iter().rev().flat_map(|s| s.iter().rev());
        let (k, hit) = all().enumerate().find(|(_, x)| x.0 == n)?;
        for x in all().take(k) {
            if x.1 == hit.1 && x.2 != usize::MAX {
                // (a name of its own: the other one has to give way)
                self.hides.borrow_mut().insert(if x.0 == x.1 && hit.2 != usize::MAX { hit.2 } else { x.2 });
            }
        }
        Some(&hit.1)
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(vec![]);
        f(self);
        self.scopes.pop();
    }
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scoped(|s| visit_mut::visit_block_mut(s, b));
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        self.declare(&mut l.pat);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.scoped(|s| {
            for p in c.inputs.iter_mut() {
                s.declare(p);
            }
            s.visit_expr_mut(&mut c.body);
        });
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
        self.scoped(|s| {
            s.declare(&mut f.pat);
            s.visit_block_mut(&mut f.body);
        });
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.scoped(|s| {
            s.declare(&mut a.pat);
            if let Some((_, g)) = &mut a.guard {
                s.visit_expr_mut(g);
            }
            s.visit_expr_mut(&mut a.body);
        });
    }
    fn visit_expr_if_mut(&mut self, e: &mut ExprIf) {
        self.scoped(|s| {
            s.visit_expr_mut(&mut e.cond);
            s.visit_block_mut(&mut e.then_branch);
        });
        if let Some((_, x)) = &mut e.else_branch {
            self.visit_expr_mut(x);
        }
    }
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) {
        self.scoped(|s| {
            s.visit_expr_mut(&mut e.cond);
            s.visit_block_mut(&mut e.body);
        });
    }
    fn visit_expr_let_mut(&mut self, e: &mut ExprLet) {
        self.visit_expr_mut(&mut e.expr);
        self.declare(&mut e.pat);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if let Some(new) = self.lookup(&n.to_string()) {
                    if *new != n.to_string() {
                        f.colon_token = Some(Default::default());
                        let id = Ident::new(new, n.span());
                        f.expr = parse_quote!(#id);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.lookup(&i.to_string()) {
                    p.path.segments[0].ident = Ident::new(n, i.span());
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vec![..] and friends: rename plain identifiers
        let map: HashMap<String, String> = self.scopes.iter().flatten().map(|x| (x.0.clone(), x.1.clone())).collect();
        m.tokens = crate::canon::rename_tokens(m.tokens.clone(), &map);
    }
}

/// Gives the declared names of a body the names its contract uses: names that occur in both
/// in the same order are anchors; what lies between two anchors is matched by position when
/// there is equally much on both sides, and keeps its own name otherwise.
pub fn align(cur: &[String], base: &[String], taken: &[String]) -> Vec<String> {
    let (n, m) = (cur.len(), base.len());
    let l = lcs(cur, base);
    let mut out: Vec<String> = cur.to_vec();
    let mut map_gap = |a: (usize, usize), b: (usize, usize)| {
        if a.1 - a.0 == b.1 - b.0 {
            for j in 0..a.1 - a.0 {
                let t = &base[b.0 + j];
                if !cur.contains(t) && !taken.contains(t) {
                    out[a.0 + j] = t.clone();
                }
            }
        }
    };
    let (mut i0, mut j0) = (0, 0);
    for (i, j) in l {
        map_gap((i0, i), (j0, j));
        i0 = i + 1;
        j0 = j + 1;
    }
    map_gap((i0, n), (j0, m));
    out
}
pub fn lcs<T: PartialEq>(a: &[T], b: &[T]) -> Vec<(usize, usize)> {
    let (n, m) = (a.len(), b.len());
    let mut t = vec![vec![0u32; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut r) = (0, 0, vec![]);
    while i < n && j < m {
        if a[i] == b[j] {
            r.push((i, j));
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    r
}
/// (tokens of `base` that are gone, tokens that are new)
pub fn distance(cur: &str, base: &str) -> (usize, usize) {
    let a: Vec<&str> = cur.split_whitespace().collect();
    let b: Vec<&str> = base.split_whitespace().collect();
    let l = lcs(&a, &b).len();
    (b.len() - l, a.len() - l)
}

/// `let [a, b] = e;` to a temporary and one `let` per element (Verus has no slice patterns).
pub struct ArrPats(pub usize);
impl VisitMut for ArrPats {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Slice(ps), Some(i)) = (&l.pat, &l.init) {
                    let plain = |p: &Pat| matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(x) if x.by_ref.is_none() && x.subpat.is_none());
                    if i.diverge.is_none() && ps.elems.iter().all(plain) {
                        let t = format_ident!("ap{}_", self.0);
                        self.0 += 1;
                        let e = &i.expr;
                        out.push(parse_quote!(let #t = #e;));
                        for (k, p) in ps.elems.iter().enumerate() {
                            if let Pat::Ident(_) = p {
                                let k = proc_macro2::Literal::usize_unsuffixed(k);
                                out.push(parse_quote!(let #p = #t[#k];));
                            }
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

/// `let v = loop { .. break e; .. };` assigns `v` before leaving the loop.
pub struct BreakVals(pub usize);
fn break_values(l: &mut ExprLoop, v: &Ident) -> bool {
    struct V<'a>(&'a Ident, bool, bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_item_mut(&mut self, _: &mut Item) {}
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
        fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
        fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Break(b) = e {
                match (&b.label, &b.expr) {
                    (None, Some(x)) => {
                        let v = self.0;
                        self.1 = true;
                        *e = parse_quote!({ #v = #x; break; });
                    }
                    _ => self.2 = true,
                }
            }
        }
    }
    let mut w = V(v, false, false);
    w.visit_block_mut(&mut l.body);
    w.1 && !w.2
}
impl VisitMut for BreakVals {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        let n = b.stmts.len();
        for (k, s) in b.stmts.drain(..).enumerate() {
            match &s {
                Stmt::Local(l) => {
                    if let Some(LocalInit { expr, diverge: None, .. }) = &l.init {
                        if let Expr::Loop(lp) = &**expr {
                            let id = format_ident!("vxb{}", self.0);
                            let mut lp = lp.clone();
                            if lp.label.is_none() && break_values(&mut lp, &id) {
                                let p = &l.pat;
                                self.0 += 1;
                                out.push(parse_quote!(let #id;));
                                out.push(Stmt::Expr(Expr::Loop(lp), None));
                                out.push(parse_quote!(let #p = #id;));
                                continue;
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::Loop(lp), None) if k + 1 == n => {
                    let id = format_ident!("vxb{}", self.0);
                    let mut lp = lp.clone();
                    if lp.label.is_none() && break_values(&mut lp, &id) {
                        self.0 += 1;
                        out.push(parse_quote!(let #id;));
                        out.push(Stmt::Expr(Expr::Loop(lp), None));
                        out.push(Stmt::Expr(parse_quote!(#id), None));
                        continue;
                    }
                }
                _ => {}
            }
            out.push(s);
        }
        b.stmts = out;
    }
}

/// `if c { ..; return e; } rest` is `if c { ..; e } else { rest }` at the end of a function.
pub fn late_return(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        let e = r.expr.clone();
        b.stmts.pop();
        if let Some(e) = e {
            b.stmts.push(Stmt::Expr(*e, None));
        }
    }
    for k in 0..b.stmts.len() {
        let last = k + 1 == b.stmts.len();
        let hit = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) => !last && i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) && !matches!(&*i.cond, Expr::Let(_)),
            _ => false,
        };
        if hit {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() else { return };
            late_return(&mut i.then_branch);
            let mut r: Block = parse_quote!({ #(#rest)* });
            late_return(&mut r);
            i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: r }))));
            b.stmts.push(Stmt::Expr(Expr::If(i), None));
            return;
        }
        if last {
            if let Stmt::Expr(Expr::If(i), None) = &mut b.stmts[k] {
                late_return(&mut i.then_branch);
                let mut e = i.else_branch.as_mut().map(|x| &mut x.1);
                while let Some(x) = e {
                    e = None;
                    match &mut **x {
                        Expr::Block(x) => late_return(&mut x.block),
                        Expr::If(j) => {
                            late_return(&mut j.then_branch);
                            e = j.else_branch.as_mut().map(|x| &mut x.1);
                        }
                        _ => {}
                    }
                }
            }
        }
    }
}

/// Calls of a closure that is bound to a name and only ever called are replaced by its body.
pub struct LetClosures<'a>(pub &'a [String]);
impl<'a> VisitMut for LetClosures<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            if let Some((f, c)) = self.closure(&b.stmts[k]) {
                if inlinable(&f, &c, &b.stmts[k + 1..]) {
                    let mut v = CallOf(&f, &c, 500);
                    for s in b.stmts[k + 1..].iter_mut() {
                        v.visit_stmt_mut(s);
                    }
                    b.stmts.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }
}
impl<'a> LetClosures<'a> {
    fn closure(&self, s: &Stmt) -> Option<(String, ExprClosure)> {
        let Stmt::Local(l) = s else { return None };
        let (Pat::Ident(p), Some(LocalInit { expr, diverge: None, .. })) = (&l.pat, &l.init) else { return None };
        let Expr::Closure(c) = strip(expr) else { return None };
        let plain = |p: &Pat| match p {
            Pat::Ident(i) => i.by_ref.is_none() && i.subpat.is_none(),
            Pat::Type(t) => matches!(&*t.pat, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()),
            _ => false,
        };
        let n = p.ident.to_string();
        if c.capture.is_some() || c.asyncness.is_some() || !c.inputs.iter().all(plain) || has_return(&c.body) || self.0.contains(&n) {
            return None;
        }
        Some((n, c.clone()))
    }
}
fn words(ts: proc_macro2::TokenStream, f: &mut dyn FnMut(String)) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => words(g.stream(), f),
            proc_macro2::TokenTree::Ident(i) => f(i.to_string()),
            _ => {}
        }
    }
}
fn inlinable(f: &str, c: &ExprClosure, rest: &[Stmt]) -> bool {
    // every mention is a call
    let mut n = 0;
    for s in rest {
        words(s.to_token_stream(), &mut |w| n += (w == f) as usize);
    }
    struct V<'a>(&'a str, usize, usize, HashSet<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) && c.args.len() == self.2 {
                self.1 += 1;
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.3.insert(p.ident.to_string());
        }
    }
    let mut v = V(f, 0, c.inputs.len(), HashSet::new());
    for s in rest {
        syn::visit::Visit::visit_stmt(&mut v, s);
    }
    if v.1 != n || n == 0 {
        return false;
    }
    // nothing the body means is shadowed where it is called
    let mut clash = false;
    let own: HashSet<String> = c.inputs.iter().flat_map(pat_names).collect();
    words(c.body.to_token_stream(), &mut |w| clash |= v.3.contains(&w) && !own.contains(&w));
    !clash
}
struct CallOf<'a>(&'a str, &'a ExprClosure, usize);
impl<'a> VisitMut for CallOf<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) {
            return;
        }
        if let Some(n) = crate::inline::expand_closure(self.1, c, self.2) {
            self.2 += 10;
            *e = n;
            return;
        }
        let mut pats = vec![];
        let mut args = vec![];
        let mut tys: Vec<proc_macro2::TokenStream> = vec![];
        for (p, a) in self.1.inputs.iter().zip(c.args.iter()) {
            match p {
                Pat::Type(t) => {
                    let (q, ty) = (&t.pat, &t.ty);
                    pats.push(quote!(#q));
                    tys.push(quote!(#ty));
                }
                p => {
                    pats.push(quote!(#p));
                    tys.push(quote!(_));
                }
            }
            args.push(a);
        }
        let body = &self.1.body;
        *e = match pats.len() {
            0 => parse_quote!({ #body }),
            1 => {
                let (p, t, a) = (&pats[0], &tys[0], args[0]);
                parse_quote!({ let #p: #t = #a; #body })
            }
            _ => parse_quote!({ let (#(#pats),*): (#(#tys),*) = (#(#args),*); #body }),
        };
    }
}

/// Membership tests and `as_mut`, which the verifier knows under other names.
pub struct Members;
impl VisitMut for Members {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = e else { return };
        let n: Option<Expr> = match (m.method.to_string().as_str(), m.args.len()) {
            ("contains", 1) => {
                let x = &m.args[0];
                let mut recv = strip(&m.receiver);
                while let Expr::Reference(r) = recv {
                    recv = strip(&r.expr);
                }
                match recv {
                    Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                        (Some(a), Some(b), RangeLimits::Closed(_)) => Some(parse_quote!(crate::vxp::vx_in_incl(#a, #b, #x))),
                        (Some(a), Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(crate::vxp::vx_in_excl(#a, #b, #x))),
                        _ => None,
                    },
                    Expr::Array(a) if !a.elems.is_empty() => match x {
                        Expr::Reference(r) if r.mutability.is_none() && is_place(&r.expr) => {
                            let v = &r.expr;
                            let c = a.elems.iter().map(|y| quote!((#y == #v)));
                            Some(parse_quote!((#(#c)||*)))
                        }
                        _ => None,
                    },
                    _ => None,
                }
            }
            ("as_mut", 0) | ("as_mut_slice", 0) if is_place(&m.receiver) => {
                let r = &m.receiver;
                Some(parse_quote!(crate::vxp::vx_as_mut(&mut #r)))
            }
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

/// `impl FnMut(&A, &B) -> bool` parameters become a log of calls; gives the type of the log.
pub fn call_log(t: &Type) -> Option<Type> {
    let Type::ImplTrait(i) = t else { return None };
    let TypeParamBound::Trait(b) = i.bounds.first()? else { return None };
    let seg = b.path.segments.last()?;
    if seg.ident != "FnMut" && seg.ident != "Fn" {
        return None;
    }
    let PathArguments::Parenthesized(p) = &seg.arguments else { return None };
    if p.inputs.len() != 2 || p.output.to_token_stream().to_string() != "-> bool" {
        return None;
    }
    let el = |t: &Type| match t {
        Type::Reference(r) if r.mutability.is_none() => Some((*r.elem).clone()),
        _ => None,
    };
    let (a, b) = (el(&p.inputs[0])?, el(&p.inputs[1])?);
    Some(parse_quote!(&mut crate::vxp::CallLog<#a, #b>))
}
pub struct LogCalls<'a>(pub &'a HashSet<String>);
impl<'a> VisitMut for LogCalls<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = strip(&c.func) {
                if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                    let (f, a) = (&c.func, &c.args);
                    *e = parse_quote!(#f.log_call(#a));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- pipelines

struct Ra {
    setup: Vec<Stmt>,
    len: Expr,
    elem: Box<dyn Fn(Expr) -> Expr>,
    infinite: bool,
}
enum Pipe {
    Ra(Ra),
    Map(Box<Pipe>, ExprClosure),
    FlatMap(Box<Pipe>, ExprClosure),
    Flatten(Box<Pipe>),
    Filter(Box<Pipe>, ExprClosure),
}

pub struct Body<'a> {
    pub fc: Option<&'a FnC>,
    pub raws: &'a mut Vec<Raw>,
    pub nloops: usize,
    pub nclosures: usize,
    nsrc: usize,
    pub skel: String,
    pub self_array: bool,
    pub self_iter: Option<Expr>,
    pub iter_params: HashMap<String, Expr>,
    pub arr_vars: HashSet<String>,
    pub range_vars: HashSet<String>,
    pub const_generic: Option<String>,
    /// dimensions of the array the type consists of, the outer one first
    pub arr_dims: Vec<Expr>,
    arr_depth: usize,
    /// parameters taken by value
    pub owned_vars: HashSet<String>,
    pub calls: Vec<String>,
    pub depth: usize,
    at_used: HashSet<String>,
    /// the body is not the one the contract was written for
    pub changed: bool,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        o => o,
    }
}
fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && matches!(strip(&i.index), Expr::Path(_) | Expr::Lit(_)),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}
pub fn has_return(e: &impl ToTokens) -> bool {
    fn h(ts: proc_macro2::TokenStream) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Ident(i) => i == "return",
            proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
            proc_macro2::TokenTree::Group(g) => h(g.stream()),
            _ => false,
        })
    }
    h(e.to_token_stream())
}
/// The `sN_.take(index)` in the element of a loop.
fn taken(e: &Expr) -> Vec<(String, String)> {
    struct V(Vec<(String, String)>);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            if m.method == "take" && m.args.len() == 1 {
                let s = m.receiver.to_token_stream().to_string();
                if s.len() > 2 && s.starts_with('s') && s.ends_with('_') && s[1..s.len() - 1].bytes().all(|b| b.is_ascii_digit()) {
                    self.0.push((s, m.args[0].to_token_stream().to_string()));
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
fn apply(c: &ExprClosure, args: Vec<Expr>) -> Expr {
    let b = &c.body;
    let lets = c.inputs.iter().zip(args).map(|(p, a)| {
        let p = p.clone();
        quote!(let #p = #a;)
    });
    let b: Expr = (**b).clone();
    match b {
        Expr::Block(bl) if bl.label.is_none() => {
            let st = &bl.block.stmts;
            parse_quote!({ #(#lets)* #(#st)* })
        }
        b => parse_quote!({ #(#lets)* #b }),
    }
}

impl<'a> Body<'a> {
    pub fn new(fc: Option<&'a FnC>, raws: &'a mut Vec<Raw>) -> Self {
        Body {
            fc,
            raws,
            nloops: 0,
            nclosures: 0,
            nsrc: 0,
            skel: String::new(),
            self_array: false,
            self_iter: None,
            iter_params: HashMap::new(),
            arr_vars: HashSet::new(),
            range_vars: HashSet::new(),
            const_generic: None,
            arr_dims: vec![],
            arr_depth: 0,
            owned_vars: HashSet::new(),
            calls: vec![],
            depth: 0,
            at_used: HashSet::new(),
            changed: false,
        }
    }
    fn raw(&mut self, r: Raw) -> Stmt {
        self.raws.push(r);
        let n = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
        parse_quote!(__vx!(#n);)
    }
    fn text(&mut self, s: &str) -> Vec<Stmt> {
        if s.trim().is_empty() {
            vec![]
        } else {
            vec![self.raw(Raw::Text(s.to_string()))]
        }
    }
    fn closure_arg(e: &Expr) -> Option<ExprClosure> {
        match strip(e) {
            Expr::Closure(c) if !has_return(&c.body) => Some(c.clone()),
            _ => None,
        }
    }
    fn src(&mut self) -> Ident {
        self.nsrc += 1;
        format_ident!("s{}_", self.nsrc - 1)
    }

    /// An expression usable several times for the value of `e`.
    fn place(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Expr {
        let mut e = strip(e).clone();
        if is_place(&e) {
            return e;
        }
        self.visit_expr_mut(&mut e);
        let s = self.src();
        setup.push(parse_quote!(let #s = #e;));
        parse_quote!(#s)
    }
    fn slice(&mut self, base: &Expr, mode: u8) -> Ra {
        // mode 0: shared, 1: mutable, 2: owned
        let mut setup = vec![];
        let base = strip(base).clone();
        if mode == 2 {
            let mut b = base.clone();
            self.visit_expr_mut(&mut b);
            let s = self.src();
            setup.push(parse_quote!(let mut #s = crate::vxp::vx_own(#b);));
            let s2 = s.clone();
            return Ra {
                setup,
                len: parse_quote!(#s.len()),
                elem: Box::new(move |i| parse_quote!(#s2.take(#i))),
                infinite: false,
            };
        }
        // a part of a slice is taken by reference
        let part = matches!(&base, Expr::Index(i) if matches!(strip(&i.index), Expr::Range(_)));
        let base: Expr = if !part { base } else if mode == 0 { parse_quote!(&#base) } else { parse_quote!(&mut #base) };
        let b = self.place(&base, &mut setup);
        let b2 = b.clone();
        Ra {
            setup,
            len: parse_quote!(#b.len()),
            elem: Box::new(move |i| if mode == 0 { parse_quote!(&#b2[#i]) } else { parse_quote!(&mut #b2[#i]) }),
            infinite: false,
        }
    }

    fn range(&mut self, a: Option<&Expr>, b: &Expr, incl: bool) -> Ra {
        let mut setup = vec![];
        let mut b = b.clone();
        self.visit_expr_mut(&mut b);
        let zero = match a {
            Some(Expr::Lit(l)) => l.lit.to_token_stream().to_string().trim_end_matches("usize").trim_end_matches('_') == "0",
            _ => false,
        };
        if zero && !incl {
            return Ra { setup, len: parse_quote!(#b), elem: Box::new(|i| i), infinite: false };
        }
        let mut a = a.unwrap().clone();
        self.visit_expr_mut(&mut a);
        let s = self.src();
        setup.push(parse_quote!(let #s: usize = #a;));
        let s2 = s.clone();
        let len = if incl { parse_quote!(crate::vxp::vx_range_len_incl(#s, #b)) } else { parse_quote!(crate::vxp::vx_range_len(#s, #b)) };
        Ra { setup, len, elem: Box::new(move |i| parse_quote!((#s2 + #i))), infinite: false }
    }

    /// Parses an iterator expression. `loop_pos`: operand of `for`, `zip` (IntoIterator applies).
    fn pipe(&mut self, e: &Expr, into: bool) -> Option<Pipe> {
        let e = strip(e).clone();
        match &e {
            Expr::Range(r) => {
                let end = r.end.as_ref()?;
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                r.start.as_ref()?;
                Some(Pipe::Ra(self.range(r.start.as_deref(), end, incl)))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let arg0 = m.args.first();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some(Pipe::Ra(self.slice(&m.receiver, 0))),
                    ("iter_mut", 0) => Some(Pipe::Ra(self.slice(&m.receiver, 1))),
                    ("into_iter", 0) => {
                        let own = matches!(strip(&m.receiver), Expr::Path(_));
                        if let Some(p) = self.pipe(&m.receiver, own) {
                            return Some(p);
                        }
                        Some(Pipe::Ra(self.slice(&m.receiver, 2)))
                    }
                    ("clone", 0) => match strip(&m.receiver) {
                        Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.range_vars.contains(&i.to_string())) => {
                            let v = strip(&m.receiver).clone();
                            let a: Expr = parse_quote!(#v.start);
                            let b: Expr = parse_quote!(#v.end);
                            Some(Pipe::Ra(self.range(Some(&a), &b, false)))
                        }
                        r @ Expr::Range(_) => self.pipe(r, false),
                        _ => None,
                    },
                    ("rev", 0) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) if !r.infinite => {
                            let mut setup = r.setup;
                            let s = self.src();
                            let len = r.len;
                            setup.push(parse_quote!(let #s: usize = #len;));
                            let el = r.elem;
                            let s2 = s.clone();
                            Some(Pipe::Ra(Ra {
                                setup,
                                len: parse_quote!(#s),
                                elem: Box::new(move |i| el(parse_quote!(#s2 - 1 - #i))),
                                infinite: false,
                            }))
                        }
                        _ => None,
                    },
                    ("enumerate", 0) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) => {
                            let el = r.elem;
                            Some(Pipe::Ra(Ra {
                                elem: Box::new(move |i| {
                                    let x = el(i.clone());
                                    parse_quote!((#i, #x))
                                }),
                                setup: r.setup,
                                len: r.len,
                                infinite: r.infinite,
                            }))
                        }
                        _ => None,
                    },
                    ("cloned", 0) | ("copied", 0) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) => {
                            let el = r.elem;
                            Some(Pipe::Ra(Ra {
                                elem: Box::new(move |i| {
                                    let x = el(i);
                                    match x {
                                        Expr::Reference(r) => {
                                            let x = r.expr;
                                            parse_quote!(#x.clone())
                                        }
                                        x => parse_quote!((*#x).clone()),
                                    }
                                }),
                                setup: r.setup,
                                len: r.len,
                                infinite: r.infinite,
                            }))
                        }
                        _ => None,
                    },
                    ("zip", 1) => {
                        let l = self.pipe(&m.receiver, false)?;
                        let r = self.pipe(arg0?, true)?;
                        match (l, r) {
                            (Pipe::Ra(l), Pipe::Ra(r)) => {
                                let mut setup = l.setup;
                                setup.extend(r.setup);
                                let (le, re) = (l.elem, r.elem);
                                let (ll, rl) = (l.len, r.len);
                                let (len, infinite): (Expr, bool) = match (l.infinite, r.infinite) {
                                    (false, false) => (parse_quote!(crate::vxp::vx_min(#ll, #rl)), false),
                                    (true, false) => (rl, false),
                                    (false, true) => (ll, false),
                                    _ => (ll, true),
                                };
                                Some(Pipe::Ra(Ra {
                                    setup,
                                    len,
                                    infinite,
                                    elem: Box::new(move |i| {
                                        let a = le(i.clone());
                                        let b = re(i);
                                        parse_quote!((#a, #b))
                                    }),
                                }))
                            }
                            _ => None,
                        }
                    }
                    ("take", 1) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) => {
                            let mut n = arg0?.clone();
                            self.visit_expr_mut(&mut n);
                            let len = r.len;
                            let len = if r.infinite {
                                // cycle: empty underlying sequence yields nothing
                                parse_quote!(if #len == 0 { 0 } else { #n })
                            } else {
                                parse_quote!(crate::vxp::vx_min(#len, #n))
                            };
                            Some(Pipe::Ra(Ra { setup: r.setup, len, elem: r.elem, infinite: false }))
                        }
                        _ => None,
                    },
                    ("skip", 1) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) if !r.infinite => {
                            let mut n = arg0?.clone();
                            self.visit_expr_mut(&mut n);
                            let mut setup = r.setup;
                            let s = self.src();
                            setup.push(parse_quote!(let #s: usize = #n;));
                            let (len, el) = (r.len, r.elem);
                            let s2 = s.clone();
                            Some(Pipe::Ra(Ra {
                                setup,
                                len: parse_quote!(crate::vxp::vx_range_len(#s, #len)),
                                elem: Box::new(move |i| el(parse_quote!(#s2 + #i))),
                                infinite: false,
                            }))
                        }
                        _ => None,
                    },
                    ("cycle", 0) => match self.pipe(&m.receiver, false)? {
                        Pipe::Ra(r) if !r.infinite => {
                            let mut setup = r.setup;
                            let s = self.src();
                            let len = r.len;
                            setup.push(parse_quote!(let #s: usize = #len;));
                            let el = r.elem;
                            let s2 = s.clone();
                            Some(Pipe::Ra(Ra {
                                setup,
                                len: parse_quote!(#s),
                                elem: Box::new(move |i| el(parse_quote!((#i % #s2)))),
                                infinite: true,
                            }))
                        }
                        _ => None,
                    },
                    ("map", 1) => {
                        let c = Self::closure_arg(arg0?)?;
                        if c.inputs.len() != 1 {
                            return None;
                        }
                        match self.pipe(&m.receiver, false)? {
                            p => Some(Pipe::Map(Box::new(p), c)),
                        }
                    }
                    ("filter", 1) => {
                        let c = Self::closure_arg(arg0?)?;
                        let p = self.pipe(&m.receiver, false)?;
                        Some(Pipe::Filter(Box::new(p), c))
                    }
                    ("flat_map", 1) => {
                        let c = Self::closure_arg(arg0?)?;
                        let p = self.pipe(&m.receiver, false)?;
                        Some(Pipe::FlatMap(Box::new(p), c))
                    }
                    ("flatten", 0) => {
                        let p = self.pipe(&m.receiver, false)?;
                        Some(Pipe::Flatten(Box::new(p)))
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                // IntoIterator::into_iter(X)
                if let Expr::Path(p) = strip(&c.func) {
                    if p.path.segments.last()?.ident == "into_iter" && c.args.len() == 1 {
                        if let Expr::Reference(_) = strip(&c.args[0]) {
                            return self.pipe(&c.args[0], true);
                        }
                        return Some(Pipe::Ra(self.slice(&c.args[0], 2)));
                    }
                }
                None
            }
            // a field of a value this function owns
            Expr::Field(f) if into && matches!(strip(&f.base), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.owned_vars.contains(&i.to_string()))) => Some(Pipe::Ra(self.slice(&e, 2))),
            Expr::Reference(r) if into => Some(Pipe::Ra(self.slice(&r.expr, if r.mutability.is_some() { 1 } else { 0 }))),
            Expr::Path(p) if into => {
                let i = p.path.get_ident()?.to_string();
                if i == "self" {
                    // the crate's own `IntoIterator` impl is inlined
                    let b = self.self_iter.clone()?;
                    return self.pipe(&b, true);
                }
                if self.range_vars.contains(&i) {
                    let a: Expr = parse_quote!(#e.start);
                    let b: Expr = parse_quote!(#e.end);
                    return Some(Pipe::Ra(self.range(Some(&a), &b, false)));
                }
                if let Some(b) = self.iter_params.get(&i).cloned() {
                    return self.pipe(&b, true);
                }
                None
            }
            _ => None,
        }
    }

    fn loop_c(&self, n: usize) -> crate::contracts::LoopC {
        let mut l = self.fc.and_then(|f| f.loops.get(&n)).cloned().unwrap_or_default();
        for t in [&mut l.inv, &mut l.before, &mut l.start, &mut l.end, &mut l.after] {
            *t = alternatives(t, self.changed);
        }
        l
    }

    fn emit(&mut self, p: Pipe, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Option<Vec<Stmt>> {
        match p {
            Pipe::Ra(r) => {
                if r.infinite {
                    return None;
                }
                let n = self.nloops;
                self.nloops += 1;
                self.skel.push_str("L(");
                let lc = self.loop_c(n);
                let (k, nn, i) = (format_ident!("k{}", n), format_ident!("n{}", n), format_ident!("i{}", n));
                let mut out = r.setup;
                let len = r.len;
                out.push(parse_quote!(let #nn: usize = #len;));
                out.push(parse_quote!(let mut #k: usize = 0;));
                // what is moved out of a sequence is there until its turn
                let mut own = String::new();
                for (s, idx) in taken(&(r.elem)(parse_quote!(j_))) {
                    out.push(self.raw(Raw::Text(format!("let ghost {s}g = {s}@;\n"))));
                    own += &format!("    {s}.wf(), {s}@ == {s}g, forall|j_: int| {k} <= j_ < {nn} ==> #[trigger] {s}.has({idx}),\n");
                }
                out.extend(self.text(&lc.before));
                let inv = format!("invariant\n    {k} <= {nn},\n{own}{}decreases {nn} - {k},\n", clauses(&lc.inv));
                let mut st = vec![self.raw(Raw::Spec(inv))];
                st.push(parse_quote!(let #i = #k;));
                st.push(parse_quote!(#k = #k + 1;));
                st.extend(self.text(&lc.start));
                let el = (r.elem)(parse_quote!(#i));
                st.extend(body(self, el));
                st.extend(self.text(&lc.end));
                self.skel.push(')');
                out.push(parse_quote!(while #k < #nn { #(#st)* }));
                out.extend(self.text(&lc.after));
                Some(out)
            }
            Pipe::Map(p, c) => self.emit(*p, &mut |s, e| {
                let v = apply(&c, vec![e]);
                body(s, v)
            }),
            Pipe::Filter(p, c) => self.emit(*p, &mut |s, e| {
                let cond = apply(&c, vec![parse_quote!(&fe_)]);
                let mut cond = cond;
                s.visit_expr_mut(&mut cond);
                let b = body(s, parse_quote!(fe_));
                vec![parse_quote!(let fe_ = #e;), parse_quote!(if #cond { #(#b)* })]
            }),
            Pipe::FlatMap(p, c) => {
                let mut ok = true;
                let r = self.emit(*p, &mut |s, e| {
                    let pat = &c.inputs[0];
                    let inner = match s.pipe(&c.body, true) {
                        Some(q) => q,
                        None => {
                            ok = false;
                            return vec![];
                        }
                    };
                    let b = match s.emit(inner, body) {
                        Some(b) => b,
                        None => {
                            ok = false;
                            return vec![];
                        }
                    };
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
                    v.extend(b);
                    v
                });
                if ok {
                    r
                } else {
                    None
                }
            }
            Pipe::Flatten(p) => {
                let mut ok = true;
                let r = self.emit(*p, &mut |s, e| {
                    let row = s.src();
                    let re: Expr = parse_quote!(#row);
                    let inner = s.slice(&re, 2);
                    match s.emit(Pipe::Ra(inner), body) {
                        Some(b) => {
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #row = #e;)];
                            v.extend(b);
                            v
                        }
                        None => {
                            ok = false;
                            vec![]
                        }
                    }
                });
                if ok {
                    r
                } else {
                    None
                }
            }
        }
    }

    fn visited(&mut self, e: Expr) -> Expr {
        let mut e = e;
        self.visit_expr_mut(&mut e);
        e
    }

    /// Tries to turn `e` into a loop; leaves the counters alone when it does not apply.
    fn try_loop(&mut self, e: &Expr) -> Option<Expr> {
        let (l0, c0, s0, k0, r0) = (self.nloops, self.nclosures, self.nsrc, self.skel.clone(), self.raws.len());
        let r = self.try_loop_(e);
        if r.is_none() {
            self.nloops = l0;
            self.nclosures = c0;
            self.nsrc = s0;
            self.skel = k0;
            self.raws.truncate(r0);
        }
        r
    }
    fn try_loop_(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::ForLoop(f) if f.label.is_none() => {
                let p = self.pipe(&f.expr, true)?;
                let simple = matches!(p, Pipe::Ra(_));
                // break/continue inside nested generated loops would bind differently
                if !simple && {
                    let s = f.body.to_token_stream().to_string();
                    s.contains("break") || s.contains("continue")
                } {
                    return None;
                }
                let pat = &f.pat;
                let b = f.body.clone();
                let st = self.emit(p, &mut |s, el| {
                    let el = s.visited(el);
                    let mut b = b.clone();
                    s.visit_block_mut(&mut b);
                    let stmts = b.stmts;
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #el;)];
                    v.extend(stmts);
                    v
                })?;
                Some(parse_quote!({ #(#st)* }))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("collect", 0) => {
                        let p = self.pipe(&m.receiver, false)?;
                        let out = format_ident!("out{}", self.nloops);
                        let o2 = out.clone();
                        let st = self.emit(p, &mut |s, el| {
                            let el = s.visited(el);
                            vec![parse_quote!(let x_ = #el;), parse_quote!(#o2.push(x_);)]
                        })?;
                        let tf = m.turbofish.as_ref().and_then(|t| t.args.first().cloned());
                        let conv: Expr = match tf {
                            Some(t) => parse_quote!(crate::vxp::vx_collect::<_, #t>(#out)),
                            None => parse_quote!(crate::vxp::vx_collect(#out)),
                        };
                        Some(parse_quote!({ let mut #out = Vec::new(); #(#st)* #conv }))
                    }
                    ("rfold", 2) => {
                        let (r, f) = (&m.receiver, &m.args);
                        self.try_loop_(&parse_quote!(#r.rev().fold(#f)))
                    }
                    ("fold", 2) => {
                        let c = Self::closure_arg(&m.args[1])?;
                        if c.inputs.len() != 2 {
                            return None;
                        }
                        let init = self.visited(m.args[0].clone());
                        let p = self.pipe(&m.receiver, false)?;
                        let acc = format_ident!("acc{}", self.nloops);
                        let a2 = acc.clone();
                        let st = self.emit(p, &mut |s, el| {
                            let el = s.visited(el);
                            let b = s.visited(apply(&c, vec![parse_quote!(#a2), parse_quote!(x_)]));
                            vec![parse_quote!(let x_ = #el;), parse_quote!(#a2 = #b;)]
                        })?;
                        Some(parse_quote!({ let mut #acc = #init; #(#st)* #acc }))
                    }
                    ("extend", 1) if is_place(&m.receiver) => {
                        let p = self.pipe(&m.args[0], true)?;
                        let v = (*m.receiver).clone();
                        let st = self.emit(p, &mut |s, el| {
                            let el = s.visited(el);
                            vec![parse_quote!(let x_ = #el;), parse_quote!(#v.push(x_);)]
                        })?;
                        Some(parse_quote!({ #(#st)* }))
                    }
                    ("for_each", 1) => {
                        let c = Self::closure_arg(&m.args[0])?;
                        let p = self.pipe(&m.receiver, false)?;
                        let st = self.emit(p, &mut |s, el| {
                            let el = s.visited(el);
                            let b = s.visited(apply(&c, vec![parse_quote!(x_)]));
                            vec![parse_quote!(let x_ = #el;), Stmt::Expr(b, Some(Default::default()))]
                        })?;
                        Some(parse_quote!({ #(#st)* }))
                    }
                    ("all", 1) | ("any", 1) => {
                        let c = Self::closure_arg(&m.args[0])?;
                        let p = self.pipe(&m.receiver, false)?;
                        let all = name == "all";
                        let acc = format_ident!("acc{}", self.nloops);
                        let a2 = acc.clone();
                        let st = self.emit(p, &mut |s, el| {
                            let el = s.visited(el);
                            let b = s.visited(apply(&c, vec![parse_quote!(x_)]));
                            let s2: Stmt = if all { parse_quote!(if #a2 && !#b { #a2 = false; }) } else { parse_quote!(if !#a2 && #b { #a2 = true; }) };
                            vec![parse_quote!(let x_ = #el;), s2]
                        })?;
                        Some(parse_quote!({ let mut #acc = #all; #(#st)* #acc }))
                    }
                    ("map", 1) => {
                        // array map
                        let c = Self::closure_arg(&m.args[0])?;
                        if c.inputs.len() != 1 {
                            return None;
                        }
                        let recv = strip(&m.receiver).clone();
                        let (arr, nested) = match &recv {
                            Expr::Repeat(_) => (true, false),
                            Expr::Field(f) => (self.self_array && matches!(strip(&f.base), Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("self_")), true),
                            Expr::Path(p) => (p.path.get_ident().map_or(false, |i| self.arr_vars.contains(&i.to_string())), false),
                            _ => (false, false),
                        };
                        if !arr {
                            return None;
                        }
                        if nested {
                            if let Pat::Ident(p) = &c.inputs[0] {
                                self.arr_vars.insert(p.ident.to_string());
                            }
                        }
                        let s0 = self.src();
                        let out = format_ident!("out{}", self.nloops);
                        let o2 = out.clone();
                        if let Expr::Repeat(r) = &recv {
                            // [(); N].map(..): the elements are `()`
                            if r.expr.to_token_stream().to_string() != "()" {
                                return None;
                            }
                            let len = &r.len;
                            let ra = Ra { setup: vec![], len: parse_quote!(#len), elem: Box::new(|_| parse_quote!(())), infinite: false };
                            self.arr_depth += 1;
                            let st = self.emit(Pipe::Ra(ra), &mut |s, el| {
                                let el = s.visited(apply(&c, vec![el]));
                                vec![parse_quote!(let x_ = #el;), parse_quote!(#o2.push(x_);)]
                            });
                            self.arr_depth -= 1;
                            let st = st?;
                            return Some(parse_quote!({ let mut #out = Vec::new(); #(#st)* crate::vxp::vx_arr::<_, #len>(#out) }));
                        }
                        let ra = Ra {
                            setup: vec![parse_quote!(let mut #s0 = crate::vxp::vx_own_arr(#recv);)],
                            len: parse_quote!(#s0.len()),
                            elem: Box::new({
                                let s0 = s0.clone();
                                move |i| parse_quote!(#s0.take(#i))
                            }),
                            infinite: false,
                        };
                        self.arr_depth += 1;
                        let st = self.emit(Pipe::Ra(ra), &mut |s, el| {
                            let el = s.visited(apply(&c, vec![el]));
                            vec![parse_quote!(let x_ = #el;), parse_quote!(#o2.push(x_);)]
                        });
                        self.arr_depth -= 1;
                        let st = st?;
                        Some(parse_quote!({ let mut #out = Vec::new(); #(#st)* crate::vxp::vx_arr_like(&#s0, #out) }))
                    }
                    _ => None,
                }
            }
            Expr::Call(call) => {
                if let Expr::Path(p) = strip(&call.func) {
                    if p.path.segments.last()?.ident == "from_fn" && call.args.len() == 1 {
                        let c = Self::closure_arg(&call.args[0])?;
                        if c.inputs.len() != 1 {
                            return None;
                        }
                        let given = match &p.path.segments.last()?.arguments {
                            PathArguments::AngleBracketed(a) => a.args.iter().nth(1).and_then(|a| match a {
                                GenericArgument::Const(e) => Some(e.clone()),
                                GenericArgument::Type(Type::Path(t)) => Some(parse_quote!(#t)),
                                _ => None,
                            }),
                            _ => None,
                        };
                        let n: Expr = match &self.const_generic {
                            _ if given.is_some() => given?,
                            Some(n) => {
                                let n = format_ident!("{}", n);
                                parse_quote!(#n)
                            }
                            None => self.arr_dims.get(self.arr_depth)?.clone(),
                        };
                        let out = format_ident!("out{}", self.nloops);
                        let o2 = out.clone();
                        let ra = Ra { setup: vec![], len: parse_quote!(#n), elem: Box::new(|i| i), infinite: false };
                        self.arr_depth += 1;
                        let st = self.emit(Pipe::Ra(ra), &mut |s, el| {
                            let el = s.visited(apply(&c, vec![el]));
                            vec![parse_quote!(let x_ = #el;), parse_quote!(#o2.push(x_);)]
                        });
                        self.arr_depth -= 1;
                        let st = st?;
                        return Some(parse_quote!({ let mut #out = Vec::new(); #(#st)* crate::vxp::vx_arr::<_, #n>(#out) }));
                    }
                }
                None
            }
            _ => None,
        }
    }
}

fn capacity(f: &Expr) -> bool {
    match strip(f) {
        Expr::Path(p) => {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            v.len() >= 2 && v[v.len() - 1] == "with_capacity" && v[v.len() - 2] == "Vec"
        }
        _ => false,
    }
}
fn sum_of_sizes(e: &Expr) -> bool {
    match strip(e) {
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Mul(_)) && sum_of_sizes(&b.left) && sum_of_sizes(&b.right),
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => sum_of_sizes(&f.base),
        Expr::MethodCall(m) => m.args.is_empty() && ["len", "num_rows", "num_cols", "dim", "size"].iter().any(|n| m.method == n) && sum_of_sizes(&m.receiver),
        _ => false,
    }
}

/// Lines `alt ..` are for changed bodies only.
pub fn alternatives(t: &str, changed: bool) -> String {
    let mut out = String::new();
    for l in t.lines() {
        match l.trim_start().strip_prefix("alt ") {
            Some(r) if changed => out.push_str(&format!("  {}", r)),
            Some(_) => continue,
            None => out.push_str(l),
        }
        out.push('\n');
    }
    out
}

/// Every clause list ends with a comma.
pub fn clauses(s: &str) -> String {
    let t = s.trim_end();
    if t.trim().is_empty() {
        return String::new();
    }
    // (clauses made for a loop of the source carry the keywords)
    let t = t.trim_start().strip_prefix("invariant").map_or(t, |x| x.split("decreases").next().unwrap().trim_end());
    let mut t = t.to_string();
    if !t.ends_with(',') {
        t.push(',');
    }
    t.push('\n');
    t
}

impl<'a> VisitMut for Body<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            let mut r = strip(&i.expr);
            if let Expr::MethodCall(m) = r {
                if m.method == "clone" {
                    r = strip(&m.receiver);
                }
            }
            if matches!(r, Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_))) {
                self.range_vars.insert(p.ident.to_string());
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // a `for` statement stays a statement
        if let Stmt::Expr(e @ Expr::ForLoop(_), _) = s {
            if let Some(n) = self.try_loop(e) {
                *s = Stmt::Expr(n, None);
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // `at after NAME` anchors
        if let Some(fc) = self.fc {
            if !fc.at.is_empty() {
                let mut out = vec![];
                for s in b.stmts.drain(..) {
                    let mut add = String::new();
                    if let Stmt::Local(l) = &s {
                        let names = pat_names(&l.pat);
                        for (a, t) in &fc.at {
                            if let Some(n) = a.strip_prefix("after ") {
                                // (the first of that name)
                                if names.iter().any(|x| x == n) && self.at_used.insert(a.clone()) {
                                    add.push_str(t);
                                }
                            }
                        }
                    }
                    out.push(s);
                    if !add.is_empty() {
                        out.extend(self.text(&add));
                    }
                }
                b.stmts = out;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = self.try_loop(e) {
            *e = n;
            return;
        }
        match e {
            Expr::MethodCall(m)
                if m.method == "clone"
                    && m.args.is_empty()
                    && matches!(strip(&m.receiver), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.range_vars.contains(&i.to_string()))) =>
            {
                let v = strip(&m.receiver).clone();
                *e = parse_quote!((#v.start..#v.end));
            }
            // the capacity asked for is a hint: a sum or product of sizes does not matter (memory suffices),
            // a difference might be negative and stays
            Expr::Call(c) if c.args.len() == 1 && capacity(&c.func) && matches!(strip(&c.args[0]), Expr::Binary(_)) && sum_of_sizes(&c.args[0]) => {
                let mut f = (*c.func).clone();
                if let Expr::Path(p) = &mut f {
                    p.path.segments.last_mut().unwrap().ident = format_ident!("new");
                }
                *e = parse_quote!(#f());
            }
            Expr::While(w) => {
                let n = self.nloops;
                self.nloops += 1;
                self.skel.push_str("W(");
                let lc = self.loop_c(n);
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.loop_body(n, &lc, &mut w.body);
                self.skel.push(')');
                let w = w.clone();
                *e = self.wrap_loop(&lc, Expr::While(w));
            }
            Expr::Loop(w) => {
                let n = self.nloops;
                self.nloops += 1;
                self.skel.push_str("O(");
                let lc = self.loop_c(n);
                self.visit_block_mut(&mut w.body);
                self.loop_body(n, &lc, &mut w.body);
                self.skel.push(')');
                let w = w.clone();
                *e = self.wrap_loop(&lc, Expr::Loop(w));
            }
            Expr::ForLoop(_) => {
                // not desugared: counts as an unknown loop
                self.nloops += 1;
                self.skel.push_str("F(");
                visit_mut::visit_expr_mut(self, e);
                self.skel.push(')');
            }
            Expr::Closure(c) => {
                let n = self.nclosures;
                self.nclosures += 1;
                self.skel.push_str("C(");
                visit_mut::visit_expr_mut(self, &mut c.body);
                self.skel.push(')');
                let cc = self.fc.and_then(|f| f.closures.get(&n)).cloned().unwrap_or_default();
                // patterns become variables
                let mut lets: Vec<Stmt> = vec![];
                for (j, p) in c.inputs.iter_mut().enumerate() {
                    let simple = cc.params.is_empty() && (matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_))));
                    if !simple {
                        let id = format_ident!("c{}_{}", n, j);
                        match p.clone() {
                            Pat::Type(t) => {
                                let (tp, ty) = (t.pat, t.ty);
                                if !matches!(&*tp, Pat::Wild(_)) {
                                    lets.push(parse_quote!(let #tp = #id;));
                                }
                                *p = Pat::Type(PatType { attrs: vec![], pat: parse_quote!(#id), colon_token: Default::default(), ty });
                            }
                            Pat::Wild(_) => *p = parse_quote!(#id),
                            tp => {
                                lets.push(parse_quote!(let #tp = #id;));
                                *p = parse_quote!(#id);
                            }
                        }
                    }
                }
                if !cc.params.is_empty() {
                    if let Ok(ps) = syn::parse::Parser::parse_str(Punctuated::<FnArg, Token![,]>::parse_terminated, &cc.params) {
                        if ps.len() == c.inputs.len() {
                            for (p, a) in c.inputs.iter_mut().zip(ps) {
                                if let FnArg::Typed(t) = a {
                                    let ty = t.ty;
                                    let inner = match p.clone() {
                                        Pat::Type(pt) => pt.pat,
                                        o => Box::new(o),
                                    };
                                    *p = Pat::Type(PatType { attrs: vec![], pat: inner, colon_token: Default::default(), ty });
                                }
                            }
                        }
                    }
                }
                if !cc.spec.is_empty() || !lets.is_empty() || !cc.start.is_empty() {
                    let body = (*c.body).clone();
                    let mut st: Vec<Stmt> = vec![];
                    if !cc.spec.is_empty() {
                        st.push(self.raw(Raw::Spec(cc.spec.clone())));
                    }
                    st.extend(lets);
                    st.extend(self.text(&cc.start));
                    let inner: Vec<Stmt> = match body {
                        Expr::Block(b) if b.label.is_none() => b.block.stmts,
                        o => vec![Stmt::Expr(o, None)],
                    };
                    st.extend(inner);
                    if !cc.end.is_empty() {
                        self.end_text(&mut st, &cc.end);
                    }
                    c.output = ReturnType::Default;
                    c.body = Box::new(parse_quote!({ #(#st)* }));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
pub fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
impl<'a> Body<'a> {
    fn loop_body(&mut self, n: usize, lc: &crate::contracts::LoopC, b: &mut Block) {
        let mut st = vec![self.raw(Raw::Loop(n))];
        if !lc.inv.trim().is_empty() {
            // (clauses made for a generated loop carry no keyword)
            let kw = ["invariant", "invariant_except_break", "ensures", "decreases"].iter().any(|k| lc.inv.trim_start().starts_with(k));
            st.push(self.raw(Raw::Spec(format!("{}{}\n", if kw { "" } else { "invariant\n" }, lc.inv.trim_end()))));
        }
        st.extend(self.text(&lc.start));
        st.append(&mut b.stmts);
        st.extend(self.text(&lc.end));
        b.stmts = st;
    }
    fn wrap_loop(&mut self, lc: &crate::contracts::LoopC, e: Expr) -> Expr {
        if lc.before.is_empty() && lc.after.is_empty() {
            return e;
        }
        let a = self.text(&lc.before);
        let b = self.text(&lc.after);
        parse_quote!({ #(#a)* #e #(#b)* })
    }
    pub fn end_text(&mut self, st: &mut Vec<Stmt>, t: &str) {
        let x = self.text(t);
        match st.pop() {
            Some(Stmt::Expr(e, None)) if !matches!(e, Expr::While(_) | Expr::ForLoop(_)) => {
                st.push(parse_quote!(let r_ = #e;));
                st.extend(x);
                st.push(Stmt::Expr(parse_quote!(r_), None));
            }
            Some(s) => {
                st.push(s);
                st.extend(x);
            }
            None => st.extend(x),
        }
    }
}

// ---------------------------------------------------------------- operators

/// `a * b` to `Mul::mul(a, b)` (needed where the operator comes from a `for<..>` bound with an
/// `Output` binding, which Verus resolves for calls but not for operators).
pub struct OpCalls;
impl VisitMut for OpCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            let n: Option<Expr> = match b.op {
                BinOp::Mul(_) => Some(parse_quote!(core::ops::Mul::mul(#l, #r))),
                BinOp::Div(_) => Some(parse_quote!(core::ops::Div::div(#l, #r))),
                BinOp::Add(_) => Some(parse_quote!(core::ops::Add::add(#l, #r))),
                BinOp::Sub(_) => Some(parse_quote!(core::ops::Sub::sub(#l, #r))),
                _ => None,
            };
            if let Some(n) = n {
                *e = n;
            }
        }
    }
}

/// `-x` to `Neg::neg(x)` (Verus has no negation of floats).
pub struct NegCalls;
impl VisitMut for NegCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) = e {
            if !matches!(strip(expr), Expr::Lit(_)) {
                *e = parse_quote!(core::ops::Neg::neg(#expr));
            }
        }
    }
}

/// `base[idx]` to `base[rt_idx(idx, base.len())]`: a possibly panicking index.
pub struct RtIdx;
impl VisitMut for RtIdx {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(i) = e {
            let (b, ix) = (&i.expr, &i.index);
            // (lists and ranges index something that has its own contract)
            if !matches!(strip(ix), Expr::Array(_) | Expr::Tuple(_) | Expr::Range(_)) {
                let n: Expr = parse_quote!(#b[crate::vxp::rt_idx(#ix, #b.len())]);
                *e = n;
            }
        }
    }
}

/// Names of called functions and methods.
pub fn calls(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
            self.0.push(c.method.to_string());
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.sort();
    v.0.dedup();
    v.0
}

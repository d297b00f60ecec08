//! Spellings of the same thing brought to one form before a body is compared with
//! the baseline: closures and bodies that are only a block, `return` in tail
//! position, `loop { if c { break; } .. }`, a `let` used once and at once,
//! `Clone::clone(&x)`.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn count(ts: TokenStream, n: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => count(g.stream(), n),
            TokenTree::Ident(i) => (i == n) as usize,
            TokenTree::Literal(l) => {
                let s = l.to_string();
                (s.starts_with('"') && s.contains(&format!("{{{}", n))) as usize * 2
            }
            _ => 0,
        })
        .sum()
}
fn plain_block(b: &ExprBlock) -> bool {
    b.label.is_none() && b.attrs.is_empty()
}
fn tail_return(b: &mut Block) {
    if let Some(Stmt::Expr(Expr::Return(ExprReturn { expr: Some(e), .. }), _)) = b.stmts.last() {
        let e = (**e).clone();
        b.stmts.pop();
        b.stmts.push(Stmt::Expr(e, None));
    }
}
fn noop(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(Expr::Tuple(t), Some(_)) => t.elems.is_empty(),
        Stmt::Local(l) => {
            matches!(&l.pat, Pat::Wild(_))
                && match &l.init {
                    Some(i) => matches!(&*i.expr, Expr::Lit(_)) || matches!(&*i.expr, Expr::Tuple(t) if t.elems.is_empty()),
                    None => false,
                }
        }
        _ => false,
    }
}
const LAZY: &[&str] = &[
    "iter", "iter_mut", "into_iter", "zip", "cloned", "copied", "enumerate", "rev", "skip", "take", "chain", "flat_map", "flatten", "cycle",
    "filter", "step_by", "chunks", "chunks_exact", "chunks_exact_mut", "chunks_mut", "windows", "skip_while", "take_while", "map", "peekable",
];
/// An iterator that does nothing until it is driven.
fn lazy(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => lazy(&p.expr),
        Expr::Range(_) => true,
        Expr::MethodCall(m) if m.method == "map" => lazy(&m.receiver),
        Expr::MethodCall(m) => LAZY.iter().any(|l| m.method == l),
        _ => false,
    }
}
/// The place in `e` that is evaluated before everything else, when it is `n`.
fn first<'a>(e: &'a mut Expr, n: &str) -> Option<&'a mut Expr> {
    if matches!(e, Expr::Path(p) if p.path.is_ident(n)) {
        return Some(e);
    }
    match e {
        Expr::MethodCall(m) => first(&mut m.receiver, n),
        Expr::Call(c) if matches!(&*c.func, Expr::Path(_)) => first(c.args.first_mut()?, n),
        Expr::Paren(x) => first(&mut x.expr, n),
        Expr::Reference(x) => first(&mut x.expr, n),
        Expr::Unary(x) => first(&mut x.expr, n),
        Expr::Field(x) => first(&mut x.base, n),
        Expr::Try(x) => first(&mut x.expr, n),
        Expr::Cast(x) => first(&mut x.expr, n),
        Expr::Return(x) => first(x.expr.as_mut()?, n),
        Expr::ForLoop(x) => first(&mut x.expr, n),
        Expr::Match(x) => first(&mut x.expr, n),
        Expr::If(x) => match &mut *x.cond {
            Expr::Let(l) => first(&mut l.expr, n),
            c => first(c, n),
        },
        Expr::Binary(x) if !assign_op(&x.op) => first(&mut x.left, n),
        Expr::Struct(x) if x.rest.is_none() => {
            let f = x.fields.first_mut()?;
            let long = f.colon_token.or(Some(Default::default()));
            let e = first(&mut f.expr, n)?;
            f.colon_token = long;
            Some(e)
        }
        Expr::Tuple(x) => first(x.elems.first_mut()?, n),
        Expr::Range(x) => match &mut x.start {
            Some(a) if !matches!(**a, Expr::Lit(_)) => first(a, n),
            _ => first(x.end.as_mut()?, n),
        },
        Expr::Array(x) => first(x.elems.first_mut()?, n),
        _ => None,
    }
}
fn assign_op(o: &BinOp) -> bool {
    matches!(
        o,
        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_)
            | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
    )
}
/// Any place that is evaluated once, outside loops and closures.
struct Once<'a>(&'a str, Option<&'a Expr>, usize);
impl<'a> VisitMut for Once<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        let k = self.2;
        self.visit_expr_mut(&mut f.expr);
        if self.2 > k && f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
            if let Some(v) = self.1 {
                *e = v.clone();
            }
            self.2 += 1;
        } else {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}
fn operand(e: &Expr) -> Expr {
    match e {
        Expr::Binary(_) | Expr::MethodCall(_) | Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Cast(_) | Expr::Call(_) | Expr::Paren(_) => e.clone(),
        _ => parse_quote!((#e)),
    }
}
fn bare(e: &Expr) -> Expr {
    match e {
        Expr::Range(_) | Expr::Binary(_) | Expr::Closure(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Reference(_) | Expr::Struct(_) => parse_quote!((#e)),
        _ => e.clone(),
    }
}

pub struct Tidy;
impl Tidy {
    pub fn run(&mut self, b: &mut Block) {
        tail_block(b);
        self.visit_block_mut(b);
        tail_block(b);
    }
    fn inline_lets(&self, b: &mut Block) {
        let mut k = 0;
        while k + 1 < b.stmts.len() {
            let found = match &b.stmts[k] {
                Stmt::Local(Local { pat: Pat::Type(PatType { pat, ty, .. }), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if !open_type(expr) && !matches!(&**ty, Type::Reference(_)) => match &**pat {
                    Pat::Ident(p) if p.mutability.is_none() && p.by_ref.is_none() && p.subpat.is_none() => Some((p.ident.to_string(), (**expr).clone())),
                    _ => None,
                },
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if p.mutability.is_none() && p.by_ref.is_none() && p.subpat.is_none() =>
                {
                    Some((p.ident.to_string(), (**expr).clone()))
                }
                _ => None,
            };
            if let Some((n, v)) = found {
                let uses: usize = b.stmts[k + 1..].iter().map(|s| count(s.to_token_stream(), &n)).sum();
                if uses == 1 && self.put(&mut b.stmts[k + 1], &n, &v) {
                    b.stmts.remove(k);
                    k = k.saturating_sub(1);
                    continue;
                }
            }
            k += 1;
        }
    }
    fn put(&self, s: &mut Stmt, n: &str, v: &Expr) -> bool {
        let e = match s {
            Stmt::Local(l) => match &mut l.init {
                Some(i) => &mut *i.expr,
                None => return false,
            },
            Stmt::Expr(e, _) => e,
            _ => return false,
        };
        if let Some(x) = first(e, n) {
            *x = bare(v);
            if matches!(e, Expr::Paren(_)) {
                if let Expr::Paren(p) = e {
                    *e = (*p.expr).clone();
                }
            }
            return true;
        }
        if lazy(v) {
            let mut o = Once(n, None, 0);
            o.visit_expr_mut(&mut e.clone());
            if o.2 == 1 {
                let v = bare(v);
                Once(n, Some(&v), 0).visit_expr_mut(e);
                return true;
            }
        }
        false
    }
}
/// A body that is, or ends in, a plain block.
fn tail_block(b: &mut Block) {
    b.stmts.retain(|s| !noop(s));
    tail_return(b);
    while let Some(Stmt::Expr(Expr::Block(x), None)) = b.stmts.last() {
        if !plain_block(x) {
            break;
        }
        let s = x.block.stmts.clone();
        b.stmts.pop();
        b.stmts.extend(s);
        b.stmts.retain(|s| !noop(s));
        tail_return(b);
    }
}
impl VisitMut for Tidy {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !noop(s));
        visit_mut::visit_block_mut(self, b);
        whiles(b);
        self.inline_lets(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            if let Expr::Block(x) = &mut *c.body {
                if plain_block(x) {
                    tail_block(&mut x.block);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Block(x) if plain_block(x) => {
                if let [Stmt::Expr(i, None)] = &x.block.stmts[..] {
                    *e = i.clone();
                }
            }
            Expr::Loop(l) => {
                if let Some(w) = as_while(l).or_else(|| as_while_let(l)) {
                    *e = w;
                }
            }
            // `*x.get(i).unwrap()` is `x[i]`
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((x, i, "get" | "get_mut")) = got(&u.expr) {
                    *e = parse_quote!(#x[#i]);
                } else {
                    // `*(&x)` is `x`
                    let mut x = &*u.expr;
                    while let Expr::Paren(p) = x {
                        x = &p.expr;
                    }
                    if let Expr::Reference(r) = x {
                        let mut y = &*r.expr;
                        while let Expr::Paren(p) = y {
                            y = &p.expr;
                        }
                        if r.mutability.is_none() && matches!(y, Expr::Index(_) | Expr::Field(_) | Expr::Path(_)) {
                            *e = y.clone();
                        }
                    }
                }
            }
            Expr::MethodCall(_) => match got(e) {
                Some((x, i, "get")) => *e = parse_quote!(&#x[#i]),
                Some((x, i, "get_mut")) => *e = parse_quote!(&mut #x[#i]),
                _ => {}
            },
            Expr::Paren(p) if matches!(&*p.expr, Expr::Index(_)) => *e = (*p.expr).clone(),
            Expr::Call(c) if c.args.len() == 1 => {
                if let (Expr::Path(p), Some(Expr::Reference(r))) = (&*c.func, c.args.first()) {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if p.qself.is_none() && s == ["Clone", "clone"] && r.mutability.is_none() {
                        let x = &r.expr;
                        *e = match &**x {
                            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_) => parse_quote!(#x.clone()),
                            x => parse_quote!((#x).clone()),
                        };
                    }
                }
            }
            _ => {}
        }
    }
}

/// `x.get(i).unwrap()`
fn got(e: &Expr) -> Option<(Expr, Expr, &'static str)> {
    let e = match e {
        Expr::Paren(p) => &p.expr,
        e => e,
    };
    let Expr::MethodCall(u) = e else { return None };
    if !(u.method == "unwrap" && u.args.is_empty() || u.method == "expect" && u.args.len() == 1) {
        return None;
    }
    let Expr::MethodCall(g) = &*u.receiver else { return None };
    let name = if g.method == "get" { "get" } else if g.method == "get_mut" { "get_mut" } else { return None };
    let x = &g.receiver;
    let x: Expr = match &**x {
        Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::MethodCall(_) | Expr::Paren(_) => (**x).clone(),
        Expr::Reference(_) => return None,
        x => parse_quote!((#x)),
    };
    (g.args.len() == 1).then(|| (x, g.args[0].clone(), name))
}
/// `loop { match it.next() { Some(x) => { .. } None => break } }` or `loop { let Some(x) = it.next() else { break }; .. }`
fn as_while_let(l: &ExprLoop) -> Option<Expr> {
    let label = &l.label;
    let leaves = |e: &Expr| match e {
        Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        Expr::Block(b) => matches!(&b.block.stmts[..], [Stmt::Expr(Expr::Break(b), _)] if b.label.is_none() && b.expr.is_none()),
        _ => false,
    };
    if let [Stmt::Expr(Expr::Match(m), _)] = &l.body.stmts[..] {
        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some()) {
            return None;
        }
        let none = m.arms.iter().position(|a| match &a.pat {
            Pat::Ident(p) => p.ident == "None" && leaves(&a.body),
            Pat::Path(p) => p.path.is_ident("None") && leaves(&a.body),
            Pat::Wild(_) => leaves(&a.body),
            _ => false,
        })?;
        if matches!(m.arms[none].pat, Pat::Wild(_)) && none == 0 {
            return None;
        }
        let (p, x, c) = (&m.arms[1 - none].pat, &m.arms[1 - none].body, &m.expr);
        return Some(match &**x {
            Expr::Block(b) if plain_block(b) => parse_quote!(#label while let #p = #c #b),
            x => parse_quote!(#label while let #p = #c { #x; }),
        });
    }
    let (first, rest) = l.body.stmts.split_first()?;
    let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) = first else { return None };
    if !leaves(d) {
        return None;
    }
    Some(parse_quote!(#label while let #pat = #expr { #(#rest)* }))
}
/// `loop { if k >= n { break; } ..; k += 1; }`
fn as_while(l: &ExprLoop) -> Option<Expr> {
    let (first, rest) = l.body.stmts.split_first()?;
    let Stmt::Expr(Expr::If(i), _) = first else { return None };
    if i.else_branch.is_some() {
        return None;
    }
    let [Stmt::Expr(Expr::Break(b), _)] = &i.then_branch.stmts[..] else { return None };
    if b.label.is_some() || b.expr.is_some() {
        return None;
    }
    let Expr::Binary(c) = &*i.cond else { return None };
    let Expr::Path(k) = &*c.left else { return None };
    let (k, n) = (k.path.get_ident()?, &c.right);
    // a counter: stepped by an integer literal at the end
    let Some(Stmt::Expr(Expr::Binary(s), _)) = rest.last() else { return None };
    let step = matches!(&s.op, BinOp::AddAssign(_) | BinOp::SubAssign(_))
        && matches!(&*s.left, Expr::Path(p) if p.path.is_ident(k))
        && matches!(&*s.right, Expr::Lit(ExprLit { lit: Lit::Int(_), .. }));
    let cond: Expr = match c.op {
        BinOp::Ge(_) => parse_quote!(#k < #n),
        BinOp::Gt(_) => parse_quote!(#k <= #n),
        BinOp::Le(_) => parse_quote!(#k > #n),
        BinOp::Lt(_) => parse_quote!(#k >= #n),
        BinOp::Eq(_) => parse_quote!(#k != #n),
        _ => return None,
    };
    if !step {
        return None;
    }
    let label = &l.label;
    Some(parse_quote!(#label while #cond { #(#rest)* }))
}

/// A value whose type comes from where it goes.
fn open_type(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => ["collect", "into", "sum", "product", "parse", "try_into", "gen", "gen_range"].iter().any(|x| m.method == x) || m.args.is_empty() && open_type(&m.receiver),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => ["default", "from", "zero", "one", "new", "from_fn", "with_capacity"].iter().any(|x| p.path.segments.last().map_or(false, |s| s.ident == x)),
            _ => true,
        },
        Expr::Lit(_) | Expr::Closure(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Reference(_) => true,
        Expr::Binary(b) => open_type(&b.left) || open_type(&b.right),
        _ => false,
    }
}

/// `let mut k = a; while k < b { ..; k += 1; }` is `for k in a..b` where `b` keeps its value, and
/// `let mut it = e; while let Some(x) = it.next() { .. }` is `for x in e`.
fn whiles(b: &mut Block) {
    let mut w = 0;
    while w < b.stmts.len() {
        let mut j = w;
        // at most the lets in between
        while j > 0 {
            j -= 1;
            let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &b.stmts[j] else { break };
            let (n, a) = (p.ident.to_string(), (**expr).clone());
            if p.mutability.is_some() {
                let between: usize = b.stmts[j + 1..w].iter().map(|s| count(s.to_token_stream(), &n)).sum();
                let after: usize = b.stmts[w + 1..].iter().map(|s| count(s.to_token_stream(), &n)).sum();
                if between == 0 && after == 0 {
                    if let Some(f) = as_for(&b.stmts[w], &n, &a).or_else(|| counted(&b.stmts[w], &n, &a)) {
                        b.stmts[w] = Stmt::Expr(f, None);
                        b.stmts.remove(j);
                        w -= 1;
                    }
                }
                break;
            }
        }
        w += 1;
    }
}
fn as_for(s: &Stmt, n: &str, a: &Expr) -> Option<Expr> {
    let Stmt::Expr(Expr::While(w), _) = s else { return None };
    let label = &w.label;
    match &*w.cond {
        Expr::Binary(ExprBinary { left, op, right, .. }) => {
            if !matches!(&**left, Expr::Path(p) if p.path.is_ident(n)) || count(right.to_token_stream(), n) > 0 {
                return None;
            }
            let (last, rest) = w.body.stmts.split_last()?;
            let Stmt::Expr(Expr::Binary(st), _) = last else { return None };
            let one = matches!(&st.op, BinOp::AddAssign(_))
                && matches!(&*st.left, Expr::Path(p) if p.path.is_ident(n))
                && matches!(&*st.right, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "1");
            let mut u = Uses { n: n.into(), bad: false };
            let mut rest: Vec<Stmt> = rest.to_vec();
            for s in rest.iter_mut() {
                u.visit_stmt_mut(s);
            }
            if !one || u.bad || !stable(right, &rest) {
                return None;
            }
            let k = quote::format_ident!("{}", n);
            let (a, e) = (operand(a), operand(right));
            match op {
                BinOp::Lt(_) => Some(parse_quote!(#label for #k in #a..#e { #(#rest)* })),
                _ => None,
            }
        }
        Expr::Let(l) => {
            let Expr::MethodCall(m) = &*l.expr else { return None };
            if m.method != "next" || !m.args.is_empty() || !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(n)) || !lazy(a) {
                return None;
            }
            let Pat::TupleStruct(t) = &*l.pat else { return None };
            if !t.path.is_ident("Some") || t.elems.len() != 1 || count(w.body.to_token_stream(), n) > 0 {
                return None;
            }
            let (x, body) = (&t.elems[0], &w.body);
            Some(parse_quote!(#label for #x in #a #body))
        }
        _ => None,
    }
}
/// `let mut k = 0; for x in e { ..; k += 1; }` is `for (k, x) in e.enumerate()`.
fn counted(s: &Stmt, n: &str, a: &Expr) -> Option<Expr> {
    let Stmt::Expr(Expr::ForLoop(f), _) = s else { return None };
    if !matches!(a, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0") || count(f.expr.to_token_stream(), n) > 0 || !lazy(&f.expr) {
        return None;
    }
    let (last, rest) = f.body.stmts.split_last()?;
    let Stmt::Expr(Expr::Binary(st), _) = last else { return None };
    let one = matches!(&st.op, BinOp::AddAssign(_))
        && matches!(&*st.left, Expr::Path(p) if p.path.is_ident(n))
        && matches!(&*st.right, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "1");
    let mut u = Uses { n: n.into(), bad: false };
    let mut rest: Vec<Stmt> = rest.to_vec();
    for s in rest.iter_mut() {
        u.visit_stmt_mut(s);
    }
    if !one || u.bad {
        return None;
    }
    let (k, p, e, label) = (quote::format_ident!("{}", n), &f.pat, bare(&f.expr), &f.label);
    Some(parse_quote!(#label for (#k, #p) in #e.enumerate() { #(#rest)* }))
}
/// `n` is assigned, borrowed mutably or hidden, or the round is left by `continue`.
struct Uses {
    n: String,
    bad: bool,
}
impl VisitMut for Uses {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let me = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(&self.n));
        match e {
            Expr::Continue(_) => self.bad = true,
            Expr::Assign(a) if me(&a.left) => self.bad = true,
            Expr::Binary(b) if assign_op(&b.op) && me(&b.left) => self.bad = true,
            Expr::Reference(r) if r.mutability.is_some() && me(&r.expr) => self.bad = true,
            Expr::Macro(_) => {}
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.ident == self.n {
            self.bad = true;
        }
    }
}
const READS: &[&str] = &[
    "len", "num_rows", "num_cols", "entry", "iter", "clone", "max", "min", "is_empty", "get", "start", "end", "conj", "mul_refs", "add_refs", "sub_refs",
];
/// `e` has the same value before every round of `body`.
fn stable(e: &Expr, body: &[Stmt]) -> bool {
    fn roots(e: &Expr, out: &mut Vec<String>) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => {
                    out.push(i.to_string());
                    true
                }
                None => true,
            },
            Expr::Paren(x) => roots(&x.expr, out),
            Expr::Reference(x) => x.mutability.is_none() && roots(&x.expr, out),
            Expr::Field(x) => roots(&x.base, out),
            Expr::Binary(x) => !assign_op(&x.op) && roots(&x.left, out) && roots(&x.right, out),
            Expr::Cast(x) => roots(&x.expr, out),
            Expr::MethodCall(m) => {
                READS.iter().any(|r| m.method == r) && m.method != "get" && m.method != "entry" && m.method != "iter" && roots(&m.receiver, out) && m.args.iter().all(|a| roots(a, out))
            }
            _ => false,
        }
    }
    let mut r = vec![];
    if !roots(e, &mut r) {
        return false;
    }
    struct W {
        r: Vec<String>,
        bad: bool,
    }
    impl W {
        fn rooted(&self, e: &Expr) -> bool {
            match e {
                Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.r.contains(&i.to_string())),
                Expr::Field(f) => self.rooted(&f.base),
                Expr::Paren(f) => self.rooted(&f.expr),
                Expr::Unary(f) => self.rooted(&f.expr),
                _ => false,
            }
        }
    }
    impl VisitMut for W {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Assign(a) if self.rooted(&a.left) => self.bad = true,
                Expr::Binary(b) if assign_op(&b.op) && self.rooted(&b.left) => self.bad = true,
                Expr::Reference(r) if r.mutability.is_some() && self.rooted(&r.expr) => self.bad = true,
                Expr::MethodCall(m) if self.rooted(&m.receiver) && !READS.iter().any(|x| m.method == x) => self.bad = true,
                // (handed on as it is: moved, or a mutable borrow passed along)
                Expr::Call(c) if c.args.iter().any(|a| self.rooted(a)) => self.bad = true,
                Expr::Macro(_) => {}
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if self.r.contains(&p.ident.to_string()) {
                self.bad = true;
            }
        }
    }
    let mut w = W { r, bad: false };
    for s in body.to_vec().iter_mut() {
        w.visit_stmt_mut(s);
    }
    !w.bad
}

/// The `let`s of sizes at the top of the baseline's body whose names a changed body lacks.
pub fn sizes(base: &str, locals: &[String], params: &[String], base_params: &[String]) -> Vec<Stmt> {
    let Ok(b) = parse_str::<Block>(base) else { return vec![] };
    let mut out = vec![];
    for s in &b.stmts {
        match s {
            Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if p.mutability.is_none() => {
                let n = p.ident.to_string();
                if size(expr, base_params) && !locals.contains(&n) && !params.contains(&n) {
                    out.push(s.clone());
                }
            }
            Stmt::Expr(Expr::Call(c), Some(_)) if c.func.to_token_stream().to_string().contains("rt_assert") => {}
            _ => break,
        }
    }
    out
}
fn size(e: &Expr, params: &[String]) -> bool {
    match e {
        Expr::MethodCall(m) => m.args.is_empty() && ["len", "num_rows", "num_cols"].iter().any(|x| m.method == x) && place(&m.receiver, params),
        _ => false,
    }
}
fn place(e: &Expr, params: &[String]) -> bool {
    match e {
        Expr::Field(f) => place(&f.base, params),
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| i == "self" || i == "self_" || params.contains(&i.to_string())),
        _ => false,
    }
}

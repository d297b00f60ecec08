//! Fits the annotations of contracts/ to a body that has changed since they were written.
//! Annotations inside a body are hints: whatever is put there is checked by the verifier, so
//! this only decides how much is proved, never what counts as proved.
//!
//! A name that is no longer there (the accumulator of a `fold` that has become a loop, the counter
//! of a `for` that has become a `while`) is replaced by what took its place; clauses that still
//! mention a missing name are left out.
use crate::printer::Raw;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use std::str::FromStr;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Clone, Debug, Default)]
struct Loop {
    no: Option<usize>,
    generated: bool,
    /// outer variables the body changes, in order
    mutated: Vec<String>,
    /// (counter, bound, initial value, counts down)
    idx: Option<(String, String, String, bool)>,
}

pub struct Fit<'a> {
    raws: &'a mut Vec<Raw>,
    /// names an annotation may mean: those of the code the contract was written for
    known: HashSet<String>,
    scopes: Vec<HashSet<String>>,
    inits: HashMap<String, String>,
    open: Vec<Loop>,
    done: Vec<Loop>,
    alias: HashMap<String, String>,
    /// only leave things out
    pub drop_only: bool,
    /// lines the compiler has no sense for there (without white space): what they belong to is left out
    pub dropped: Vec<String>,
    pub edits: usize,
}

fn generated(s: &str) -> Option<(&str, usize)> {
    for p in ["acc", "out", "k", "n", "i"] {
        if let Some(r) = s.strip_prefix(p) {
            if let Ok(n) = r.parse() {
                return Some((p, n));
            }
        }
    }
    None
}
/// `sN_`, what the N-th loop iterates over
fn source_of_loop(s: &str) -> bool {
    s.strip_prefix('s').and_then(|r| r.strip_suffix('_')).map_or(false, |n| n.parse::<usize>().is_ok())
}
fn closure_param(s: &str) -> bool {
    s.len() > 3 && s.starts_with('c') && s[1..].split_once('_').map_or(false, |(a, b)| a.parse::<usize>().is_ok() && b.parse::<usize>().is_ok())
}

/// The variables a text mentions, and those it binds itself.
fn mentions(t: TokenStream, used: &mut Vec<String>, bound: &mut HashSet<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let p = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    let mut letting = false;
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                if letting {
                    let mut u = vec![];
                    mentions(g.stream(), &mut u, &mut HashSet::new());
                    bound.extend(u);
                } else {
                    mentions(g.stream(), used, bound)
                }
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if s == "let" {
                    letting = true;
                    continue;
                }
                if s == "ghost" || s == "tracked" || s == "mut" {
                    continue;
                }
                if letting {
                    bound.insert(s);
                    continue;
                }
                let field = i > 0 && p(i - 1, '.') && !(i > 1 && p(i - 2, '.'));
                let path = p(i + 1, ':') && p(i + 2, ':') || i > 1 && p(i - 1, ':') && p(i - 2, ':');
                let call = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) || p(i + 1, '!') && !p(i + 2, '=');
                if path || call || field {
                    continue;
                }
                if p(i + 1, ':') {
                    bound.insert(s);
                } else {
                    used.push(s);
                }
            }
            TokenTree::Punct(q) => {
                if letting && (q.as_char() == '=' || q.as_char() == ';') {
                    letting = false;
                }
            }
            _ => {}
        }
    }
}
fn subst(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let p = |i: usize, c: char| matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == c);
    let mut out = TokenStream::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            TokenTree::Ident(id) => {
                let field = i > 0 && p(i - 1, '.') && !(i > 1 && p(i - 2, '.'));
                let path = p(i + 1, ':') && p(i + 2, ':') || i > 1 && p(i - 1, ':') && p(i - 2, ':');
                match m.get(&id.to_string()) {
                    Some(r) if !field && !path => out.extend(r.clone()),
                    _ => out.extend([t.clone()]),
                }
            }
            _ => out.extend([t.clone()]),
        }
    }
    out
}

fn text_of(t: &TokenStream) -> String {
    // `@`, `==>` and the like have to stay what they are
    t.to_string()
}
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Index(i) => root(&i.expr),
        Expr::Paren(p) => root(&p.expr),
        Expr::Group(p) => root(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => root(&u.expr),
        Expr::Reference(r) => root(&r.expr),
        Expr::MethodCall(m) if ["as_mut_slice", "iter_mut", "as_mut", "index_mut", "vx_slice_mut"].iter().any(|x| m.method == x) => root(&m.receiver),
        _ => None,
    }
}
fn compound(op: &BinOp) -> bool {
    matches!(
        op,
        BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)
    )
}
fn mutated(b: &Block) -> Vec<String> {
    struct V {
        out: Vec<String>,
        inner: HashSet<String>,
    }
    impl V {
        fn add(&mut self, e: &Expr) {
            if let Some(r) = root(e) {
                if !self.inner.contains(&r) && !self.out.contains(&r) && !matches!(generated(&r), Some(("k", _))) && !source_of_loop(&r) {
                    self.out.push(r);
                }
            }
        }
    }
    impl<'b> Visit<'b> for V {
        fn visit_item(&mut self, _: &'b Item) {}
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.inner.insert(p.ident.to_string());
        }
        fn visit_expr_assign(&mut self, a: &'b ExprAssign) {
            visit::visit_expr_assign(self, a);
            self.add(&a.left);
        }
        fn visit_expr_binary(&mut self, a: &'b ExprBinary) {
            visit::visit_expr_binary(self, a);
            if compound(&a.op) {
                self.add(&a.left);
            }
        }
        fn visit_expr_reference(&mut self, r: &'b ExprReference) {
            visit::visit_expr_reference(self, r);
            if r.mutability.is_some() {
                self.add(&r.expr);
            }
        }
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
            visit::visit_expr_method_call(self, m);
            if ["push", "resize_with", "resize", "insert", "swap", "truncate", "pop", "take", "set", "extend"].iter().any(|x| m.method == x) {
                self.add(&m.receiver);
            }
        }
    }
    let mut v = V { out: vec![], inner: HashSet::new() };
    v.visit_block(b);
    v.out
}
fn is_one(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "1")
}
/// `i += 1`, `i = i + 1`: 1, `-=`: -1
fn step(s: &Stmt, v: &str) -> i32 {
    let Stmt::Expr(e, _) = s else { return 0 };
    let is = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(v));
    match e {
        Expr::Binary(b) if is(&b.left) && is_one(&b.right) => match b.op {
            BinOp::AddAssign(_) => 1,
            BinOp::SubAssign(_) => -1,
            _ => 0,
        },
        Expr::Assign(a) if is(&a.left) => match &*a.right {
            Expr::Binary(b) if is(&b.left) && is_one(&b.right) => match b.op {
                BinOp::Add(_) => 1,
                BinOp::Sub(_) => -1,
                _ => 0,
            },
            _ => 0,
        },
        _ => 0,
    }
}

impl<'a> Fit<'a> {
    pub fn new(raws: &'a mut Vec<Raw>, known: HashSet<String>, params: &[String]) -> Self {
        let mut s: HashSet<String> = params.iter().cloned().collect();
        s.insert("self".into());
        Fit { raws, known, scopes: vec![s], inits: HashMap::new(), open: vec![], done: vec![], alias: HashMap::new(), drop_only: false, dropped: vec![], edits: 0 }
    }
    fn has(&self, n: &str) -> bool {
        self.scopes.iter().any(|s| s.contains(n))
    }
    fn declare(&mut self, p: &Pat) {
        for n in crate::body::pat_names(p) {
            self.scopes.last_mut().unwrap().insert(n);
        }
    }
    fn missing(&self, t: &TokenStream) -> Vec<String> {
        let (mut u, mut b) = (vec![], HashSet::new());
        mentions(t.clone(), &mut u, &mut b);
        let mut out: Vec<String> = vec![];
        for x in u {
            let gen = generated(&x).is_some() || closure_param(&x) || x == "ACC";
            if (gen || self.known.contains(&x)) && !b.contains(&x) && !self.has(&x) && !out.contains(&x) {
                out.push(x);
            }
        }
        out
    }
    /// What a missing counter stands for at a place in loop `l` (or behind it): before the step (0),
    /// after it (1).
    fn counter(&self, l: &Loop, what: &str, stepped: bool, inside: bool) -> Option<String> {
        let (i, n, init, down) = l.idx.clone()?;
        Some(match (what, down) {
            ("n", false) => format!("({})", n),
            ("n", true) => format!("({})", init),
            // at the head and behind the loop
            ("k", false) if !inside => i,
            ("k", true) if !inside => format!("({} - {})", init, i),
            ("k", false) => if stepped { i } else { format!("({} + 1)", i) },
            ("k", true) => if stepped { format!("({} - {})", init, i) } else { format!("({} - {} + 1)", init, i) },
            ("i", false) => if stepped { format!("({} - 1)", i) } else { i },
            ("i", true) => if stepped { format!("({} - {} - 1)", init, i) } else { format!("({} - {})", init, i) },
            _ => return None,
        })
    }
    /// The raw text at a place: `head`: clauses of the loop just entered
    fn marker(&mut self, id: usize, head: bool, stepped: bool) {
        let (text, spec) = match &self.raws[id] {
            Raw::Text(t) => (t.clone(), false),
            Raw::Spec(t) => (t.clone(), true),
            Raw::FnSpec(..) | Raw::Loop(_) => return,
        };
        let Ok(toks) = TokenStream::from_str(&text) else { return };
        let miss = self.missing(&toks);
        if !miss.is_empty() || !self.dropped.is_empty() {
            let here = self.open.last().cloned().or(self.done.last().cloned()).unwrap_or_default();
            let mut map: HashMap<String, TokenStream> = HashMap::new();
            if !self.drop_only {
                let (mut used, mut b) = (vec![], HashSet::new());
                mentions(toks.clone(), &mut used, &mut b);
                let cand: Vec<String> = here.mutated.iter().filter(|c| self.has(c) && !used.contains(c) && !self.known.contains(*c)).cloned().collect();
                let mut cand = if cand.is_empty() {
                    here.mutated.iter().filter(|c| self.has(c) && !used.contains(c)).cloned().collect()
                } else {
                    cand
                };
                if let Some((i, ..)) = &here.idx {
                    cand.retain(|c| c != i);
                }
                cand.retain(|c| !self.alias.values().any(|v| v == c));
                let mut cand = cand.into_iter();
                for m in &miss {
                    let r = match generated(m) {
                        Some((p @ ("k" | "n" | "i"), no)) => {
                            let l = self.open.iter().rev().find(|l| l.no == Some(no) && !l.generated);
                            match l {
                                Some(l) => self.counter(l, p, stepped, !head),
                                None => self.done.iter().rev().find(|l| l.no == Some(no) && !l.generated).and_then(|l| self.counter(l, p, false, false)),
                            }
                        }
                        // the first thing this loop changes
                        _ if m == "ACC" => here.mutated.iter().find(|c| self.has(c) && here.idx.as_ref().map_or(true, |i| i.0 != **c)).cloned(),
                        _ => match self.alias.get(m) {
                            Some(a) if self.has(a) => Some(a.clone()),
                            Some(_) => None,
                            None if spec && head => {
                                let c = cand.next();
                                if let Some(c) = &c {
                                    self.alias.insert(m.clone(), c.clone());
                                }
                                c
                            }
                            None => None,
                        },
                    };
                    if let Some(r) = r {
                        if let Ok(t) = TokenStream::from_str(&r) {
                            map.insert(m.clone(), t);
                        }
                    }
                }
            }
            self.edits += 1;
            let mut own = HashSet::new();
            mentions(toks.clone(), &mut vec![], &mut own);
            let new = if spec {
                let mut out = String::new();
                for c in split(&text) {
                    let (kw, body) = keyword(&c);
                    out.push_str(&kw);
                    let t = TokenStream::from_str(&body).unwrap_or_default();
                    let t2 = subst(t, &map);
                    if self.missing(&t2).is_empty() && !self.is_dropped(&text_of(&t2)) {
                        if body.trim().is_empty() {
                            continue;
                        }
                        out.push_str(&text_of(&t2));
                        out.push_str(",\n");
                    }
                }
                tidy(&out)
            } else {
                let mut out = String::new();
                let mut gone: HashSet<String> = HashSet::new();
                for st in statements(toks.clone()) {
                    let t2 = subst(st, &map);
                    let (mut u, mut b) = (vec![], HashSet::new());
                    mentions(t2.clone(), &mut u, &mut b);
                    // (a variable of the text itself)
                    let miss: Vec<String> = self.missing(&t2).into_iter().filter(|m| !own.contains(m)).collect();
                    if miss.is_empty() && !u.iter().any(|x| gone.contains(x)) && !self.is_dropped(&text_of(&t2)) {
                        out.push_str(&text_of(&t2));
                        out.push('\n');
                    } else {
                        gone.extend(b);
                    }
                }
                out
            };
            match &mut self.raws[id] {
                Raw::Text(t) | Raw::Spec(t) => *t = new.clone(),
                _ => {}
            }
            if !spec && new.trim().is_empty() {
                return;
            }
        }
        if !spec {
            let (mut u, mut b) = (vec![], HashSet::new());
            mentions(toks, &mut u, &mut b);
            // (ghost variables of this text)
            if text.contains("let ") {
                for n in b {
                    self.scopes.last_mut().unwrap().insert(n);
                }
            }
        }
    }
    fn is_dropped(&self, t: &str) -> bool {
        let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
        self.dropped.iter().any(|d| t.contains(d.as_str()))
    }
    fn id_of(&self, s: &Stmt) -> Option<usize> {
        match s {
            Stmt::Macro(m) if m.mac.path.is_ident("__vx") => m.mac.tokens.to_string().trim().parse().ok(),
            _ => None,
        }
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(HashSet::new());
        f(self);
        self.scopes.pop();
    }
    fn loop_of(&self, cond: Option<&Expr>, b: &Block) -> Loop {
        let mut l = Loop { mutated: mutated(b), ..Default::default() };
        for s in &b.stmts {
            match self.id_of(s).map(|i| &self.raws[i]) {
                Some(Raw::Loop(n)) => l.no = Some(*n),
                Some(_) => {}
                None => break,
            }
        }
        if let Some(Expr::Binary(c)) = cond {
            let name = |e: &Expr| match e {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            if let (None, Some(k)) = (l.no, name(&c.left)) {
                if let Some(("k", n)) = generated(&k) {
                    l.no = Some(n);
                    l.generated = true;
                    return l;
                }
            }
            let (i, n) = match c.op {
                BinOp::Lt(_) | BinOp::Ne(_) => (name(&c.left), &c.right),
                BinOp::Gt(_) => (name(&c.right), &c.left),
                _ => (None, &c.right),
            };
            if let Some(i) = i {
                let steps: Vec<i32> = b.stmts.iter().map(|s| step(s, &i)).filter(|s| *s != 0).collect();
                if steps == [1] {
                    l.idx = Some((i.clone(), n.to_token_stream().to_string(), self.inits.get(&i).cloned().unwrap_or("0".into()), false));
                }
            }
            // i > 0
            if l.idx.is_none() {
                if let (BinOp::Gt(_) | BinOp::Ne(_), Some(i), "0") = (&c.op, name(&c.left), c.right.to_token_stream().to_string().as_str()) {
                    let steps: Vec<i32> = b.stmts.iter().map(|s| step(s, &i)).filter(|s| *s != 0).collect();
                    if let (true, Some(init)) = (steps == [-1], self.inits.get(&i)) {
                        l.idx = Some((i.clone(), "0".into(), init.clone(), true));
                    }
                }
            }
        }
        l
    }
    fn enter(&mut self, l: Loop, b: &'_ Block) {
        // a loop of the source the contract says nothing of ends because its counter does
        if let Some((i, n, _, down)) = &l.idx {
            for s in &b.stmts {
                match self.id_of(s) {
                    Some(id) => {
                        if let Raw::Loop(_) = &self.raws[id] {
                            let has = b.stmts.iter().filter_map(|s| self.id_of(s)).any(|j| matches!(&self.raws[j], Raw::Spec(t) if t.contains("decreases")));
                            if !has {
                                let init = &l.idx.as_ref().unwrap().2;
                                let (inv, dec) = if *down { (format!("invariant\n    {} <= {},\n", i, init), i.clone()) } else { (format!("invariant\n    {} <= {},\n", i, n), format!("{} - {}", n, i)) };
                                let nspec = b.stmts.iter().filter_map(|s| self.id_of(s)).find(|j| matches!(&self.raws[*j], Raw::Spec(_)));
                                let tail = format!("decreases {},\n", dec);
                                match nspec {
                                    Some(j) => {
                                        if let Raw::Spec(t) = &mut self.raws[j] {
                                            let rest = t.trim_start().strip_prefix("invariant").unwrap_or(t).to_string();
                                            let rest = rest.trim_end();
                                            let sep = if rest.ends_with(',') || rest.is_empty() { "" } else { "," };
                                            *t = format!("{}{}{}\n{}", if inv.is_empty() { "invariant\n" } else { &inv }, rest, sep, tail);
                                        }
                                    }
                                    None => self.raws[id] = Raw::Spec(format!("{}{}", inv, tail)),
                                }
                            }
                        }
                    }
                    None => break,
                }
            }
        }
        self.open.push(l);
        self.scoped(|s| {
            let mut head = true;
            let mut stepped = false;
            for st in &b.stmts {
                if let Some(id) = s.id_of(st) {
                    s.marker(id, head && matches!(s.raws[id], Raw::Spec(_)), stepped);
                    continue;
                }
                head = false;
                if let Some((i, ..)) = s.open.last().and_then(|l| l.idx.clone()) {
                    if step(st, &i) != 0 {
                        stepped = true;
                    }
                }
                s.visit_stmt(st);
            }
        });
        let l = self.open.pop().unwrap();
        self.done.push(l);
    }
}
impl<'a, 'b> Visit<'b> for Fit<'a> {
    fn visit_item(&mut self, _: &'b Item) {}
    fn visit_block(&mut self, b: &'b Block) {
        self.scoped(|s| {
            for st in &b.stmts {
                match s.id_of(st) {
                    Some(id) => s.marker(id, false, false),
                    None => s.visit_stmt(st),
                }
            }
        });
    }
    fn visit_local(&mut self, l: &'b Local) {
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Pat::Ident(p) = &l.pat {
                self.inits.insert(p.ident.to_string(), i.expr.to_token_stream().to_string());
            }
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
        self.declare(&l.pat);
    }
    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
        self.scoped(|s| {
            for p in c.inputs.iter() {
                s.declare(p);
            }
            s.visit_expr(&c.body);
        });
    }
    fn visit_expr_for_loop(&mut self, f: &'b ExprForLoop) {
        self.visit_expr(&f.expr);
        self.scoped(|s| {
            s.declare(&f.pat);
            s.visit_block(&f.body);
        });
    }
    fn visit_arm(&mut self, a: &'b Arm) {
        self.scoped(|s| {
            s.declare(&a.pat);
            if let Some((_, g)) = &a.guard {
                s.visit_expr(g);
            }
            s.visit_expr(&a.body);
        });
    }
    fn visit_expr_let(&mut self, e: &'b ExprLet) {
        self.visit_expr(&e.expr);
        self.declare(&e.pat);
    }
    fn visit_expr_while(&mut self, w: &'b ExprWhile) {
        let l = self.loop_of(Some(&w.cond), &w.body);
        self.visit_expr(&w.cond);
        self.enter(l, &w.body);
    }
    fn visit_expr_loop(&mut self, w: &'b ExprLoop) {
        let l = self.loop_of(None, &w.body);
        self.enter(l, &w.body);
    }
}

/// Clauses: split at commas that end a line outside brackets.
fn split(t: &str) -> Vec<String> {
    let (mut out, mut cur, mut d) = (vec![], String::new(), 0i32);
    for l in t.lines() {
        for c in l.chars() {
            match c {
                '(' | '[' | '{' => d += 1,
                ')' | ']' | '}' => d -= 1,
                _ => {}
            }
        }
        cur.push_str(l);
        if d == 0 && l.trim_end().ends_with(',') {
            let s = cur.trim_end().trim_end_matches(',').to_string();
            out.push(s);
            cur = String::new();
        } else {
            cur.push('\n');
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out
}
/// The statements of an annotation.
fn statements(t: TokenStream) -> Vec<TokenStream> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let (mut out, mut cur) = (vec![], TokenStream::new());
    for (i, t) in v.iter().enumerate() {
        cur.extend([t.clone()]);
        let end = match t {
            TokenTree::Punct(p) => p.as_char() == ';',
            TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => !matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else") && !matches!(v.get(i + 1), Some(TokenTree::Punct(_))),
            _ => false,
        };
        if end {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn keyword(c: &str) -> (String, String) {
    let mut rest = c.trim_start();
    let mut kw = String::new();
    loop {
        let mut hit = false;
        for k in ["invariant_except_break", "invariant", "ensures", "requires", "decreases", "->"] {
            if k != "->" {
                if let Some(r) = rest.strip_prefix(k) {
                    if r.starts_with(|c: char| c.is_whitespace()) {
                        kw.push_str(k);
                        kw.push('\n');
                        rest = r.trim_start();
                        hit = true;
                    }
                }
            }
        }
        if !hit {
            break;
        }
    }
    (kw, rest.to_string())
}
/// Keywords without clauses go.
fn tidy(t: &str) -> String {
    let ls: Vec<&str> = t.lines().filter(|l| !l.trim().is_empty()).collect();
    let kw = |l: &str| ["invariant_except_break", "invariant", "ensures", "requires", "decreases"].contains(&l.trim());
    let mut out = String::new();
    for (i, l) in ls.iter().enumerate() {
        if kw(l) && ls.get(i + 1).map_or(true, |n| kw(n)) {
            continue;
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

/// Ghost variables the annotations of a function introduce.
pub fn ghosts(f: &crate::contracts::FnC) -> HashSet<String> {
    let mut out = HashSet::new();
    let mut add = |t: &str| {
        if t.contains("let ") {
            if let Ok(ts) = TokenStream::from_str(t) {
                mentions(ts, &mut vec![], &mut out);
            }
        }
    };
    add(&f.pre);
    add(&f.end);
    for (_, t) in &f.at {
        add(t);
    }
    for l in f.loops.values() {
        add(&l.before);
        add(&l.start);
        add(&l.end);
        add(&l.after);
    }
    out
}

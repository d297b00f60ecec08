//! Private names the contracts mention: fields that were renamed, or given names at all, get the names
//! back that the contracts use. Field positions and types do not change.
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// struct name -> field names when the contracts were written
pub static FIELDS: OnceLock<HashMap<String, Vec<String>>> = OnceLock::new();

pub fn load(t: &str) {
    let mut m = HashMap::new();
    for l in t.lines() {
        if let Some((n, f)) = l.split_once('\t') {
            m.insert(n.to_string(), f.split(',').map(|x| x.to_string()).collect());
        }
    }
    let _ = FIELDS.set(m);
}

fn names(s: &ItemStruct) -> Vec<String> {
    s.fields
        .iter()
        .enumerate()
        .map(|(i, f)| f.ident.as_ref().map_or(i.to_string(), |x| x.to_string()))
        .collect()
}

struct Structs(Vec<ItemStruct>);
impl<'a> Visit<'a> for Structs {
    fn visit_item_struct(&mut self, s: &'a ItemStruct) {
        self.0.push(s.clone());
    }
}

fn member(n: &str) -> Member {
    match n.parse::<u32>() {
        Ok(i) => Member::Unnamed(Index { index: i, span: proc_macro2::Span::call_site() }),
        Err(_) => Member::Named(Ident::new(n, proc_macro2::Span::call_site())),
    }
}
fn text(m: &Member) -> String {
    m.to_token_stream().to_string()
}

struct Rename<'a> {
    name: &'a str,
    map: &'a HashMap<String, String>,
    /// fields no other struct of the file has
    unique: HashSet<String>,
    inside: bool,
}
impl Rename<'_> {
    fn of(&self, p: &Path) -> bool {
        p.segments.last().map_or(false, |s| s.ident == self.name || (self.inside && p.segments.len() == 1 && s.ident == "Self"))
    }
    fn tokens(&self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::{Group, TokenTree as T};
        let v: Vec<T> = t.into_iter().collect();
        let mut out = vec![];
        for (i, x) in v.iter().enumerate() {
            match x {
                T::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.push(T::Group(n));
                }
                T::Ident(id) => {
                    let dot = i > 0 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == '.') && !(i > 1 && matches!(&v[i - 2], T::Punct(p) if p.as_char() == '.'));
                    let call = matches!(v.get(i + 1), Some(T::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                    let own = i > 1 && self.inside && matches!(&v[i - 2], T::Ident(s) if s == "self");
                    let n = id.to_string();
                    match self.map.get(&n) {
                        Some(b) if dot && !call && (own || self.unique.contains(&n)) => out.extend(member(b).to_token_stream()),
                        _ => out.push(x.clone()),
                    }
                }
                _ => out.push(x.clone()),
            }
        }
        out.into_iter().collect()
    }
}
impl VisitMut for Rename<'_> {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let mut t = &*i.self_ty;
        while let Type::Reference(r) = t {
            t = &r.elem;
        }
        let was = self.inside;
        self.inside = matches!(t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == self.name));
        visit_mut::visit_item_impl_mut(self, i);
        self.inside = was;
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        if s.ident != self.name {
            return;
        }
        for f in s.fields.iter_mut() {
            if let Some(b) = f.ident.as_ref().and_then(|i| self.map.get(&i.to_string())) {
                f.ident = Some(Ident::new(b, proc_macro2::Span::call_site()));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Field(f) => {
                let n = text(&f.member);
                if let Some(b) = self.map.get(&n) {
                    let own = self.inside && matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self"));
                    if own || self.unique.contains(&n) {
                        f.member = member(b);
                    }
                }
            }
            Expr::Struct(s) if self.of(&s.path) => {
                for f in s.fields.iter_mut() {
                    if let Some(b) = self.map.get(&text(&f.member)) {
                        f.member = member(b);
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_pat_struct_mut(&mut self, s: &mut PatStruct) {
        visit_mut::visit_pat_struct_mut(self, s);
        if self.of(&s.path) {
            for f in s.fields.iter_mut() {
                if let Some(b) = self.map.get(&text(&f.member)) {
                    f.member = member(b);
                    f.colon_token = Some(Default::default());
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(std::mem::take(&mut m.tokens));
    }
}

pub fn restore(f: &mut File) {
    let Some(base) = FIELDS.get() else { return };
    let mut all = Structs(vec![]);
    visit::visit_file(&mut all, f);
    for s in &all.0 {
        let name = s.ident.to_string();
        let (Some(b), n) = (base.get(&name), names(s)) else { continue };
        if *b == n || b.len() != n.len() || !matches!(s.fields, Fields::Named(_)) {
            continue;
        }
        let free: Vec<&String> = b.iter().filter(|x| !n.contains(x)).collect();
        let fresh: Vec<&String> = n.iter().filter(|x| !b.contains(x)).collect();
        if free.len() != fresh.len() || free.is_empty() {
            continue;
        }
        let map: HashMap<String, String> = fresh.iter().zip(&free).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let unique = fresh
            .iter()
            .filter(|x| all.0.iter().filter(|o| names(o).contains(x)).count() == 1)
            .map(|x| x.to_string())
            .collect();
        let tuple = b.iter().enumerate().all(|(i, x)| *x == i.to_string());
        if !tuple && b.iter().any(|x| x.parse::<u32>().is_ok()) {
            continue;
        }
        if tuple {
            struct Tuple<'a>(&'a str);
            impl VisitMut for Tuple<'_> {
                fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
                    if s.ident == self.0 {
                        let tys: Vec<(Visibility, Type)> = s.fields.iter().map(|f| (f.vis.clone(), f.ty.clone())).collect();
                        let (v, t): (Vec<_>, Vec<_>) = tys.into_iter().unzip();
                        s.fields = Fields::Unnamed(parse_quote!((#(#v #t),*)));
                        s.semi_token = Some(Default::default());
                    }
                }
            }
            Tuple(&name).visit_file_mut(f);
        }
        Rename { name: &name, map: &map, unique, inside: false }.visit_file_mut(f);
    }
}

fn leaves(t: &UseTree, pre: &str, out: &mut Vec<(String, String)>) {
    match t {
        UseTree::Path(p) => leaves(&p.tree, &format!("{}{}::", pre, p.ident), out),
        UseTree::Name(n) => out.push((n.ident.to_string(), format!("{}{}", pre, n.ident))),
        UseTree::Rename(n) => out.push((n.rename.to_string(), String::new())),
        UseTree::Group(g) => g.items.iter().for_each(|t| leaves(t, pre, out)),
        UseTree::Glob(_) => {}
    }
}
fn uses(items: &[Item]) -> Vec<(String, String)> {
    let mut v = vec![];
    for i in items {
        if let Item::Use(u) = i {
            leaves(&u.tree, "", &mut v);
        }
    }
    v
}
/// What the module imported from the standard library when the contracts were written, and does not now.
pub fn missing_uses(module: &str, items: &[Item]) -> Vec<ItemUse> {
    let Some(b) = FIELDS.get().and_then(|m| m.get(&format!("use {}", module))) else { return vec![] };
    let mut have: HashSet<String> = uses(items).into_iter().map(|x| x.0).collect();
    for i in items {
        match i {
            Item::Trait(t) => have.insert(t.ident.to_string()),
            Item::Struct(t) => have.insert(t.ident.to_string()),
            Item::Enum(t) => have.insert(t.ident.to_string()),
            Item::Fn(t) => have.insert(t.sig.ident.to_string()),
            Item::Type(t) => have.insert(t.ident.to_string()),
            Item::Const(t) => have.insert(t.ident.to_string()),
            _ => false,
        };
    }
    b.iter()
        .filter(|p| !have.contains(p.rsplit(':').next().unwrap_or("")))
        .filter_map(|p| parse_str::<ItemUse>(&format!("use {};", p)).ok())
        .collect()
}
fn known(module: &str) -> bool {
    FIELDS.get().map_or(true, |m| m.is_empty() || m.contains_key(&format!("mod {}", module)))
}
/// Removes the imports of module `m` from a use tree; the names that were imported go to `out`.
fn strip(t: UseTree, m: &str, at: bool, out: &mut Vec<String>) -> Option<UseTree> {
    match t {
        UseTree::Path(mut p) => {
            let here = at || p.ident == m;
            if !here && p.ident != "super" && p.ident != "crate" && p.ident != "self" && FIELDS.get().map_or(false, |f| !f.keys().any(|k| k.starts_with(&format!("mod {}", p.ident)))) {
                return Some(UseTree::Path(p));
            }
            p.tree = Box::new(strip(*p.tree, m, here, out)?);
            Some(UseTree::Path(p))
        }
        UseTree::Group(mut g) => {
            g.items = g.items.into_iter().filter_map(|t| strip(t, m, at, out)).collect();
            if g.items.is_empty() {
                None
            } else {
                Some(UseTree::Group(g))
            }
        }
        UseTree::Name(n) if at => {
            out.push(n.ident.to_string());
            None
        }
        UseTree::Glob(_) if at => {
            out.push("*".into());
            None
        }
        t => Some(t),
    }
}
/// Items that moved from a module the contracts know into a new one beside it come back: functions to
/// every module that imports them, anything else if a single module does.
pub fn merge_new(parent: &str, mods: &mut Vec<(String, Vec<Item>)>) {
    let path = |n: &str| if parent.is_empty() { n.to_string() } else { format!("{}::{}", parent, n) };
    let new: Vec<usize> = (0..mods.len()).filter(|&i| !known(&path(&mods[i].0))).collect();
    for i in new {
        let name = mods[i].0.clone();
        let own: Vec<Item> = mods[i].1.clone();
        let only_fns = own.iter().all(|x| matches!(x, Item::Fn(_) | Item::Use(_) | Item::Const(_)));
        let mut users = vec![];
        for k in 0..mods.len() {
            if k == i || !known(&path(&mods[k].0)) {
                continue;
            }
            let mut names = vec![];
            let mut items = vec![];
            for it in mods[k].1.clone() {
                match it {
                    Item::Use(mut u) => {
                        if let Some(t) = strip(u.tree, &name, false, &mut names) {
                            u.tree = t;
                            items.push(Item::Use(u));
                        }
                    }
                    x => items.push(x),
                }
            }
            if !names.is_empty() {
                users.push((k, items));
            }
        }
        if users.is_empty() || (!only_fns && users.len() > 1) {
            continue;
        }
        for (k, mut items) in users {
            let user = mods[k].0.clone();
            let defined: Vec<String> = items
                .iter()
                .filter_map(|x| match x {
                    Item::Fn(f) => Some(f.sig.ident.to_string()),
                    Item::Struct(s) => Some(s.ident.to_string()),
                    Item::Trait(s) => Some(s.ident.to_string()),
                    _ => None,
                })
                .collect();
            let have: HashSet<String> = uses(&items).into_iter().map(|x| x.0).chain(defined.clone()).collect();
            if own.iter().any(|x| matches!(x, Item::Fn(f) if have.contains(&f.sig.ident.to_string()))) {
                continue;
            }
            for it in &own {
                if let Item::Use(u) = it {
                    let mut l = vec![];
                    leaves(&u.tree, "", &mut l);
                    for (n, p) in l {
                        if !have.contains(&n) && !p.is_empty() && !p.contains(&format!("{}::", user)) {
                            if let Ok(u) = parse_str::<ItemUse>(&format!("use {};", p)) {
                                items.push(Item::Use(u));
                            }
                        }
                    }
                } else {
                    items.push(it.clone());
                }
            }
            mods[k].1 = items;
            if !only_fns {
                let u = Ident::new(&user, proc_macro2::Span::call_site());
                mods[i].1 = vec![parse_quote!(pub use super::#u::*;)];
            }
        }
    }
}

/// The lines of `structs.tsv`: the fields of every struct and the standard imports of every module.
pub fn tables(dir: &std::path::Path, module: &str, out: &mut Vec<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let stem = p.file_stem().unwrap_or_default().to_string_lossy().to_string();
        if p.is_dir() {
            let sub = if module.is_empty() { stem } else { format!("{}::{}", module, stem) };
            tables(&p, &sub, out);
            continue;
        }
        let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| crate::cfg::parse_file(&t).ok()) else { continue };
        let sub = match (stem.as_str(), module) {
            ("lib" | "mod", m) => m.to_string(),
            (s, "") => s.to_string(),
            (s, m) => format!("{}::{}", m, s),
        };
        let u: Vec<String> = uses(&f.items).into_iter().map(|x| x.1).filter(|p| p.starts_with("std::ops::") || p.starts_with("std::cmp::")).collect();
        if !u.is_empty() {
            out.push(format!("use {}\t{}", sub, u.join(",")));
        }
        out.push(format!("mod {}\t", sub));
        let mut all = Structs(vec![]);
        visit::visit_file(&mut all, &f);
        out.extend(all.0.iter().filter(|s| !s.fields.is_empty()).map(|s| format!("{}\t{}", s.ident, names(s).join(","))));
    }
}

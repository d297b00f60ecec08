//! vx: extracts the code of /repo/src into one Verus file and injects the contracts.
//!
//! usage: vx --src DIR --contracts DIR --out FILE --report FILE [--baseline FILE]
//!           [--write-baseline FILE] [--external KEY]... [--vacuity]
mod body;
mod canon;
mod cfg;
mod inline;
mod tidy;
mod contracts;
mod fit;
mod printer;
mod rules;
mod shape;

use body::*;
use contracts::*;
use printer::Raw;
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Debug)]
struct FnRep {
    key: String,
    module: String,
    file: String,
    line: usize,
    status: String,
    skeleton: String,
    base_skeleton: String,
    calls: Vec<String>,
    base_calls: Option<Vec<String>>,
    params: Vec<String>,
    locals: Vec<String>,
    out: (usize, usize),
    nloops: usize,
    has_while: bool,
    rtidx: bool,
    contract: String,
    text: String,
    base_text: String,
    fitted: usize,
}

#[derive(Default, Clone)]
struct Base {
    params: Vec<String>,
    locals: Vec<String>,
    skeleton: String,
    calls: Vec<String>,
    text: String,
}

struct Cx {
    c: Contracts,
    raws: Vec<Raw>,
    reps: Vec<FnRep>,
    baseline: HashMap<String, Base>,
    force_external: HashSet<String>,
    traits: HashSet<String>,
    array_structs: HashSet<String>,
    /// generic names of a struct and the dimensions of its array field
    arr_dims: HashMap<String, (Vec<String>, Vec<Expr>)>,
    /// (type, mode) -> iterator the crate's own `IntoIterator for [&[mut]] type` returns
    iter_ref: HashMap<(String, u8), Expr>,
    used_fns: HashSet<String>,
    vacuity: bool,
    /// changed bodies whose annotations are only thinned out
    no_fit: HashSet<String>,
    drop_lines: HashMap<String, Vec<String>>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "").contains("cfg(test"))
    })
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}
fn public() -> Visibility {
    parse_quote!(pub)
}
fn parse_attr(s: &str) -> Attribute {
    let w = format!("{} fn x() {{}}", s);
    match parse_str::<ItemFn>(&w) {
        Ok(f) => f.attrs[0].clone(),
        Err(e) => panic!("bad attribute {}: {}", s, e),
    }
}
fn arr_field(s: &ItemStruct) -> bool {
    match &s.fields {
        Fields::Unnamed(f) => f.unnamed.len() == 1 && matches!(f.unnamed[0].ty, Type::Array(_)),
        _ => false,
    }
}
/// The dimensions in terms of the arguments of `t`.
fn dims_for(d: &(Vec<String>, Vec<Expr>), t: &Type) -> Option<Vec<Expr>> {
    let Type::Path(p) = t else { return None };
    let PathArguments::AngleBracketed(a) = &p.path.segments.last()?.arguments else { return None };
    let args: Vec<&GenericArgument> = a.args.iter().collect();
    d.1.iter()
        .map(|e| {
            let k = d.0.iter().position(|n| *n == e.to_token_stream().to_string())?;
            let x = args.get(k)?;
            parse2::<Expr>(quote!(#x)).ok()
        })
        .collect()
}
fn head_ident(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
        Type::Reference(r) => head_ident(&r.elem),
        Type::Paren(p) => head_ident(&p.elem),
        Type::Group(p) => head_ident(&p.elem),
        _ => None,
    }
}

/// Expands the derives that matter into ordinary impls, as rustc does.
fn expand_derives(s: &ItemStruct) -> Vec<ItemImpl> {
    let mut out = vec![];
    let name = &s.ident;
    let (_, tyg, wh) = s.generics.split_for_impl();
    let ds = derives(&s.attrs);
    let members: Vec<Member> = s.fields.members().collect();
    let with = |b: &str| {
        let mut g = s.generics.clone();
        let p: TypeParamBound = parse_str(b).unwrap();
        for t in g.type_params_mut() {
            t.bounds.push(p.clone());
        }
        g
    };
    for d in ds {
        match d.as_str() {
            "Clone" => {
                let g = with("Clone");
                let (ig, _, _) = g.split_for_impl();
                out.push(parse_quote!(impl #ig Clone for #name #tyg #wh {
                    fn clone(&self) -> Self { #name { #( #members: self.#members.clone() ),* } }
                }));
            }
            "Copy" => {
                let g = with("Copy");
                let (ig, _, _) = g.split_for_impl();
                out.push(parse_quote!(impl #ig Copy for #name #tyg #wh {}));
            }
            "PartialEq" => {
                let g = with("PartialEq");
                let (ig, _, _) = g.split_for_impl();
                out.push(parse_quote!(impl #ig PartialEq for #name #tyg #wh {
                    fn eq(&self, other: &Self) -> bool { #( self.#members == other.#members )&&* }
                }));
            }
            "Eq" => {
                let g = with("Eq");
                let (ig, _, _) = g.split_for_impl();
                out.push(parse_quote!(impl #ig Eq for #name #tyg #wh {}));
            }
            _ => {}
        }
    }
    out
}

/// Does a `for<..>` bound with an `Output` binding occur?
fn hrtb_output(g: &Generics) -> bool {
    let has = |ts: proc_macro2::TokenStream| {
        let s = ts.to_string().replace(' ', "");
        s.contains("for<") && s.contains("Output=")
    };
    let w = g.where_clause.as_ref().map_or(false, |w| w.predicates.iter().any(|p| has(p.to_token_stream())));
    w || g.params.iter().any(|p| has(p.to_token_stream()))
}

struct FnEnv<'a> {
    key: String,
    module: String,
    file: String,
    self_ty: Option<&'a Type>,
    generics: Vec<&'a Generics>,
    is_trait_decl: bool,
    in_trait_impl: bool,
    trait_known: bool,
    /// the impl's `Output`
    output: Option<Type>,
}

impl Cx {
    fn mark(&mut self, r: Raw) -> Stmt {
        self.raws.push(r);
        let n = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
        parse_quote!(__vx!(#n);)
    }
    fn mark_tokens(&mut self, r: Raw) -> proc_macro2::TokenStream {
        self.raws.push(r);
        let n = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
        quote!(__vx!(#n);)
    }

    /// Transforms one function in place. Returns items hoisted out of its body.
    fn func(&mut self, attrs: &mut Vec<Attribute>, sig: &mut Signature, block: Option<&mut Block>, fc: Option<&FnC>, env: &FnEnv) -> Vec<Item> {
        let id = self.reps.len();
        let mut rep = FnRep {
            key: env.key.clone(),
            module: env.module.clone(),
            file: env.file.clone(),
            line: sig.span().start().line,
            ..Default::default()
        };
        let base = self.baseline.get(&env.key).cloned();
        let ret_ty = match &sig.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        };
        attrs.clear();
        let mut hoisted = vec![];
        // parameters
        let mut renames: Vec<(String, String)> = vec![];
        let mut mut_self = false;
        let mut k = 0;
        let mut logs: HashSet<String> = HashSet::new();
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        mut_self = true;
                    }
                }
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let Pat::Ident(p) = &mut *t.pat {
                        let name = p.ident.to_string();
                        rep.params.push(name.clone());
                        if let Some(b) = &base {
                            if let Some(w) = b.params.get(k) {
                                renames.push((name, w.clone()));
                                p.ident = Ident::new(w, p.ident.span());
                            }
                        }
                        if let (Some(_), Some(l)) = (fc, call_log(&t.ty)) {
                            logs.insert(p.ident.to_string());
                            *t.ty = l;
                            p.mutability = None;
                        }
                    } else {
                        rep.params.push("_".into());
                        if let Pat::Wild(_) = &*t.pat {
                            let n = format_ident!("unused{}", k);
                            t.pat = parse_quote!(#n);
                        }
                    }
                    k += 1;
                }
            }
        }
        let mut forced = self.force_external.contains(&env.key);
        if let Some(fc) = fc {
            if !fc.generics.is_empty() {
                // extra ghost-only generics are not supported; reserved
            }
            rep.contract = format!("{}:{}", fc.file, fc.line);
            rep.rtidx = fc.rtidx;
        }
        let mut attr_texts: Vec<String> = fc.map(|f| f.attrs.clone()).unwrap_or_default();
        let mut spec = fc.map(|f| f.spec.clone()).unwrap_or_default();
        let external = forced || fc.map_or(false, |f| f.external) || (fc.is_none() && !env.is_trait_decl && !(env.in_trait_impl && env.trait_known));
        if external {
            attr_texts.retain(|a| !a.contains("exec_allows"));
            // (a new function whose signature may not be within reach either)
            let all = forced && base.is_none() && fc.is_none() && !env.in_trait_impl && !env.is_trait_decl && !self.baseline.is_empty();
            attr_texts.push(if all { "#[verifier::external]" } else { "#[verifier::external_body]" }.into());
        }
        forced = external;
        rep.status = if env.is_trait_decl && block.is_none() {
            "decl".into()
        } else if forced {
            if fc.map_or(false, |f| f.external) { "trusted".into() } else { "external".into() }
        } else if fc.is_some() {
            "contract".into()
        } else {
            "inherited".into()
        };
        if let Some(fc) = fc {
            if let ReturnType::Type(arrow, t) = &sig.output {
                let r = format_ident!("{}", fc.ret);
                let t2 = Type::Verbatim(quote!((#r: #t)));
                sig.output = ReturnType::Type(*arrow, Box::new(t2));
            }
            if !fc.where_.is_empty() {
                let w: WhereClause = parse_str(&format!("where {}", fc.where_)).expect("where directive");
                sig.generics.make_where_clause().predicates.extend(w.predicates);
            }
        }
        if let Some(b) = block {
            // hoist inner items
            let mut rest = vec![];
            for s in b.stmts.drain(..) {
                match s {
                    Stmt::Item(Item::Use(u)) => rest.push(Stmt::Item(Item::Use(u))),
                    Stmt::Item(i) => hoisted.push(i),
                    s => rest.push(s),
                }
            }
            b.stmts = rest;
            tidy::Tidy.run(b);
            Macros.visit_block_mut(b);
            if let (Some(bs), false) = (&base, forced) {
                LetClosures(&bs.locals).visit_block_mut(b);
            }
            BreakVals(0).visit_block_mut(b);
            rep.calls = calls(b);
            ArrPats(0).visit_block_mut(b);
            let empty = vec![];
            let mut dry = Rename::new(&empty);
            dry.visit_block_mut(&mut b.clone());
            let wanted = match &base {
                Some(bs) => {
                    let mut taken = bs.params.clone();
                    taken.extend(rep.params.iter().cloned());
                    align(&dry.seen, &bs.locals, &taken)
                }
                None => vec![],
            };
            let before = b.clone();
            let mut wanted = wanted;
            let seen = loop {
                let mut rn = Rename::new(&wanted);
                for (a, w) in &renames {
                    rn.preset(a, w);
                }
                if mut_self {
                    rn.preset("self", "self_");
                }
                rn.visit_block_mut(b);
                let hides = rn.hides.take();
                let seen = rn.seen;
                if hides.is_empty() {
                    break seen;
                }
                for k in hides {
                    while wanted.len() <= k {
                        wanted.push(seen[wanted.len()].clone());
                    }
                    wanted[k] = if wanted[k] == seen[k] { format!("{}_", seen[k]) } else { seen[k].clone() };
                }
                *b = before.clone();
            };
            rep.locals = seen;
            rep.text = squash(&b.to_token_stream().to_string());
            let changed = base.as_ref().map_or(false, |bs| bs.text != rep.text);
            if !forced {
                if changed {
                    late_return(b);
                    if let Some(bs) = &base {
                        // (a size the contract speaks of, read in place instead of being named first)
                        let gone = tidy::sizes(&bs.text, &rep.locals, &rep.params, &bs.params);
                        b.stmts.splice(0..0, gone);
                    }
                }
                Members.visit_block_mut(b);
                LogCalls(&logs).visit_block_mut(b);
                if fc.map_or(false, |f| f.neg_calls) {
                    NegCalls.visit_block_mut(b);
                }
                if hrtb_generic(&env.generics, &sig.generics) && !fc.map_or(false, |f| f.keep_ops) {
                    OpCalls.visit_block_mut(b);
                }
                let self_array = env.self_ty.and_then(head_ident).map_or(false, |h| self.array_structs.contains(&h));
                let mut iter_params = HashMap::new();
                for a in &sig.inputs {
                    if let FnArg::Typed(t) = a {
                        if let Pat::Ident(p) = &*t.pat {
                            if let Some(h) = head_ident(&t.ty) {
                                if let Some(e) = self.iter_ref.get(&(h, ref_mode(&t.ty))) {
                                    let id = &p.ident;
                                    let e2 = subst_self(e, &parse_quote!(#id));
                                    iter_params.insert(p.ident.to_string(), e2);
                                }
                            }
                        }
                    }
                }
                let self_iter = match (sig.inputs.first(), env.self_ty) {
                    (Some(FnArg::Receiver(r)), Some(st)) => {
                        let mode = match (&r.reference, &r.mutability) {
                            (Some(_), Some(_)) => 1,
                            (Some(_), None) => 0,
                            _ => ref_mode(st),
                        };
                        head_ident(st).and_then(|h| self.iter_ref.get(&(h, mode)).cloned())
                    }
                    _ => None,
                };
                let mut consts: Vec<String> = vec![];
                for g in env.generics.iter().copied().chain(std::iter::once(&sig.generics)) {
                    consts.extend(g.const_params().map(|c| c.ident.to_string()));
                }
                let mut bd = Body::new(fc, &mut self.raws);
                bd.changed = changed;
                let ret = match ret_ty.as_ref().map(|t| (t, t.to_token_stream().to_string().replace(' ', ""))) {
                    Some((_, t)) if t == "Self::Output" => env.output.clone(),
                    Some((t, n)) if n != "Self" => Some(t.clone()),
                    _ => None,
                };
                for t in [ret.as_ref(), env.self_ty].into_iter().flatten() {
                    if let (true, Some(h)) = (bd.arr_dims.is_empty(), head_ident(t)) {
                        bd.arr_dims = self.arr_dims.get(&h).and_then(|d| dims_for(d, t)).unwrap_or_default();
                    }
                }
                for a in &sig.inputs {
                    match a {
                        FnArg::Receiver(r) if r.reference.is_none() && r.colon_token.is_none() && !matches!(env.self_ty, Some(Type::Reference(_))) => {
                            bd.owned_vars.insert(if mut_self { "self_".into() } else { "self".into() });
                        }
                        FnArg::Typed(t) if !matches!(&*t.ty, Type::Reference(_)) => bd.owned_vars.extend(pat_names(&t.pat)),
                        _ => {}
                    }
                }
                bd.self_array = self_array;
                bd.self_iter = self_iter;
                bd.iter_params = iter_params;
                bd.const_generic = if consts.len() == 1 { Some(consts[0].clone()) } else { None };
                bd.visit_block_mut(b);
                let mut end = fc.map(|f| alternatives(&f.end, changed)).unwrap_or_default();
                if self.vacuity {
                    // must fail in every function: otherwise its contract says nothing
                    end.push_str("\nassert(false);\n");
                }
                if !end.trim().is_empty() {
                    bd.end_text(&mut b.stmts, &end);
                }
                rep.skeleton = bd.skel.clone();
                rep.nloops = bd.nloops;
                if fc.map_or(false, |f| f.rtidx) {
                    RtIdx.visit_block_mut(b);
                }
                let mut pre: Vec<Stmt> = vec![];
                if let Some(fc) = fc {
                    let t = alternatives(&fc.pre, changed);
                    if !t.trim().is_empty() {
                        pre.push(self.mark(Raw::Text(t)));
                    }
                }
                if mut_self {
                    pre.insert(0, parse_quote!(let mut self_ = self;));
                }
                pre.append(&mut b.stmts);
                b.stmts = pre;
                if let (Some(fc), Some(bs), true) = (fc, &base, changed) {
                    let mut known: HashSet<String> = bs.locals.iter().chain(bs.params.iter()).cloned().collect();
                    known.extend(fit::ghosts(fc));
                    let params: Vec<String> = sig
                        .inputs
                        .iter()
                        .filter_map(|a| match a {
                            FnArg::Typed(t) => Some(pat_names(&t.pat)),
                            _ => None,
                        })
                        .flatten()
                        .collect();
                    let mut f = fit::Fit::new(&mut self.raws, known, &params);
                    f.drop_only = self.no_fit.contains(&env.key);
                    f.dropped = self.drop_lines.get(&env.key).cloned().unwrap_or_default();
                    syn::visit::Visit::visit_block(&mut f, b);
                    rep.fitted = f.edits + 1;
                }
            } else if mut_self {
                b.stmts.insert(0, parse_quote!(let mut self_ = self;));
            }
            if external {
                // the body is not looked at; keep it out of the extracted file
                if !sig.output.to_token_stream().to_string().contains("impl ") {
                    b.stmts = vec![Stmt::Expr(parse_quote!(unimplemented!()), None)];
                }
            }
            let m = self.mark(Raw::FnSpec(id, indent(&spec)));
            b.stmts.insert(0, m);
        }
        for a in attr_texts {
            attrs.push(parse_attr(&a));
        }
        if let Some(b) = base {
            rep.base_skeleton = b.skeleton;
            rep.base_calls = Some(b.calls);
            rep.base_text = b.text;
        }
        if fc.is_some() {
            self.used_fns.insert(format!("{}|{}", fc.unwrap().file, fc.unwrap().line));
        }
        self.reps.push(rep);
        hoisted
    }

    fn do_impl(&mut self, mut it: ItemImpl, module: &str, file: &str) -> (proc_macro2::TokenStream, Vec<Item>) {
        let (key, order) = canon::impl_key(&it);
        // find the contract; the same header may occur several times
        let fn_names: Vec<String> = it
            .items
            .iter()
            .filter_map(|i| if let ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None })
            .collect();
        let mut found: Option<usize> = None;
        for (i, c) in self.c.impls.iter().enumerate() {
            if c.is_trait {
                continue;
            }
            let h: ItemImpl = parse_str(&format!("{} {{}}", c.header)).unwrap_or_else(|e| panic!("contract header {}: {}", c.header, e));
            let (k, o) = canon::impl_key(&h);
            if k == key {
                // rename generics to the names of the contract
                if o.len() == order.len() && o != order {
                    let map: HashMap<String, String> = order.iter().cloned().zip(o.iter().cloned()).collect();
                    let ts = canon::rename_tokens(it.to_token_stream(), &map);
                    if let Ok(n) = parse2::<ItemImpl>(ts) {
                        it = n;
                    }
                }
                if it.trait_.is_some() || fn_names.iter().any(|f| c.fns.contains_key(f)) || found.is_none() {
                    found = Some(i);
                    if it.trait_.is_some() || fn_names.iter().any(|f| c.fns.contains_key(f)) {
                        break;
                    }
                }
            }
        }
        let ic = found.map(|i| self.c.impls[i].clone());
        let first = found.map_or(false, |i| !std::mem::replace(&mut self.c.impls[i].used, true));
        it.attrs.clear();
        if let Some(ic) = &ic {
            for a in &ic.attrs {
                it.attrs.push(parse_attr(a));
            }
        }
        let in_trait_impl = it.trait_.is_some();
        let trait_known = match &it.trait_ {
            Some((_, p, _)) => {
                let n = p.segments.last().unwrap().ident.to_string();
                self.traits.contains(&n) && ic.is_some() || ic.is_some()
            }
            None => false,
        };
        let self_ty = (*it.self_ty).clone();
        let generics = it.generics.clone();
        let output = it.items.iter().find_map(|i| match i {
            ImplItem::Type(t) if t.ident == "Output" => Some(t.ty.clone()),
            _ => None,
        });
        let mut hoisted = vec![];
        let mut items: Vec<proc_macro2::TokenStream> = vec![];
        if let (Some(ic), true) = (&ic, first || in_trait_impl) {
            if !ic.items.trim().is_empty() {
                items.push(self.mark_tokens(Raw::Text(ic.items.clone())));
            }
        }
        let is_iter = it.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().unwrap().ident == "IntoIterator");
        for i in it.items.iter() {
            match i.clone() {
                _ if is_iter => {}
                ImplItem::Fn(mut f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let name = f.sig.ident.to_string();
                    let fc = ic.as_ref().and_then(|c| c.fns.get(&name)).cloned();
                    let env = FnEnv {
                        key: format!("{} :: {}", key, name),
                        module: module.into(),
                        file: file.into(),
                        self_ty: Some(&self_ty),
                        generics: vec![&generics],
                        is_trait_decl: false,
                        in_trait_impl,
                        trait_known,
                        output: output.clone(),
                    };
                    f.vis = if in_trait_impl { Visibility::Inherited } else { public() };
                    hoisted.extend(self.func(&mut f.attrs, &mut f.sig, Some(&mut f.block), fc.as_ref(), &env));
                    items.push(f.to_token_stream());
                }
                ImplItem::Const(mut c) => {
                    c.attrs.clear();
                    items.push(c.to_token_stream());
                }
                ImplItem::Type(mut c) => {
                    c.attrs.clear();
                    items.push(c.to_token_stream());
                }
                o => items.push(o.to_token_stream()),
            }
        }
        if let Some((_, p, _)) = &it.trait_ {
            if p.segments.last().unwrap().ident == "IntoIterator" {
                let t = self.into_iter_fn(&it, ic.as_ref(), &key, module, file);
                return (t, hoisted);
            }
        }
        it.items.clear();
        let mut pre = proc_macro2::TokenStream::new();
        if let (Some(ic), true) = (&ic, first) {
            if !ic.before.trim().is_empty() {
                pre = self.mark_tokens(Raw::Text(ic.before.clone()));
            }
        }
        let attrs = &it.attrs;
        if let (Some(ic), Some((_, p, _))) = (&ic, &it.trait_) {
            let seg = p.segments.last().unwrap();
            if seg.ident == "Index" && !ic.req.is_empty() {
                let st = &it.self_ty;
                let (ig, _, wh) = it.generics.split_for_impl();
                let ix = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a.args.first().map(|x| x.to_token_stream()),
                    _ => None,
                };
                let rqt = self.mark_tokens(Raw::Text(ic.req.clone()));
                pre.extend(quote!(impl #ig vstd::std_specs::core::IndexSpecImpl<#ix> for #st #wh {
                    open spec fn index_req(&self, index: &#ix) -> bool { #rqt }
                }));
            }
            if !ic.val.is_empty() {
                let st = &it.self_ty;
                let seg = p.segments.last().unwrap();
                let tn = seg.ident.to_string();
                let rhs: Option<proc_macro2::TokenStream> = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a.args.first().map(|x| x.to_token_stream()),
                    _ => None,
                };
                let rhs = rhs.unwrap_or_else(|| quote!(Self));
                let args = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => a.to_token_stream(),
                    _ => quote!(),
                };
                let low = snake(&tn);
                let m = if tn == "PartialEq" { "eq".to_string() } else { low };
                let spec_tr = ident(&format!("{}SpecImpl", tn));
                let ob = ident(&format!("obeys_{}_spec", m));
                let rq = ident(&format!("{}_req", m));
                let sp = ident(&format!("{}_spec", m));
                let text = |this: &mut Self, s: &str, d: &str| {
                    let t = if s.is_empty() { d.to_string() } else { s.to_string() };
                    this.mark_tokens(Raw::Text(t))
                };
                let (okt, rqt) = (text(self, &ic.ok, "true"), text(self, &ic.req, "true"));
                let vt = text(self, &if tn.ends_with("Assign") { format!("&({})", ic.val) } else { ic.val.clone() }, "");
                let (ig, _, wh) = it.generics.split_for_impl();
                let body = match tn.as_str() {
                    "PartialEq" => quote!(
                        open spec fn #ob() -> bool { #okt }
                        open spec fn #sp(&self, rhs: &#rhs) -> bool { #vt }
                    ),
                    "Neg" | "Not" => quote!(
                        open spec fn #ob() -> bool { #okt }
                        open spec fn #rq(self) -> bool { #rqt }
                        open spec fn #sp(self) -> <Self as core::ops::Neg>::Output { #vt }
                    ),
                    "From" => quote!(
                        open spec fn #ob() -> bool { #okt }
                        open spec fn #sp(rhs: #rhs) -> Self { #vt }
                    ),
                    n if n.ends_with("Assign") => quote!(
                        open spec fn #ob() -> bool { #okt }
                        open spec fn #rq(&self, rhs: #rhs) -> bool { #rqt }
                        open spec fn #sp(&self, rhs: #rhs) -> &Self { #vt }
                    ),
                    _ => quote!(
                        open spec fn #ob() -> bool { #okt }
                        open spec fn #rq(self, rhs: #rhs) -> bool { #rqt }
                        open spec fn #sp(self, rhs: #rhs) -> <Self as #p>::Output { #vt }
                    ),
                };
                let spec_tr = if tn == "From" { quote!(vstd::std_specs::convert::FromSpecImpl) } else { quote!(#spec_tr) };
                pre.extend(quote!(impl #ig #spec_tr #args for #st #wh { #body }));
            }
        }
        let (ig, _, wh) = it.generics.split_for_impl();
        let tr = match &it.trait_ {
            Some((b, p, f)) => quote!(#b #p #f),
            None => quote!(),
        };
        let st = &it.self_ty;
        (quote!(#pre #(#attrs)* impl #ig #tr #st #wh { #(#items)* }), hoisted)
    }

    /// `IntoIterator` impls cannot be stated in the verifier (the iterator types are not
    /// supported). What such an impl yields is checked through a function that runs a `for`
    /// loop over the iterator the impl returns.
    fn into_iter_fn(&mut self, it: &ItemImpl, ic: Option<&ImplC>, key: &str, module: &str, file: &str) -> proc_macro2::TokenStream {
        let Some(fc) = ic.and_then(|c| c.fns.get("into_iter")) else { return quote!() };
        let Some(ImplItem::Fn(f)) = it.items.iter().find(|i| matches!(i, ImplItem::Fn(f) if f.sig.ident == "into_iter")) else {
            return quote!();
        };
        let elem: Type = parse_str(&fc.elem).expect("elem directive");
        let st = &it.self_ty;
        let mode = ref_mode(st);
        let mut block = f.block.clone();
        tidy::Tidy.run(&mut block);
        let Some(Stmt::Expr(tail, None)) = block.stmts.pop() else { return quote!() };
        let by: Expr = parse_quote!(self_);
        let tail = subst_self(&tail, &by);
        struct S;
        impl VisitMut for S {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Path(p) if p.path.is_ident("self")) {
                    *e = parse_quote!(self_);
                } else {
                    visit_mut::visit_expr_mut(self, e);
                }
            }
        }
        S.visit_block_mut(&mut block);
        let pre = &block.stmts;
        let (ig, _, wh) = it.generics.split_for_impl();
        let name = format_ident!("vx_iter_{}_{}", head_ident(st).unwrap_or_default(), ["ref", "mut", "val"][mode as usize]);
        let mut g: ItemFn = if mode == 1 {
            parse_quote!(pub fn #name #ig (self_: #st, w: &crate::vxp::Written<#elem>) #wh {
                #(#pre)*
                let mut vx_k: usize = 0;
                for vx_x in #tail { *vx_x = w.take(vx_k); vx_k += 1; }
            })
        } else {
            parse_quote!(pub fn #name #ig (self_: #st) -> Vec<#elem> #wh {
                #(#pre)*
                let mut vx_out: Vec<#elem> = Vec::new();
                for vx_x in #tail { vx_out.push(vx_x); }
                vx_out
            })
        };
        let generics = it.generics.clone();
        let env = FnEnv {
            key: format!("{} :: into_iter", key),
            module: module.into(),
            file: file.into(),
            self_ty: None,
            generics: vec![&generics],
            is_trait_decl: false,
            in_trait_impl: false,
            trait_known: false,
            output: None,
        };
        self.func(&mut g.attrs, &mut g.sig, Some(&mut g.block), Some(fc), &env);
        if let Some(r) = self.reps.last_mut() {
            r.line = f.sig.span().start().line;
        }
        g.to_token_stream()
    }

    fn items(&mut self, items: Vec<Item>, module: &str, dir: &Path, file: &Path, out: &mut proc_macro2::TokenStream) {
        let mc = self.c.mods.get(module).cloned().unwrap_or_default();
        let mut items = items;
        if !self.baseline.is_empty() {
            let base = &self.baseline;
            let mut inl = inline::Inliner::new(&items, module, &|k| base.contains_key(k));
            inl.run(&mut items);
        }
        let fname = file.to_string_lossy().to_string();
        let mut mods: Vec<(String, Vec<Item>)> = vec![];
        for it in &items {
            if let Item::Mod(m) = it {
                if is_test(&m.attrs) {
                    continue;
                }
                let name = m.ident.to_string();
                let content = match &m.content {
                    Some((_, items)) => items.clone(),
                    None => {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        let text = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{}: {}", f.display(), e));
                        crate::cfg::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", f.display(), e)).items
                    }
                };
                mods.push((name, content));
            }
        }
        shape::merge_new(module, &mut mods);
        let mut loaded: HashMap<String, Vec<Item>> = mods.into_iter().collect();
        for it in items {
            match it {
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    let name = m.ident.to_string();
                    let sub = if module.is_empty() { name.clone() } else { format!("{}::{}", module, name) };
                    let id = &m.ident;
                    let (d, f) = match m.content {
                        Some(_) => (dir.join(&name), file.to_path_buf()),
                        None => {
                            let a = dir.join(format!("{}.rs", name));
                            (dir.join(&name), if a.exists() { a } else { dir.join(&name).join("mod.rs") })
                        }
                    };
                    let items = loaded.remove(&name).unwrap_or_default();
                    let floats = float_facts(&items);
                    let uses = shape::missing_uses(&sub, &items);
                    let mut inner = proc_macro2::TokenStream::new();
                    self.items(items, &sub, &d, &f, &mut inner);
                    let mut raw = proc_macro2::TokenStream::new();
                    if let Some(mc) = self.c.mods.get(&sub).cloned() {
                        if !mc.raw.trim().is_empty() {
                            raw = self.mark_tokens(Raw::Text(mc.raw.replace("$FLOATS", &floats)));
                        }
                    }
                    out.extend(quote!(pub mod #id {
                        use vstd::prelude::*;
                        use vstd::std_specs::ops::*;
                        use vstd::std_specs::cmp::*;
                        use crate::vxp::*;
                        #(#uses)*
                        #inner
                        #raw
                    }));
                }
                Item::Struct(mut s) => {
                    if is_test(&s.attrs) {
                        continue;
                    }
                    let imps = expand_derives(&s);
                    s.attrs.clear();
                    if let Some(a) = mc.structs.get(&s.ident.to_string()) {
                        for a in a {
                            s.attrs.push(parse_attr(a));
                        }
                    }
                    for g in s.generics.type_params() {
                        let id = &g.ident;
                        s.attrs.push(parse_quote!(#[verifier::reject_recursive_types(#id)]));
                    }
                    s.vis = public();
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        f.vis = public();
                    }
                    out.extend(s.to_token_stream());
                    for i in imps {
                        let (t, h) = self.do_impl(i, module, &fname);
                        out.extend(t);
                        self.items(h, module, dir, file, out);
                    }
                }
                Item::Impl(i) => {
                    if is_test(&i.attrs) {
                        continue;
                    }
                    if i.trait_.as_ref().map_or(false, |t| {
                        let n = t.1.segments.last().unwrap().ident.to_string();
                        n == "Debug" || n == "Display"
                    }) {
                        continue;
                    }
                    let (t, h) = self.do_impl(i, module, &fname);
                    self.items(h, module, dir, file, out);
                    out.extend(t);
                }
                Item::Trait(mut t) => {
                    let name = t.ident.to_string();
                    let ic = self.c.impls.iter().find(|c| c.is_trait && c.header == name).cloned();
                    t.attrs.clear();
                    t.vis = public();
                    t.supertraits.push(parse_quote!(Sized));
                    if t.colon_token.is_none() {
                        t.colon_token = Some(Default::default());
                    }
                    if let Some(ic) = &ic {
                        for a in &ic.attrs {
                            t.attrs.push(parse_attr(a));
                        }
                        if !ic.supertraits.is_empty() {
                            t.supertraits.push(parse_str(&ic.supertraits).unwrap());
                        }
                    }
                    let mut items: Vec<proc_macro2::TokenStream> = vec![];
                    if let Some(ic) = &ic {
                        if !ic.items.trim().is_empty() {
                            items.push(self.mark_tokens(Raw::Text(ic.items.clone())));
                        }
                    }
                    let generics = t.generics.clone();
                    for i in t.items.iter() {
                        match i.clone() {
                            TraitItem::Fn(mut f) => {
                                let fname_ = f.sig.ident.to_string();
                                let fc = ic.as_ref().and_then(|c| c.fns.get(&fname_)).cloned();
                                let env = FnEnv {
                                    key: format!("trait {} :: {}", name, fname_),
                                    module: module.into(),
                                    file: fname.clone(),
                                    self_ty: None,
                                    generics: vec![&generics],
                                    is_trait_decl: true,
                                    in_trait_impl: false,
                                    trait_known: true,
                                    output: None,
                                };
                                let id = self.reps.len();
                                let spec = fc.as_ref().map(|f| f.spec.clone()).unwrap_or_default();
                                let h = self.func(&mut f.attrs, &mut f.sig, f.default.as_mut(), fc.as_ref(), &env);
                                self.items(h, module, dir, file, out);
                                match &f.default {
                                    Some(_) => items.push(f.to_token_stream()),
                                    None => {
                                        let sig = &f.sig;
                                        let attrs = &f.attrs;
                                        let m = self.mark_tokens(Raw::FnSpec(id, indent(&spec)));
                                        items.push(quote!(#(#attrs)* #sig #m));
                                    }
                                }
                            }
                            TraitItem::Type(mut ty) => {
                                ty.attrs.clear();
                                items.push(ty.to_token_stream());
                            }
                            o => items.push(o.to_token_stream()),
                        }
                    }
                    let attrs = &t.attrs;
                    let (ig, _, wh) = t.generics.split_for_impl();
                    let id = &t.ident;
                    let st = &t.supertraits;
                    out.extend(quote!(#(#attrs)* pub trait #id #ig : #st #wh { #(#items)* }));
                }
                Item::Fn(mut f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let name = f.sig.ident.to_string();
                    let fc = mc.fns.get(&name).cloned();
                    let generics = Generics::default();
                    let env = FnEnv {
                        key: format!("fn {} :: {}", module, name),
                        module: module.into(),
                        file: fname.clone(),
                        self_ty: None,
                        generics: vec![&generics],
                        is_trait_decl: false,
                        in_trait_impl: false,
                        trait_known: false,
                        output: None,
                    };
                    f.vis = public();
                    let h = self.func(&mut f.attrs, &mut f.sig, Some(&mut f.block), fc.as_ref(), &env);
                    self.items(h, module, dir, file, out);
                    out.extend(f.to_token_stream());
                }
                Item::Use(mut u) => {
                    if is_test(&u.attrs) {
                        continue;
                    }
                    u.attrs.clear();
                    out.extend(u.to_token_stream());
                }
                Item::Macro(_) => {
                    out.extend(it.to_token_stream());
                }
                Item::Const(mut c) => {
                    if !is_test(&c.attrs) {
                        c.attrs.clear();
                        c.vis = public();
                        out.extend(c.to_token_stream());
                    }
                }
                Item::Type(mut c) => {
                    c.attrs.clear();
                    c.vis = public();
                    out.extend(c.to_token_stream());
                }
                Item::Enum(mut c) => {
                    c.attrs.clear();
                    c.vis = public();
                    out.extend(c.to_token_stream());
                }
                o => out.extend(o.to_token_stream()),
            }
        }
    }

    /// First pass: trait names, array structs, `IntoIterator for &S` bodies.
    fn scan(&mut self, items: &[Item], dir: &Path) {
        for it in items {
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    let name = m.ident.to_string();
                    match &m.content {
                        Some((_, items)) => self.scan(items, &dir.join(&name)),
                        None => {
                            let a = dir.join(format!("{}.rs", name));
                            let b = dir.join(&name).join("mod.rs");
                            let f = if a.exists() { a } else { b };
                            if let Ok(t) = std::fs::read_to_string(&f) {
                                match crate::cfg::parse_file(&t) {
                                    Ok(p) => self.scan(&p.items, &dir.join(&name)),
                                    Err(e) => panic!("{}: {}", f.display(), e),
                                }
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    self.traits.insert(t.ident.to_string());
                }
                Item::Struct(s) if arr_field(s) => {
                    self.array_structs.insert(s.ident.to_string());
                    let mut dims = vec![];
                    let mut t = s.fields.iter().next().map(|f| f.ty.clone());
                    while let Some(Type::Array(a)) = t {
                        dims.push(a.len.clone());
                        t = Some(*a.elem);
                    }
                    let names = s.generics.params.iter().filter_map(|p| match p {
                        GenericParam::Type(t) => Some(t.ident.to_string()),
                        GenericParam::Const(t) => Some(t.ident.to_string()),
                        _ => None,
                    });
                    self.arr_dims.insert(s.ident.to_string(), (names.collect(), dims));
                }
                Item::Impl(i) => {
                    if let Some((_, p, _)) = &i.trait_ {
                        if p.segments.last().unwrap().ident == "IntoIterator" {
                            for f in &i.items {
                                if let ImplItem::Fn(f) = f {
                                    if let (Some(e), Some(h)) = (value_of(&f.block), head_ident(&i.self_ty)) {
                                        self.iter_ref.insert((h, ref_mode(&i.self_ty)), e);
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

/// 0: shared reference, 1: mutable reference, 2: value
fn ref_mode(t: &Type) -> u8 {
    match t {
        Type::Reference(r) if r.mutability.is_some() => 1,
        Type::Reference(_) => 0,
        _ => 2,
    }
}

/// The expression a block amounts to.
fn value_of(b: &Block) -> Option<Expr> {
    let mut b = b.clone();
    tidy::Tidy.run(&mut b);
    match &b.stmts[..] {
        [Stmt::Expr(e, None)] => Some(e.clone()),
        _ => None,
    }
}

fn subst_self(e: &Expr, by: &Expr) -> Expr {
    subst_path(e, "self", by)
}

fn subst_path(e: &Expr, name: &str, by: &Expr) -> Expr {
    struct S<'a>(&'a str, &'a Expr);
    impl<'a> VisitMut for S<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
                *e = self.1.clone();
            } else {
                visit_mut::visit_expr_mut(self, e);
            }
        }
    }
    let mut e = e.clone();
    S(name, by).visit_expr_mut(&mut e);
    e
}
use syn::visit_mut;

fn hrtb_generic(gs: &[&Generics], own: &Generics) -> bool {
    gs.iter().any(|g| hrtb_output(g)) || hrtb_output(own)
}
fn indent(s: &str) -> String {
    s.lines().map(|l| format!("    {}\n", l)).collect()
}
/// What the float literals of a module stand for.
fn float_facts(items: &[Item]) -> String {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_item(&mut self, i: &'a Item) {
            let attrs: &[Attribute] = match i {
                Item::Fn(f) => &f.attrs,
                Item::Mod(m) => &m.attrs,
                _ => &[],
            };
            if !is_test(attrs) {
                syn::visit::visit_item(self, i);
            }
        }
        fn visit_lit_float(&mut self, l: &'a LitFloat) {
            if matches!(l.suffix(), "" | "f32") {
                self.0.push(l.base10_digits().to_string());
            }
        }
    }
    let mut v = V(vec![]);
    for i in items {
        syn::visit::Visit::visit_item(&mut v, i);
    }
    v.0.sort();
    v.0.dedup();
    let mut out = String::from("true");
    for d in v.0 {
        let (m, e) = match d.split_once(['e', 'E']) {
            Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap_or(99)),
            None => (d.clone(), 0),
        };
        if e.abs() > 30 {
            continue;
        }
        let (a, b) = m.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((m.clone(), String::new()));
        // the point moves e places
        let mut digits = format!("{}{}", a, b);
        let mut point = a.len() as i32 + e;
        while point < 1 {
            digits.insert(0, '0');
            point += 1;
        }
        while (digits.len() as i32) <= point {
            digits.push('0');
        }
        let (x, y) = digits.split_at(point as usize);
        let src = if d.contains(['.', 'e', 'E']) { d.clone() } else { format!("{}.0", d) };
        out.push_str(&format!(" && rv({}f32) == {}.{}real && rv(-{}f32) == -{}.{}real", src, x, y, src, x, y));
    }
    out
}
fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// Replaces the postcondition by `false`: must NOT verify.
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn snake(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            r.push('_');
        }
        r.push(c.to_ascii_lowercase());
    }
    r
}
fn ident(s: &str) -> proc_macro2::Ident {
    proc_macro2::Ident::new(s, proc_macro2::Span::call_site())
}

fn words(ts: proc_macro2::TokenStream, out: &mut String) {
    use proc_macro2::{Delimiter, TokenTree};
    let mut joint = false;
    for t in ts {
        if !joint {
            out.push(' ');
        }
        joint = false;
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", " )"),
                    Delimiter::Brace => ("{", " }"),
                    Delimiter::Bracket => ("[", " ]"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                words(g.stream(), out);
                out.push_str(b);
            }
            TokenTree::Ident(i) => out.push_str(&i.to_string()),
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                joint = p.spacing() == proc_macro2::Spacing::Joint && p.as_char() == ':';
            }
            TokenTree::Literal(_) => out.push('0'),
        }
    }
}
/// Blocks behind `//? A|B` stay if the source mentions A or B.
fn conditional(t: &str, text: &str, used: &mut Vec<String>) -> String {
    let mut on = true;
    let mut out = String::new();
    for l in t.lines() {
        if let Some(c) = l.strip_prefix("//?") {
            on = c.trim().is_empty() || c.split('|').any(|n| text.contains(&format!(" {} ", n.trim())));
            if on && !c.trim().is_empty() {
                used.push(c.trim().to_string());
            }
        } else if on {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}
/// Free functions the source defines, and its text without comments and literals.
fn source_names(dir: &Path, out: &mut HashSet<String>, text: &mut String) {
    struct V<'a>(&'a mut HashSet<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_item_fn(&mut self, f: &'b ItemFn) {
            self.0.insert(f.sig.ident.to_string());
            syn::visit::visit_item_fn(self, f);
        }
    }
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            source_names(&p, out, text);
        } else if p.extension().map_or(false, |x| x == "rs") {
            if let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| crate::cfg::parse_file(&t).ok()) {
                let items: Vec<&Item> = f.items.iter().filter(|i| !matches!(i, Item::Mod(ItemMod { attrs, .. }) | Item::Fn(ItemFn { attrs, .. }) if is_test(attrs))).collect();
                for i in items {
                    syn::visit::Visit::visit_item(&mut V(out), i);
                    words(i.to_token_stream(), text);
                }
            }
        }
    }
}
/// Marks the names in `defs` that a `spec fn` or `proof fn` of `text` has too (as `!name`).
fn ghost_names(text: &str, defs: &mut HashSet<String>) {
    for l in text.lines() {
        for kw in ["spec fn ", "proof fn "] {
            if let Some(i) = l.find(kw) {
                let n: String = l[i + kw.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if defs.contains(&n) {
                    defs.insert(format!("!{}", n));
                }
            }
        }
    }
}
/// `name` where it is called or defined becomes `name_vx`.
fn rename_calls(t: &str, name: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(name) {
        let before = rest[..i].chars().last().or(out.chars().last());
        let after = rest[i + name.len()..].chars().next();
        let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
        out.push_str(&rest[..i + name.len()]);
        let line = &rest[..i];
        let fn_section = line.rsplit('\n').next().map_or(false, |l| l.starts_with("#fn"));
        if !word(before) && before != Some('.') && (matches!(after, Some('(') | Some('<')) || rest[i + name.len()..].starts_with("::")) && !fn_section {
            out.push_str("_vx");
        }
        rest = &rest[i + name.len()..];
    }
    out.push_str(rest);
    out
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut src, mut con, mut out, mut report, mut base, mut wbase) = (None, None, None, None, None, None);
    let mut ext = HashSet::new();
    let mut vacuity = false;
    let mut no_fit = HashSet::new();
    let mut drop_lines: HashMap<String, Vec<String>> = HashMap::new();
    let mut prop: Option<String> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next(),
            "--contracts" => con = args.next(),
            "--out" => out = args.next(),
            "--report" => report = args.next(),
            "--baseline" => base = args.next(),
            "--write-baseline" => wbase = args.next(),
            "--external" => {
                ext.insert(args.next().unwrap());
            }
            "--no-fit" => {
                no_fit.insert(args.next().unwrap());
            }
            "--drop" => {
                let (k, l) = (args.next().unwrap(), args.next().unwrap());
                let l: String = l.chars().filter(|c| !c.is_whitespace()).collect();
                drop_lines.entry(k).or_default().push(l.trim_end_matches(',').to_string());
            }
            "--vacuity" => vacuity = true,
            "--property" => prop = args.next(),
            o => panic!("unknown argument {}", o),
        }
    }
    let src = PathBuf::from(src.expect("--src"));
    let con = PathBuf::from(con.expect("--contracts"));
    if base.is_some() {
        shape::load(&std::fs::read_to_string(con.join("structs.tsv")).unwrap_or_default());
    }
    let mut files: Vec<(String, String)> = vec![];
    let mut names: Vec<PathBuf> = std::fs::read_dir(&con).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    let mut prelude = String::new();
    for n in names {
        let f = n.file_name().unwrap().to_string_lossy().to_string();
        let t = if n.is_file() { std::fs::read_to_string(&n).unwrap() } else { continue };
        if f.ends_with(".vc") {
            // lines ending in `//@C22,C23` belong to these properties only
            let t = t.lines().filter_map(|l| match l.rfind("//@") {
                Some(i) => match &prop {
                    Some(p) if !l[i + 3..].split(',').any(|x| x.trim() == p) => None,
                    _ => Some(l[..i].trim_end()),
                },
                None => Some(l),
            });
            files.push((f, t.collect::<Vec<_>>().join("\n") + "\n"));
        } else if f.ends_with(".rs") {
            prelude.push_str(&t);
        }
    }
    // a function of the source that has the name of a lemma: the lemma gets another one
    let mut defined = HashSet::new();
    let mut source_text = String::new();
    source_names(&src, &mut defined, &mut source_text);
    source_text.push(' ');
    let mut std_more = vec![];
    prelude = conditional(&prelude, &source_text, &mut std_more);
    for (name, text) in files.iter_mut().map(|(n, t)| (n.clone(), t)).chain(std::iter::once((String::new(), &mut prelude))) {
        let _ = name;
        ghost_names(text, &mut defined);
    }
    let clash: Vec<String> = defined.iter().filter(|n| n.starts_with("!")).map(|n| n[1..].to_string()).collect();
    for n in &clash {
        for (_, t) in files.iter_mut() {
            *t = rename_calls(t, n);
        }
        prelude = rename_calls(&prelude, n);
    }
    let c = contracts::parse(&files).unwrap_or_else(|e| {
        eprintln!("contract error: {}", e);
        std::process::exit(3);
    });
    let mut baseline = HashMap::new();
    if let Some(b) = &base {
        if let Ok(t) = std::fs::read_to_string(b) {
            for l in t.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() == 6 {
                    let sp = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
                    baseline.insert(
                        f[0].to_string(),
                        Base { params: sp(f[1]), locals: sp(f[2]), skeleton: f[3].into(), calls: sp(f[4]), text: f[5].into() },
                    );
                }
            }
        }
    }
    let mut cx = Cx {
        c,
        raws: vec![],
        reps: vec![],
        baseline,
        force_external: ext,
        traits: HashSet::new(),
        array_structs: HashSet::new(),
        arr_dims: HashMap::new(),
        iter_ref: HashMap::new(),
        used_fns: HashSet::new(),
        vacuity,
        no_fit,
        drop_lines,
    };
    let root = src.join("lib.rs");
    let text = std::fs::read_to_string(&root).unwrap();
    let parsed = crate::cfg::parse_file(&text).unwrap();
    cx.scan(&parsed.items, &src);
    let mut ts = proc_macro2::TokenStream::new();
    cx.items(parsed.items, "", &src, &root, &mut ts);
    let raws = std::mem::take(&mut cx.raws);
    let mut p = printer::Printer::new(&raws);
    p.raw("#![allow(unused_imports, unused_parens, unused_variables, unused_mut, unused_braces, dead_code, non_snake_case, unused_assignments, unreachable_code, redundant_semicolons)]\n#![feature(allocator_api)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus! {");
    p.raw(&prelude);
    p.stream(ts, true);
    p.raw("}\nfn main() {}\n");
    for (id, a, b) in p.ranges.clone() {
        cx.reps[id].out = (a, b);
    }
    std::fs::write(out.expect("--out"), &p.out).unwrap();
    // contracts that found no function
    let mut lost = vec![];
    let all = cx.c.impls.iter().flat_map(|i| i.fns.values().map(move |f| (i.header.clone(), f))).chain(
        cx.c.mods.iter().flat_map(|(m, mc)| mc.fns.values().map(move |f| (m.clone(), f))),
    );
    for (h, f) in all {
        if !cx.used_fns.contains(&format!("{}|{}", f.file, f.line)) {
            lost.push(format!("{} :: {}", h, f.name));
        }
    }
    lost.sort();
    let mut r = String::from("{\"functions\":[\n");
    for (i, f) in cx.reps.iter().enumerate() {
        if i > 0 {
            r.push_str(",\n");
        }
        r.push_str(&format!(
            "{{\"key\":{},\"module\":{},\"file\":{},\"line\":{},\"status\":{},\"skeleton\":{},\"base_skeleton\":{},\"calls\":{},\"base_calls\":{},\"out\":[{},{}],\"nloops\":{},\"contract\":{},\"changed\":{},\"distance\":{},\"in_baseline\":{},\"fitted\":{}}}",
            js(&f.key), js(&f.module), js(&f.file), f.line, js(&f.status), js(&f.skeleton), js(&f.base_skeleton), jl(&f.calls),
            f.base_calls.as_ref().map_or("null".into(), |c| jl(c)), f.out.0, f.out.1, f.nloops, js(&f.contract),
            f.base_text != f.text, {
                let d = distance(&f.text, &f.base_text);
                format!("[{},{}]", d.0, d.1)
            }, f.base_calls.is_some(), f.fitted
        ));
    }
    r.push_str("\n],\"lost_contracts\":");
    r.push_str(&jl(&lost));
    r.push_str(",\"std_more\":");
    r.push_str(&jl(&std_more));
    r.push_str("}\n");
    std::fs::write(report.expect("--report"), r).unwrap();
    if let Some(w) = wbase {
        let mut t = String::new();
        for f in &cx.reps {
            t.push_str(&format!("{}\t{}\t{}\t{}\t{}\t{}\n", f.key, f.params.join(","), f.locals.join(","), f.skeleton, f.calls.join(","), f.text));
        }
        std::fs::write(w, t).unwrap();
        let mut t = vec![];
        shape::tables(&src, "", &mut t);
        t.sort();
        t.dedup();
        std::fs::write(con.join("structs.tsv"), t.join("\n") + "\n").unwrap();
    }
}

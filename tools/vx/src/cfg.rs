//! Conditional compilation, for a release build of the library on this machine.
use quote::ToTokens;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn holds(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => p.is_ident("unix"),
        Meta::NameValue(n) => {
            let k = n.path.to_token_stream().to_string();
            let v = n.value.to_token_stream().to_string().replace('"', "");
            matches!(
                (k.as_str(), v.as_str()),
                ("target_os", "linux")
                    | ("target_family", "unix")
                    | ("target_arch", "x86_64")
                    | ("target_pointer_width", "64")
                    | ("target_endian", "little")
                    | ("target_env", "gnu")
                    | ("panic", "unwind")
            )
        }
        Meta::List(l) => {
            let a = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).unwrap_or_default();
            if l.path.is_ident("not") {
                !a.iter().any(holds)
            } else if l.path.is_ident("all") {
                a.iter().all(holds)
            } else {
                a.iter().any(holds)
            }
        }
    }
}
/// Whether an element with these attributes is compiled; its `cfg` attributes are removed.
fn keep(attrs: &mut Vec<Attribute>) -> bool {
    let mut yes = true;
    attrs.retain(|a| {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<Meta>() {
                yes &= holds(&m);
                return false;
            }
        }
        true
    });
    yes
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    Some(match i {
        Item::Const(x) => &mut x.attrs,
        Item::Enum(x) => &mut x.attrs,
        Item::ExternCrate(x) => &mut x.attrs,
        Item::Fn(x) => &mut x.attrs,
        Item::ForeignMod(x) => &mut x.attrs,
        Item::Impl(x) => &mut x.attrs,
        Item::Macro(x) => &mut x.attrs,
        Item::Mod(x) => &mut x.attrs,
        Item::Static(x) => &mut x.attrs,
        Item::Struct(x) => &mut x.attrs,
        Item::Trait(x) => &mut x.attrs,
        Item::TraitAlias(x) => &mut x.attrs,
        Item::Type(x) => &mut x.attrs,
        Item::Union(x) => &mut x.attrs,
        Item::Use(x) => &mut x.attrs,
        _ => return None,
    })
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    Some(match e {
        Expr::Assign(x) => &mut x.attrs,
        Expr::Binary(x) => &mut x.attrs,
        Expr::Block(x) => &mut x.attrs,
        Expr::Break(x) => &mut x.attrs,
        Expr::Call(x) => &mut x.attrs,
        Expr::Continue(x) => &mut x.attrs,
        Expr::ForLoop(x) => &mut x.attrs,
        Expr::If(x) => &mut x.attrs,
        Expr::Loop(x) => &mut x.attrs,
        Expr::Macro(x) => &mut x.attrs,
        Expr::Match(x) => &mut x.attrs,
        Expr::MethodCall(x) => &mut x.attrs,
        Expr::Return(x) => &mut x.attrs,
        Expr::Unsafe(x) => &mut x.attrs,
        Expr::While(x) => &mut x.attrs,
        _ => return None,
    })
}
fn items(v: &mut Vec<Item>) {
    v.retain_mut(|i| item_attrs(i).map_or(true, keep));
}

pub struct Cfg;
impl VisitMut for Cfg {
    fn visit_file_mut(&mut self, f: &mut File) {
        items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, v)) = &mut m.content {
            items(v);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain_mut(|i| match i {
            ImplItem::Fn(f) => keep(&mut f.attrs),
            ImplItem::Const(f) => keep(&mut f.attrs),
            ImplItem::Type(f) => keep(&mut f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_trait_mut(&mut self, m: &mut ItemTrait) {
        m.items.retain_mut(|i| match i {
            TraitItem::Fn(f) => keep(&mut f.attrs),
            TraitItem::Const(f) => keep(&mut f.attrs),
            TraitItem::Type(f) => keep(&mut f.attrs),
            _ => true,
        });
        visit_mut::visit_item_trait_mut(self, m);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain_mut(|a| keep(&mut a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain_mut(|s| match s {
            Stmt::Local(l) => keep(&mut l.attrs),
            Stmt::Item(i) => item_attrs(i).map_or(true, keep),
            Stmt::Expr(e, _) => expr_attrs(e).map_or(true, keep),
            Stmt::Macro(m) => keep(&mut m.attrs),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(p) = m.mac.parse_body::<Meta>() {
                    *e = if holds(&p) { parse_quote!(true) } else { parse_quote!(false) };
                }
            }
        }
    }
}
pub fn parse_file(t: &str) -> Result<File> {
    let mut f = syn::parse_file(t)?;
    Cfg.visit_file_mut(&mut f);
    crate::rules::expand(&mut f);
    Cfg.visit_file_mut(&mut f);
    crate::shape::restore(&mut f);
    Ok(f)
}

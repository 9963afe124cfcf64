//! Item index of a crate: functions, types and `use` declarations by module path.
use std::collections::BTreeMap;
use std::path::Path;
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub module: String,
    /// header of the enclosing impl or trait without its items
    pub owner: Option<Owner>,
    pub attrs: Vec<Attribute>,
    pub sig: Signature,
    pub block: Option<Block>,
    pub expanded: bool,
}
#[derive(Clone)]
pub enum Owner {
    Impl(ItemImpl),
    Trait(ItemTrait),
}
#[derive(Default)]
pub struct Krate {
    pub fns: BTreeMap<String, FnDef>,
    pub items: BTreeMap<String, Item>,
    pub uses: BTreeMap<String, Vec<(Vec<String>, String)>>, // module -> (path, alias); alias "*" is a glob
    pub modules: Vec<String>,
    pub macros: BTreeMap<String, proc_macro2::TokenStream>, // bitflags by module::Name
}

pub fn last_ident(p: &syn::Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
pub fn type_name(t: &Type) -> String {
    match t {
        // several external types are called `Error`: keep their module
        Type::Path(p) if last_ident(&p.path) == "Error" && p.path.segments.len() > 1 => format!("{}::Error", p.path.segments[p.path.segments.len() - 2].ident),
        Type::Path(p) => last_ident(&p.path),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        Type::Tuple(t) => format!("({})", t.elems.iter().map(type_name).collect::<Vec<_>>().join(",")),
        _ => "?".into(),
    }
}
/// cfg attribute that is off in the build under verification
fn disabled(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") { return false; }
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("test)") || s.contains("tchannel_verif") || s.contains("feature=\"thrift\"")
    })
}
fn join(m: &str, n: &str) -> String { if m.is_empty() { n.to_string() } else { format!("{}::{}", m, n) } }

impl Krate {
    pub fn load_source(root: &Path) -> Krate {
        let mut k = Krate::default();
        let text = std::fs::read_to_string(root.join("lib.rs")).expect("lib.rs");
        let file = parse_file(&text).expect("lib.rs does not parse");
        k.walk("", &file.items, Some((root, true)), false);
        k
    }
    pub fn load_expanded(path: &Path) -> Krate {
        let mut k = Krate::default();
        let text = std::fs::read_to_string(path).expect("expanded source");
        match parse_file(&text) {
            Ok(file) => k.walk("", &file.items, None, true),
            Err(e) => eprintln!("expanded source does not parse: {}", e),
        }
        k
    }
    fn walk(&mut self, m: &str, items: &[Item], dir: Option<(&Path, bool)>, expanded: bool) {
        self.modules.push(m.to_string());
        for it in items {
            match it {
                Item::Mod(md) => {
                    if disabled(&md.attrs) { continue; }
                    let name = md.ident.to_string();
                    let path = join(m, &name);
                    if let Some((_, its)) = &md.content {
                        self.walk(&path, its, None, expanded);
                    } else if let Some((d, _)) = dir {
                        let a = d.join(format!("{}.rs", name));
                        let b = d.join(&name).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        let text = match std::fs::read_to_string(&f) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", f.display(), e); continue; } };
                        let file = match parse_file(&text) { Ok(f) => f, Err(e) => { eprintln!("{}: {}", f.display(), e); continue; } };
                        self.walk(&path, &file.items, Some((&d.join(&name), false)), expanded);
                    }
                }
                Item::Const(c) if c.ident == "_" => {
                    if let Expr::Block(b) = &*c.expr { self.block_items(m, &b.block, expanded); }
                }
                Item::Const(c) => {
                    self.items.insert(join(m, &c.ident.to_string()), it.clone());
                    // num_derive and others wrap impls in a named constant
                    if let Expr::Block(b) = &*c.expr { self.block_items(m, &b.block, expanded); }
                }
                Item::Struct(s) if !disabled(&s.attrs) => { self.items.insert(join(m, &s.ident.to_string()), it.clone()); }
                Item::Enum(s) if !disabled(&s.attrs) => { self.items.insert(join(m, &s.ident.to_string()), it.clone()); }
                Item::Type(s) if !disabled(&s.attrs) => { self.items.insert(join(m, &s.ident.to_string()), it.clone()); }
                Item::Static(s) if !disabled(&s.attrs) => { self.items.insert(join(m, &s.ident.to_string()), it.clone()); }
                Item::Use(u) if !disabled(&u.attrs) => {
                    let mut v = vec![];
                    use_leaves(&u.tree, &mut vec![], &mut v);
                    self.uses.entry(m.to_string()).or_default().extend(v);
                }
                Item::Fn(f) if !disabled(&f.attrs) => {
                    self.fns.insert(join(m, &f.sig.ident.to_string()), FnDef { module: m.into(), owner: None, attrs: f.attrs.clone(), sig: f.sig.clone(), block: Some((*f.block).clone()), expanded });
                }
                Item::Trait(t) if !disabled(&t.attrs) => {
                    self.items.insert(join(m, &t.ident.to_string()), it.clone());
                    for ti in &t.items {
                        if let TraitItem::Fn(f) = ti {
                            let key = format!("{}::{}", join(m, &t.ident.to_string()), f.sig.ident);
                            self.fns.insert(key, FnDef { module: m.into(), owner: Some(Owner::Trait(t.clone())), attrs: f.attrs.clone(), sig: f.sig.clone(), block: f.default.clone(), expanded });
                        }
                    }
                }
                Item::Impl(i) if !disabled(&i.attrs) => self.add_impl(m, i, expanded),
                Item::Macro(mc) if last_ident(&mc.mac.path) == "bitflags" => {
                    let s = mc.mac.tokens.clone();
                    let mut name = String::new();
                    let mut prev = String::new();
                    for t in s.clone() { let x = t.to_string(); if prev == "struct" { name = x.clone(); } prev = x; }
                    self.macros.insert(join(m, &name), s);
                }
                _ => {}
            }
        }
    }
    fn block_items(&mut self, m: &str, b: &Block, expanded: bool) {
        for s in &b.stmts {
            match s {
                Stmt::Item(Item::Impl(i)) => self.add_impl(m, i, expanded),
                Stmt::Item(Item::Const(c)) => if let Expr::Block(b) = &*c.expr { self.block_items(m, &b.block, expanded) },
                Stmt::Item(Item::Use(_)) => {}
                _ => {}
            }
        }
    }
    fn add_impl(&mut self, m: &str, i: &ItemImpl, expanded: bool) {
        let ty = type_name(&i.self_ty);
        let head = match &i.trait_ {
            Some((_, p, _)) => {
                let seg = p.segments.last().unwrap();
                let mut name = seg.ident.to_string();
                // keep the argument of From/TryFrom/TryInto/PartialEq, there can be several impls
                if matches!(name.as_str(), "From" | "TryFrom" | "TryInto") {
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() { name = format!("{}<{}>", name, type_name(t)); }
                    }
                }
                format!("<{} as {}>", ty, name)
            }
            None => ty,
        };
        let mut owner = i.clone();
        owner.items.retain(|x| matches!(x, ImplItem::Type(_)));
        for it in &i.items {
            match it {
                ImplItem::Fn(f) if !disabled(&f.attrs) => {
                    let key = format!("{}::{}", join(m, &head), f.sig.ident);
                    self.fns.insert(key, FnDef { module: m.into(), owner: Some(Owner::Impl(owner.clone())), attrs: f.attrs.clone(), sig: f.sig.clone(), block: Some(f.block.clone()), expanded });
                }
                _ => {}
            }
        }
    }
}
fn use_leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => { pre.push(p.ident.to_string()); use_leaves(&p.tree, pre, out); pre.pop(); }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" { let a = pre.last().cloned().unwrap_or_default(); out.push((pre.clone(), a)); }
            else { let mut p = pre.clone(); p.push(s.clone()); out.push((p, s)); }
        }
        UseTree::Rename(r) => { let mut p = pre.clone(); p.push(r.ident.to_string()); out.push((p, r.rename.to_string())); }
        UseTree::Glob(_) => out.push((pre.clone(), "*".into())),
        UseTree::Group(g) => for x in &g.items { use_leaves(x, pre, out) },
    }
}

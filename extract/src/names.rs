//! Names of parameters and locals. Contracts refer to a function's parameters and locals by the names they had
//! when the contract was written (`names.txt`); a function in which they are renamed is given the old names back.
use crate::contracts::{Contracts, FnC};
use crate::load::{FnDef, Krate};
use proc_macro2::{Group, Ident, Literal, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Names = BTreeMap<String, (Vec<String>, Vec<String>)>;

struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        visit::visit_pat_ident(self, p);
        let n = p.ident.to_string();
        if !n.starts_with(char::is_uppercase) { self.0.push(n); }
    }
}
/// parameters and locals, in the order of their occurrence
fn of(d: &FnDef) -> (Vec<String>, Vec<String>) {
    let (mut p, mut b) = (Binders(vec![]), Binders(vec![]));
    for a in &d.sig.inputs { if let FnArg::Typed(t) = a { p.visit_pat(&t.pat); } }
    if let Some(x) = &d.block { b.visit_block(x); }
    (p.0, b.0)
}

pub fn write(path: &str, src: &Krate, exp: &Krate, cs: &Contracts) {
    let mut t = String::new();
    for p in cs.fns.keys() {
        if let Some(d) = src.fns.get(p).or_else(|| exp.fns.get(p)) {
            let (a, b) = of(d);
            t.push_str(&format!("{}\t{}\t{}\n", p, a.join(" "), b.join(" ")));
        }
    }
    std::fs::write(path, t).unwrap();
}
pub fn read(path: &std::path::Path) -> Names {
    let mut n = Names::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let c: Vec<&str> = l.split('\t').collect();
        let w = |i: usize| c.get(i).map(|x| x.split_whitespace().map(String::from).collect()).unwrap_or_default();
        n.insert(c[0].to_string(), (w(1), w(2)));
    }
    n
}

/// every identifier of the function that is not the name of a field, method or path
struct Used(BTreeSet<String>);
impl Used {
    fn tokens(&mut self, t: TokenStream) {
        for x in t {
            match x {
                TokenTree::Ident(i) => { self.0.insert(i.to_string()); }
                TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}
impl<'a> Visit<'a> for Used {
    fn visit_path(&mut self, p: &'a Path) { visit::visit_path(self, p); if let Some(i) = p.get_ident() { self.0.insert(i.to_string()); } }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { visit::visit_pat_ident(self, p); self.0.insert(p.ident.to_string()); }
    fn visit_macro(&mut self, m: &'a Macro) { visit::visit_macro(self, m); self.tokens(m.tokens.clone()); }
}

struct Rename<'m>(&'m BTreeMap<String, String>);
impl<'m> Rename<'m> {
    fn ident(&self, i: &mut Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = Ident::new(n, i.span()); } }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut after_dot = false;
        t.into_iter().map(|x| {
            let dot = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
            let r = match x {
                TokenTree::Ident(mut i) => { if !after_dot { self.ident(&mut i); } TokenTree::Ident(i) }
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                TokenTree::Literal(l) => TokenTree::Literal(self.literal(l)),
                x => x,
            };
            after_dot = dot;
            r
        }).collect()
    }
    /// names inside of format strings
    fn literal(&self, l: Literal) -> Literal {
        let s = l.to_string();
        if !s.starts_with('"') || !s.contains('{') { return l; }
        let mut t = s.clone();
        for (a, b) in self.0 { for e in ['}', ':'] { t = t.replace(&format!("{{{}{}", a, e), &format!("{{{}{}", b, e)); } }
        if t == s { l } else { parse_str::<LitStr>(&t).map(|x| x.token()).unwrap_or(l) }
    }
}
impl<'m> VisitMut for Rename<'m> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_none() && p.segments.len() == 1 && p.segments[0].arguments.is_none() { self.ident(&mut p.segments[0].ident); }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { visit_mut::visit_pat_ident_mut(self, p); self.ident(&mut p.ident); }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_expr_mut(self, &mut f.expr);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_pat_mut(self, &mut f.pat);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(m.tokens.clone()); }
    fn visit_type_mut(&mut self, _: &mut Type) {}
}

fn mentions(f: &FnC, name: &str) -> bool {
    let word = |t: &str| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == name);
    word(&f.spec) || f.args.contains_key(name) || f.loops.values().any(|t| word(t)) || f.closures.values().any(|t| word(t)) || f.hints.values().any(|t| word(t))
}
fn unique(v: &[String], but: &BTreeSet<&String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for x in v { if !but.contains(x) && !o.contains(x) { o.push(x.clone()); } }
    o
}

/// Gives a function the names of its contract back. True when locals were renamed: their order is the only
/// evidence of which is which.
pub fn restore(f: &FnC, d: &mut FnDef, names: &Names) -> bool {
    let Some((old_p, old_b)) = names.get(&f.path) else { return false };
    let (p, b) = of(d);
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    if p.len() == old_p.len() && p != *old_p {
        let (had, have): (BTreeSet<&String>, BTreeSet<&String>) = (old_p.iter().collect(), p.iter().collect());
        for (n, o) in p.iter().zip(old_p) { if n != o && mentions(f, o) && !had.contains(n) && !have.contains(o) { map.insert(n.clone(), o.clone()); } }
    }
    let mut locals = false;
    let had: BTreeSet<&String> = old_b.iter().chain(old_p).collect();
    let have: BTreeSet<&String> = b.iter().chain(&p).collect();
    let (gone, fresh) = (unique(old_b, &have), unique(&b, &had));
    if gone.len() == fresh.len() && gone.iter().any(|g| mentions(f, g)) {
        for (n, o) in fresh.iter().zip(&gone) { map.entry(n.clone()).or_insert_with(|| { locals = true; o.clone() }); }
    }
    if map.is_empty() { return false; }
    // a name that is in use for something else would be captured
    let mut used = Used(BTreeSet::new());
    for a in &d.sig.inputs { used.visit_fn_arg(a); }
    if let Some(x) = &d.block { used.visit_block(x); }
    map.retain(|_, t| !used.0.contains(t));
    if map.values().collect::<BTreeSet<_>>().len() != map.len() || map.is_empty() { return false; }
    let mut r = Rename(&map);
    for a in d.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { r.visit_pat_mut(&mut t.pat); } }
    if let Some(x) = d.block.as_mut() { r.visit_block_mut(x); }
    locals
}

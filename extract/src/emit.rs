//! Emission of the Verus file: modules, items, impl blocks, functions and their contracts.
use crate::contracts::{Contracts, FnC};
use crate::load::*;
use crate::rewrite::{called, shape, rewrite_path, rewrite_type, Rw};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Opts {
    /// functions whose locals got their old names back
    pub renamed: BTreeSet<String>,
    pub verify: BTreeSet<String>,
    pub props: BTreeSet<String>,
    pub skip_body: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    /// put `assert(false)` at the start of every verified body: each must then fail (vacuity check)
    pub reach: bool,
}
pub struct Out {
    pub text: String,
    pub index: String,
}
struct Done {
    path: String,
    verified: bool,
    loops: usize,
    loops_expected: usize,
    closures: usize,
    closures_expected: usize,
    calls: Vec<String>,
    shape: (Vec<String>, usize, usize),
    trusted: bool,
    start: usize,
    end: usize,
    expanded: bool,
    async_: bool,
    props: Vec<String>,
}

fn parent(p: &str) -> String { p.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => {} c => o.push(c) } }
    o.push('"');
    o
}

/// strips attributes and makes fields public
struct Clean<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Clean<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    fn visit_path_mut(&mut self, p: &mut syn::Path) { syn::visit_mut::visit_path_mut(self, p); rewrite_path(p, self.0); }
    fn visit_type_mut(&mut self, t: &mut Type) { syn::visit_mut::visit_type_mut(self, t); rewrite_type(t); }
}

/// A bitflags! declaration as the struct and functions of that macro that the crate uses.
fn bitflags(ts: &proc_macro2::TokenStream) -> String {
    let toks: Vec<String> = ts.clone().into_iter().map(|t| t.to_string()).collect();
    let i = toks.iter().position(|t| t == "struct").unwrap();
    let name = toks[i + 1].clone();
    let ty = toks[i + 3].clone();
    let body = toks[i + 4].clone();
    let mut consts = vec![];
    for part in body.trim_start_matches('{').trim_end_matches('}').split(';') {
        let p = part.trim();
        if let Some(j) = p.find("const ") {
            let (n, v) = p[j + 6..].split_once('=').unwrap();
            let v = v.trim(); let v = if v.chars().all(|c| c.is_ascii_hexdigit() || c == 'x' || c == 'b' || c == '_') { format!("{}{}", v, if v.starts_with("0x") { format!("_{}", ty) } else { ty.clone() }) } else { v.to_string() }; consts.push((n.trim().to_string(), v));
        }
    }
    let all = consts.iter().map(|c| c.1.clone()).collect::<Vec<_>>().join(" | ");
    let cs = consts.iter().map(|(n, v)| format!("    pub const {n}: {name} = {name} {{ bits: {v} }};\n")).collect::<String>();
    format!("#[derive(Clone, Copy)]\npub struct {name} {{ pub bits: {ty} }}\nimpl {name} {{\n{cs}\
    pub open spec fn all() -> {ty} {{ {all} }}\n\
    pub fn bits(&self) -> (r: {ty}) ensures r == self.bits {{ self.bits }}\n\
    pub fn from_bits(bits: {ty}) -> (r: Option<{name}>) ensures r == (if bits & !Self::all() == 0 {{ Some({name} {{ bits }}) }} else {{ None }}) {{ if bits & !({all}) == 0 {{ Some({name} {{ bits }}) }} else {{ None }} }}\n\
    pub fn contains(&self, other: {name}) -> (r: bool) ensures r == (self.bits & other.bits == other.bits) {{ self.bits & other.bits == other.bits }}\n\
    pub fn empty() -> (r: {name}) ensures r == ({name} {{ bits: 0 }}) {{ {name} {{ bits: 0 }} }}\n\
    }}\nimpl Default for {name} {{ fn default() -> (r: {name}) ensures r == ({name} {{ bits: 0 }}) {{ {name} {{ bits: 0 }} }} }}\n")
}

pub fn emit(src: &Krate, exp: &Krate, cs: &Contracts, o: &Opts) -> Out {
    let mut lost: Vec<String> = vec![];
    // --- what exists
    let mut fns: Vec<(&FnC, FnDef)> = vec![];
    let mut list: Vec<&FnC> = cs.fns.values().collect();
    list.sort_by_key(|f| f.order);
    for f in list {
        if o.drop.contains(&f.path) { continue; }
        // nothing calls these: they are left out unless they are verified
        if f.flags.contains("leaf") && (!wanted(f, o) || o.skip_body.contains(&f.path)) { continue; }
        match src.fns.get(&f.path).or_else(|| exp.fns.get(&f.path)) {
            Some(d) => fns.push((f, d.clone())),
            None => if !f.flags.contains("optional") { lost.push(f.path.clone()) },
        }
    }
    let mut items: BTreeMap<String, (Item, String, String)> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    for (p, attrs, text) in &cs.items {
        if o.drop.contains(p) { continue; }
        match src.items.get(p) {
            Some(i) => {
                let mut attrs = attrs.clone();
                let mut text = text.clone();
                if attrs.contains("+eq") {
                    // derived equality is structural; a hand written one is not covered by this contract
                    attrs = attrs.replace("+eq", "");
                    let name = p.rsplit("::").next().unwrap();
                    let key = format!("{}::<{} as PartialEq>::eq", parent(p), name);
                    if src.fns.contains_key(&key) || !exp.fns.contains_key(&key) { lost.push(key); }
                    text.push_str(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> (r: bool) ensures r == (*self == *o) {{ unimplemented!() }} }}\n"));
                }
                items.insert(p.clone(), (i.clone(), attrs, text)); order.push(p.clone());
            }
            None => {
                if let Some(t) = src.macros.get(p) {
                    let it: Item = parse_quote!(const VP: u8 = 0;);
                    items.insert(p.clone(), (it, format!("BITFLAGS{}", bitflags(t)), text.clone()));
                    order.push(p.clone());
                } else { lost.push(p.clone()); }
            }
        }
    }
    let emitted: BTreeSet<String> = items.keys().cloned().chain(fns.iter().filter(|(_, d)| d.owner.is_none()).map(|(f, _)| f.path.clone())).chain(cs.modules.keys().cloned()).collect();
    // names defined by the text of a module (stand-ins)
    let mut emitted = emitted;
    let mut textual: BTreeSet<String> = BTreeSet::new();
    for (m, t) in &cs.modules {
        for l in t.lines() {
            let w: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
            if l.trim_start().starts_with("pub ") && w.len() > 2 && matches!(w[1], "type" | "struct" | "trait" | "enum" | "fn") { textual.insert(format!("{}::{}", m, w[2])); }
        }
    }
    emitted.extend(textual.iter().filter(|t| src.items.contains_key(*t) || src.fns.contains_key(*t)).cloned());
    let emitted = emitted;
    let mut mods: BTreeSet<String> = BTreeSet::new();
    for p in emitted.iter().filter(|p| !cs.modules.contains_key(*p)).map(|p| parent(p)).chain(fns.iter().map(|(_, d)| d.module.clone())).chain(cs.modules.keys().cloned()) {
        let mut m = p;
        loop { mods.insert(m.clone()); if m.is_empty() { break; } m = parent(&m); }
    }
    // names contracted, to tell calls of functions without a contract
    let known: BTreeSet<String> = fns.iter().map(|(f, _)| f.path.rsplit("::").next().unwrap().to_string()).collect();
    let crate_fns: BTreeSet<String> = src.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();

    let mut done: BTreeMap<String, Done> = BTreeMap::new();
    let mut ordered: Vec<String> = vec![];
    let mut bf: BTreeMap<String, String> = BTreeMap::new();
    let code = module("", &mods, src, cs, o, &fns, &items, &order, &emitted, &known, &crate_fns, &mut done, &mut ordered, &mut bf);
    // --- format
    let mut formatted = rustfmt(&code);
    for n in ["vp_ret", "vp_closure", "vp_some", "vp_ctor", "vp_hint", "vp_loop"] {
        for a in [" ! (", "! (", " !("] { formatted = formatted.replace(&format!("{}{}", n, a), &format!("{}!(", n)); }
    }
    // --- splice
    let mut out: Vec<String> = vec![];
    out.push("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_assignments)]".into());
    out.push("use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;".into());
    let mut cur: Option<String> = None;
    let mut depth_at: usize = 0;
    let lines: Vec<&str> = formatted.lines().collect();
    let mut i = 0;
    let mut lineno = |out: &Vec<String>| out.iter().map(|s| s.matches('\n').count() + 1).sum::<usize>();
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        let indent = l.len() - l.trim_start().len();
        if let Some(r) = t.strip_prefix("vp_fn!(") {
            let path = unq(r);
            let f = cs.fns.get(&path);
            let d = done.get_mut(&path).unwrap();
            // open brace is at the end of the previous line
            let open = out.pop().unwrap();
            let open = open.trim_end().strip_suffix('{').expect("brace before vp_fn").trim_end().to_string();
            // start of the signature: walk back to the line holding `fn `
            if !open.is_empty() { out.push(open); }
            let mut s = out.len();
            while s > 0 && !(out[s - 1].contains("fn ")) { s -= 1; }
            d.start = lineno(&out[..s.saturating_sub(1)].to_vec()) + 1;
            if let Some(f) = f {
                let spec = f.spec.trim_end();
                if !spec.is_empty() { out.push(spec.to_string()); }
            }
            out.push("{".into());
            cur = Some(path);
            depth_at = indent;
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("vp_auto!(") {
            // postcondition `r == tail expression`
            let e = unq(r);
            let open = out.pop().unwrap();
            assert!(open == "{");
            out.push(format!("    ensures r == ({}),", e));
            out.push("{".into());
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("vp_sigend!(") {
            // trait function without a body: the contract goes before the semicolon
            let path = unq(r);
            let prev = out.pop().unwrap();
            let prev = prev.trim_end().strip_suffix(';').unwrap_or(&prev).to_string();
            out.push(prev);
            if let Some(f) = cs.fns.get(&path) { let s = f.spec.trim_end(); if !s.is_empty() { out.push(s.to_string()); } }
            out.push(";".into());
            i += 1;
            continue;
        }
        if t.starts_with("vp_loop!(") {
            let n: usize = t["vp_loop!(".len()..].split(')').next().unwrap().trim().parse().unwrap();
            let open = out.pop().unwrap();
            let open = open.trim_end().strip_suffix('{').expect("brace before vp_loop").trim_end().to_string();
            out.push(open);
            if let Some(inv) = cur.as_ref().and_then(|p| cs.fns.get(p)).and_then(|f| f.loops.get(&n)) { out.push(inv.trim_end().to_string()); }
            out.push("{".into());
            i += 1;
            continue;
        }
        if t.starts_with("vp_hint!(") {
            let mut full = t.to_string();
            while !full.contains(")") { i += 1; full.push_str(lines[i].trim()); }
            let a: Vec<String> = full["vp_hint!(".len()..].split(')').next().unwrap().split(',').map(|x| x.trim().to_string()).collect();
            match a[0].as_str() {
                "tasknew" => { out.push("let tracked mut vp_task = crate::shim::World::vp_fresh();".into()); i += 1; continue; }
                "taskstart" => { out.push("let tracked vp_w = &mut vp_task;".into()); i += 1; continue; }
                "taskend" => { out.push("let vp_th = crate::shim::vp_spawned(Tracked(vp_w), Tracked(vp_task), _vp_t);".into()); i += 1; continue; }
                _ => {}
            }
            let name = if a[1] == "_none" { String::new() } else { a[1].clone() };
            if let Some(h) = cur.as_ref().and_then(|p| cs.fns.get(p)).and_then(|f| f.hints.get(&(a[0].clone(), name, a[2].parse().unwrap()))) { out.push(h.trim_end().to_string()); }
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("vp_module!(") {
            let m = unq(r);
            if let Some(t) = cs.modules.get(&m) { out.push(t.trim_end().to_string()); }
            if let Some(t) = bf.get(&m) { out.push(t.clone()); }
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("vp_impl!(") {
            let m = unq(r);
            if let Some(t) = cs.impls.get(&m) { out.push(t.trim_end().to_string()); }
            i += 1;
            continue;
        }
        if let Some(r) = t.strip_prefix("vp_item!(") {
            let m = unq(r);
            if let Some((_, _, t)) = items.get(&m) { if !t.trim().is_empty() { out.push(t.trim_end().to_string()); } }
            i += 1;
            continue;
        }
        out.push(l.to_string());
        if cur.is_some() && t == "}" && indent + 4 == depth_at {
            let p = cur.take().unwrap();
            done.get_mut(&p).unwrap().end = lineno(&out);
        }
        i += 1;
    }
    out.push("} // verus!\nfn main() {}".into());
    let mut text = out.join("\n");
    // named return values, closure headers
    text = replace_macro(&text, "vp_ret!(", &|_, inner| {
        let (n, t) = inner.split_once("=>").unwrap();
        format!("({}: {})", n.trim(), t.trim())
    });
    // constructors as functions
    text = replace_macro(&text, "vp_ctor!(", &|_, inner| {
        let f = inner.trim().trim_matches('"');
        let squeezed: String = f.chars().filter(|c| !c.is_whitespace()).collect();
        let (owner, last) = squeezed.rsplit_once("::").unwrap_or(("", &squeezed));
        let ty = match last { "Some" => "Option<_>", "Ok" | "Err" => "Result<_, _>", _ if owner.rsplit("::").next().unwrap_or("").starts_with(char::is_uppercase) => owner, _ => "_" };
        format!("|vp_x| -> (vp_r: {ty}) ensures vp_r == {f}(vp_x) {{ {f}(vp_x) }}")
    });
    // closures are looked up per function by line region
    while text.contains("vp_closure!(") {
    let mut res = String::new();
    let mut pos = 0;
    while let Some(k) = text[pos..].find("vp_closure!(") {
        let at = pos + k;
        res.push_str(&text[pos..at]);
        let line = text[..at].matches('\n').count() + 1;
        let f = done.values().find(|d| d.start <= line && line <= d.end).map(|d| d.path.clone());
        let open = at + "vp_closure!(".len();
        let close = matching(&text, open);
        let inner = &text[open..close];
        let (n, body) = inner.split_once(',').unwrap();
        let head = f.as_ref().and_then(|p| cs.fns.get(p)).and_then(|f| f.closures.get(&n.trim().parse().unwrap())).map(|s| s.trim().replace('\n', " ")).unwrap_or_else(|| "|vp_lost|".into());
        let body = body.trim().trim_end_matches(',').to_string();
        let nl = inner.matches('\n').count();
        let new = format!("{} {{ {} }}", head, body);
        let have = new.matches('\n').count();
        res.push_str(&new);
        for _ in have..nl { res.push('\n'); }
        pos = close + 1;
    }
    res.push_str(&text[pos..]);
    text = res;
    }
    text = text.replace("vp_some!()", "|vp_x| -> (vp_r: Option<_>) ensures vp_r == Some(vp_x) { Some(vp_x) }");

    // --- index
    let mut ix = String::from("{\"functions\":[\n");
    let mut first = true;
    for p in &ordered {
        let d = &done[p];
        if !first { ix.push_str(",\n"); }
        first = false;
        let arr = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        ix.push_str(&format!("{{\"path\":{},\"verified\":{},\"start\":{},\"end\":{},\"loops\":{},\"loops_expected\":{},\"closures\":{},\"closures_expected\":{},\"uncontracted_calls\":{},\"derived\":{},\"async\":{},\"props\":{},\"trusted\":{},\"src_calls\":{},\"src_loops\":{},\"src_closures\":{},\"renamed\":{}}}", js(&d.path), d.verified, d.start, d.end, d.loops, d.loops_expected, d.closures, d.closures_expected, arr(&d.calls), d.expanded, d.async_, arr(&d.props), d.trusted, arr(&d.shape.0), d.shape.1, d.shape.2, o.renamed.contains(&d.path)));
    }
    ix.push_str("\n],\"lost\":[");
    ix.push_str(&lost.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    ix.push_str("]}\n");
    Out { text, index: ix }
}

fn unq(r: &str) -> String {
    // `"..." ) ;` -> content of the string literal
    let a = r.find('"').unwrap();
    let b = r.rfind('"').unwrap();
    let s: LitStr = parse_str(&r[a..=b]).unwrap();
    s.value()
}
fn matching(t: &str, open: usize) -> usize {
    let b = t.as_bytes();
    let mut d = 1;
    let mut i = open;
    let mut in_str = false;
    while i < b.len() {
        match b[i] {
            b'\\' if in_str => i += 1,
            b'"' => in_str = !in_str,
            b'(' if !in_str => d += 1,
            b')' if !in_str => { d -= 1; if d == 0 { return i; } }
            _ => {}
        }
        i += 1;
    }
    panic!("unbalanced");
}
fn replace_macro(t: &str, m: &str, f: &dyn Fn(usize, &str) -> String) -> String {
    let mut res = String::new();
    let mut pos = 0;
    while let Some(k) = t[pos..].find(m) {
        let at = pos + k;
        res.push_str(&t[pos..at]);
        let open = at + m.len();
        let close = matching(t, open);
        res.push_str(&f(at, &t[open..close]));
        pos = close + 1;
    }
    res.push_str(&t[pos..]);
    res
}
fn rustfmt(code: &str) -> String {
    let mut c = std::process::Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=160,use_small_heuristics=Default"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().expect("rustfmt");
    let mut stdin = c.stdin.take().unwrap();
    let code2 = code.to_string();
    let th = std::thread::spawn(move || { let _ = stdin.write_all(code2.as_bytes()); });
    let o = c.wait_with_output().unwrap();
    th.join().unwrap();
    if !o.status.success() { 
        // name the function whose text is not Rust, so that a rerun can leave its body out
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let line = err.split("<stdin>:").nth(1).and_then(|r| r.split(':').next()).and_then(|n| n.trim().parse::<usize>().ok()).unwrap_or(0);
        let before: String = code.lines().take(line).collect::<Vec<_>>().join("\n");
        if let Some(k) = before.rfind("vp_fn!(\"") {
            eprintln!("BODY {}", before[k + 8..].split('"').next().unwrap_or(""));
        }
        eprintln!("{err}\nrustfmt failed");
        std::process::exit(2);
    }
    String::from_utf8(o.stdout).unwrap()
}

#[allow(clippy::too_many_arguments)]
fn module(m: &str, mods: &BTreeSet<String>, src: &Krate, cs: &Contracts, o: &Opts, fns: &[(&FnC, FnDef)], items: &BTreeMap<String, (Item, String, String)>, order: &[String], emitted: &BTreeSet<String>, known: &BTreeSet<String>, crate_fns: &BTreeSet<String>, done: &mut BTreeMap<String, Done>, ordered: &mut Vec<String>, bf: &mut BTreeMap<String, String>) -> String {
    let mut s = String::new();
    if !m.is_empty() && m != "shim" && m != "spec" {
        s.push_str("use vstd::prelude::*; use vstd::utf8::*; use crate::shim::prelude::*; use crate::spec::*;\n");
        for (path, alias) in src.uses.get(m).cloned().unwrap_or_default() {
            let mut p = path.clone();
            let mut base: Vec<String> = m.split("::").map(|x| x.to_string()).collect();
            let internal = match p.first().map(|x| x.as_str()) {
                Some("crate") => { p.remove(0); true }
                Some("self") => { p.remove(0); p = [base.clone(), p].concat(); true }
                Some("super") => { while p.first().map(|x| x == "super").unwrap_or(false) { p.remove(0); base.pop(); } p = [base, p].concat(); true }
                _ => false,
            };
            let full = p.join("::");
            if alias == "*" {
                if internal && mods.contains(&full) { s.push_str(&format!("use crate::{}::*;\n", full)); }
                continue;
            }
            if internal || mods.contains(&full) {
                // re-exports: find the item by its last name when the path is not the defining one
                let mut target = full.clone();
                if !emitted.contains(&target) && !emitted.contains(&parent(&target)) && !mods.contains(&target) {
                    let name = p.last().cloned().unwrap_or_default();
                    if let Some(t) = emitted.iter().find(|e| e.rsplit("::").next() == Some(&name)) { target = t.clone(); }
                }
                if emitted.contains(&target) || (items.contains_key(&parent(&target))) || mods.contains(&target) {
                    s.push_str(&format!("use crate::{} as {};\n", target, alias));
                }
            } else if let Some(t) = cs.uses.get(&full) {
                s.push_str(&format!("use {} as {};\n", t, alias));
            }
        }
        // modules nested in the file see the imports of their parent by `use super::*`
    } else if m == "spec" {
        s.push_str("use vstd::prelude::*; use crate::shim::prelude::*;\n");
    }
    for p in order.iter().filter(|p| parent(p) == m) {
        let (it, attrs, _) = &items[p];
        if let Some(t) = attrs.strip_prefix("BITFLAGS") { bf.entry(m.to_string()).or_default().push_str(t); continue; }
        s.push_str(&item(p, it, attrs, cs, o, fns, known, crate_fns, done, ordered));
        s.push_str(&format!("vp_item!({});\n", lit(p)));
    }
    // free functions
    for (c, d) in fns.iter().filter(|(_, d)| d.module == m && d.owner.is_none()) {
        s.push_str(&func(c, d, cs, o, true, known, crate_fns, done, ordered));
    }
    // impl blocks
    let mut blocks: Vec<(String, Vec<usize>)> = vec![];
    for (i, (c, d)) in fns.iter().enumerate().filter(|(_, (_, d))| d.module == m) {
        if let Some(Owner::Impl(im)) = &d.owner {
            let key = if apart(c) { format!("apart {}", c.path) } else { im.to_token_stream().to_string() };
            match blocks.iter_mut().find(|b| b.0 == key) { Some(b) => b.1.push(i), None => blocks.push((key, vec![i])) }
        }
    }
    for (_, ix) in blocks {
        let (c, d) = &fns[ix[0]];
        if let Some(Owner::Impl(im)) = &d.owner {
            let mut im = im.clone();
            Clean(&cs.uses).visit_item_impl_mut(&mut im);
            let (g, _, w) = im.generics.split_for_impl();
            let ty = &im.self_ty;
            let inherent = apart(c) || im.trait_.is_none();
            let head = if inherent { quote!(impl #g #ty #w) } else { let t = &im.trait_.as_ref().unwrap().1; quote!(impl #g #t for #ty #w) };
            s.push_str(&format!("{} {{\n", head));
            if !inherent { for it in &im.items { s.push_str(&format!("{}\n", it.to_token_stream())); } }
            let owner_path = c.path.rsplit_once("::").unwrap().0.to_string();
            s.push_str(&format!("vp_impl!({});\n", lit(&owner_path)));
            for i in &ix { let (c, d) = &fns[*i]; s.push_str(&func(c, d, cs, o, inherent, known, crate_fns, done, ordered)); }
            s.push_str("}\n");
        }
    }
    let subs: Vec<&String> = mods.iter().filter(|x| !x.is_empty() && parent(x) == m && *x != m).collect();
    for x in subs {
        let name = x.rsplit("::").next().unwrap();
        // an inline module written `mod x { use super::*; }` gets the parent's imports
        s.push_str(&format!("pub mod {} {{\n{}}}\n", name, module(x, mods, src, cs, o, fns, items, order, emitted, known, crate_fns, done, ordered, bf)));
    }
    s.push_str(&format!("vp_module!({});\n", lit(m)));
    s
}
/// emitted as an inherent function although it implements a trait
fn apart(c: &FnC) -> bool { c.flags.contains("display") || c.flags.iter().any(|f| f.starts_with("inherent=")) }
fn lit(s: &str) -> String { proc_macro2::Literal::string(s).to_string() }

#[allow(clippy::too_many_arguments)]
fn item(path: &str, it: &Item, attrs: &str, cs: &Contracts, o: &Opts, fns: &[(&FnC, FnDef)], known: &BTreeSet<String>, crate_fns: &BTreeSet<String>, done: &mut BTreeMap<String, Done>, ordered: &mut Vec<String>) -> String {
    let mut it = it.clone();
    let public: Visibility = parse_quote!(pub);
    match &mut it {
        Item::Struct(x) => { x.vis = public.clone(); for f in x.fields.iter_mut() { f.vis = public.clone(); } }
        Item::Enum(x) => x.vis = public,
        Item::Type(x) => x.vis = public,
        Item::Const(x) => x.vis = public,
        Item::Static(x) => x.vis = public,
        Item::Trait(x) => x.vis = public,
        _ => {}
    }
    if let Item::Trait(t) = &it {
        let mut t = t.clone();
        let its = std::mem::take(&mut t.items);
        Clean(&cs.uses).visit_item_trait_mut(&mut t);
        let (g, _, w) = t.generics.split_for_impl();
        let id = &t.ident;
        let mut sup: Vec<String> = t.supertraits.iter().map(|s| s.to_token_stream().to_string()).collect();
        sup.retain(|s| !matches!(s.as_str(), "Debug" | "Send" | "Sync") && !s.starts_with("TryFrom") && !s.starts_with("TryInto"));
        let sup = if sup.is_empty() { String::new() } else { format!(": {}", sup.join(" + ")) };
        let mut s = format!("{} pub trait {} {} {} {} {{\n", attrs, id, g.to_token_stream(), sup, w.to_token_stream());
        s.push_str(&format!("vp_impl!({});\n", lit(path)));
        for ti in its {
            match ti {
                TraitItem::Type(mut x) => { x.attrs.clear(); Clean(&cs.uses).visit_trait_item_type_mut(&mut x); s.push_str(&format!("{}\n", x.to_token_stream())) }
                TraitItem::Fn(f) => {
                    let key = format!("{}::{}", path, f.sig.ident);
                    if let Some((c, d)) = fns.iter().find(|(c, _)| c.path == key) { s.push_str(&func(c, d, cs, o, false, known, crate_fns, done, ordered)); }
                }
                _ => {}
            }
        }
        s.push_str("}\n");
        return s;
    }
    Clean(&cs.uses).visit_item_mut(&mut it);
    format!("{} {}\n", attrs, it.to_token_stream())
}

/// a body that returns a future becomes one that returns its value: Box::pin(async move { body }) => body, future::ready(x) => x
fn flatten(b: &mut Block) {
    let new = match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => value_of(e),
        _ => return,
    };
    if let Some(n) = new { b.stmts.pop(); match n { Expr::Block(x) if x.label.is_none() => b.stmts.extend(x.block.stmts), n => b.stmts.push(Stmt::Expr(n, None)) } }
}
fn value_of(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.to_token_stream().to_string().replace(' ', "") == "Box::pin") && c.args.len() == 1 => Some(value_of(&c.args[0]).unwrap_or_else(|| c.args[0].clone())),
        Expr::Call(c) if crate::rewrite::is_ready(c) => Some(c.args[0].clone()),
        Expr::Async(a) => Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: a.block.clone() })),
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() { if let Some(x) = value_of(&a.body) { *a.body = x; } }
            Some(Expr::Match(m))
        }
        Expr::If(i) => {
            let mut i = i.clone();
            flatten(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch { if let Some(n) = value_of(x) { **x = n; } }
            Some(Expr::If(i))
        }
        Expr::Block(x) => { let mut x = x.clone(); flatten(&mut x.block); Some(Expr::Block(x)) }
        _ => None,
    }
}

fn wanted(c: &FnC, o: &Opts) -> bool {
    (o.verify.is_empty() && o.props.is_empty()) || o.verify.contains(&c.path) || c.props.iter().any(|p| o.props.contains(p))
}

#[allow(clippy::too_many_arguments)]
fn func(c: &FnC, d: &FnDef, cs: &Contracts, o: &Opts, public: bool, known: &BTreeSet<String>, crate_fns: &BTreeSet<String>, done: &mut BTreeMap<String, Done>, ordered: &mut Vec<String>) -> String {
    let wanted = wanted(c, o);
    let trusted = c.flags.contains("trusted");
    let verified = wanted && !o.skip_body.contains(&c.path) && !trusted && d.block.is_some();
    let mut sig = d.sig.clone();
    let (worlds, futargs) = (&cs.worlds, &cs.futargs);
    let mut rw = Rw { c, uses: &cs.uses, loops: 0, closures: 0, calls: BTreeMap::new(), notes: vec![], worlds, futargs };
    rw.visit_signature_mut(&mut sig);
    if c.flags.contains("mutself") {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { *r = parse_quote!(&mut self); }
    }
    // tuple patterns of parameters are taken apart in the body
    let mut untuple: Vec<Stmt> = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(*t.pat, Pat::Tuple(_)) {
                let (p, n) = (t.pat.clone(), quote::format_ident!("vp_p{}", i));
                untuple.push(parse_quote!(let #p = #n;));
                t.pat = parse_quote!(#n);
            }
        }
    }
    let mut mut_self = false;
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { if r.reference.is_none() && r.mutability.is_some() { mut_self = true; *r = parse_quote!(self); } }
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            let name = t.pat.to_token_stream().to_string().replace("mut ", "");
            if let Some(ty) = c.args.get(&name) { t.ty = Box::new(parse_str(ty).expect("arg type")); }
            if c.flags.contains("mutargs") {
                if let Type::Reference(r) = &mut *t.ty { r.mutability = Some(parse_quote!(mut)); }
            }
        }
    }
    if c.flags.contains("display") {
        sig = parse_quote!(fn to_string(&self) -> String);
    }
    if c.flags.contains("sync") { sig.asyncness = None; }
    if c.flags.contains("async") { sig.asyncness = Some(Default::default()); }
    if c.flags.contains("world") { sig.inputs.push(parse_quote!(Tracked(vp_w): Tracked<&mut crate::shim::World>)); }
    if let Some(n) = c.flags.iter().find_map(|f| f.strip_prefix("inherent=")) { sig.ident = quote::format_ident!("{}", n); }
    // the contract of an async function is only seen by its callers when the return value is named
    if sig.asyncness.is_some() && matches!(sig.output, ReturnType::Default) { sig.output = parse_quote!(-> ()); }
    if let ReturnType::Type(_, t) = &sig.output {
        let t = if let Some(x) = c.args.get("->") { parse_str::<Type>(x).unwrap() } else { (**t).clone() };
        let ts = t.to_token_stream();
        let r = quote::format_ident!("{}", c.ret);
        sig.output = parse_quote!(-> vp_ret!(#r => #ts));
    }
    let vis = if public && !matches!(d.owner, Some(Owner::Trait(_))) { "pub " } else { "" };
    let mut block = d.block.clone();
    let mut calls = vec![];
    let mut shp = (vec![], 0, 0);
    let mut auto = String::new();
    if let Some(b) = &mut block {
        shp = shape(b);
        calls = called(b).into_iter().filter(|n| crate_fns.contains(n) && !known.contains(n)).collect();
        if c.flags.contains("sync") { flatten(b); }
        if c.flags.contains("pinned") {
            // the boxed future a function returns is what the function does when it is awaited
            if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                let f = match &*e { Expr::Call(k) if k.args.len() == 1 && matches!(&*k.func, Expr::Path(p) if p.path.to_token_stream().to_string().replace(' ', "").ends_with("Box::pin")) => Some(k.args[0].clone()), Expr::MethodCall(m) if m.method == "boxed" => Some((*m.receiver).clone()), _ => None };
                if let Some(f) = f { *e = match f { Expr::Async(a) => { let blk = a.block; parse_quote!(#blk) } f => parse_quote!(#f.await) }; }
            }
        }
        if mut_self {
            // `mut self`: the body works on a local copy
            struct S;
            impl VisitMut for S { fn visit_path_mut(&mut self, p: &mut syn::Path) { syn::visit_mut::visit_path_mut(self, p); if p.is_ident("self") { *p = parse_quote!(vp_self); } } }
            S.visit_block_mut(b);
        }
        rw.body(b);
        for (i, x) in untuple.drain(..).enumerate() { b.stmts.insert(i, x); }
        if mut_self { b.stmts.insert(0, parse_quote!(let mut vp_self = self;)); }
        if c.flags.contains("auto") {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last() { auto = e.to_token_stream().to_string(); }
        }
    }
    let entry_loops = rw.loops;
    let entry = Done { path: c.path.clone(), verified, loops: rw.loops, loops_expected: c.loops.len(), closures: rw.closures, closures_expected: c.closures.len(), calls, shape: shp, trusted, start: 0, end: 0, expanded: d.expanded, async_: d.sig.asyncness.is_some(), props: c.props.iter().cloned().collect() };
    ordered.push(c.path.clone());
    done.insert(c.path.clone(), entry);
    let attrs = c.attrs.trim();
    match block {
        None => format!("{} {}{};\nvp_sigend!({});\n", attrs, vis, sig.to_token_stream(), lit(&c.path)),
        Some(b) => {
            // what holds before a loop of variables it leaves alone holds in it: an expression moved out of a loop stays known
            let ext = if !verified { "#[verifier::external_body]" } else if entry_loops > 0 && !c.flags.contains("isolated") { "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]" } else { "" };
            let stmts = if verified { b.stmts.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>().join("\n") } else { "unimplemented!()".into() };
            let stmts = if verified && o.reach { format!("assert(false);\n{}", stmts) } else { stmts };
            let auto = if auto.is_empty() { String::new() } else { format!("vp_auto!({});", lit(&auto)) };
            format!("{} {} {}{} {{ vp_fn!({}); {} {} }}\n", attrs, ext, vis, sig.to_token_stream(), lit(&c.path), auto, stmts)
        }
    }
}

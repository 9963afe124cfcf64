//! Rewrites applied to function bodies. Each one either desugars to what the compiler generates or
//! drops something that no contract talks about (see DESIGN.md).
use crate::contracts::FnC;
use crate::load::last_ident;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rw<'a> {
    pub c: &'a FnC,
    pub uses: &'a BTreeMap<String, String>,
    pub loops: usize,
    pub closures: usize,
    pub calls: BTreeMap<String, usize>,
    pub notes: Vec<String>,
    /// functions and methods that take the ghost log: (name, number of arguments) -> 0 only when awaited, 1 at the call, 2 at the call, which is awaited in the verified text
    pub worlds: &'a BTreeMap<(String, usize), u8>,
    /// functions taking a future that the verified text takes the value of
    pub futargs: &'a std::collections::BTreeSet<String>,
}

/// appends a statement to a loop body; a unit tail expression becomes a statement
fn push_end(b: &mut Block, h: Stmt) {
    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
    b.stmts.push(h);
}
fn lit_str(s: &str) -> Lit { Lit::Str(LitStr::new(s, proc_macro2::Span::call_site())) }
fn parse_expr(t: proc_macro2::TokenStream) -> Expr { parse2(t.clone()).unwrap_or_else(|e| panic!("{}: {}", e, t)) }
fn is_log(m: &Macro) -> bool { matches!(last_ident(&m.path).as_str(), "trace" | "debug" | "info" | "warn" | "error") }

/// puts a hint in front of every `break` of a loop (not of the loops in it)
struct Breaks(Stmt);
impl VisitMut for Breaks {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(b) => { let (h, b) = (self.0.clone(), b.clone()); *e = parse_expr(quote!({ #h #b })); }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Names called directly by a statement (not by statements of nested blocks).
struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, _b: &'a Block) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.0.push(last_ident(&p.path)); }
    }
}
use syn::visit;

fn mentions(block: &Block, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_ident(&mut self, i: &'b Ident) { if i == self.0 { self.1 = true } }
    }
    let mut v = V(name, false);
    v.visit_block(block);
    v.1
}

impl<'a> Rw<'a> {
    fn hint(&self, wh: &str, name: &str, k: usize) -> Option<Stmt> {
        if self.c.hints.contains_key(&(wh.to_string(), name.to_string(), k)) {
            let (w, n) = (format_ident!("{}", wh), format_ident!("{}", if name.is_empty() { "_none" } else { name }));
            let k = proc_macro2::Literal::usize_unsuffixed(k);
            Some(parse2(quote!(vp_hint!(#w, #n, #k);)).unwrap())
        } else { None }
    }
    pub fn body(&mut self, b: &mut Block) {
        if self.c.flags.contains("world") { Permits { names: vec![], depth: 0 }.visit_block_mut(b); }
        self.visit_block_mut(b);
        if let Some(h) = self.hint("tail", "", 0) {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                b.stmts.push(parse2(quote!(let vp_tail = #e;)).unwrap());
                b.stmts.push(h);
                b.stmts.push(Stmt::Expr(parse_expr(quote!(vp_tail)), None));
            } else { b.stmts.push(h); }
        }
        if let Some(h) = self.hint("start", "", 0) { b.stmts.insert(0, h); }
    }
    fn loop_marks(&mut self, body: &mut Block, n: usize) {
        if let Some(h) = self.hint("loopstart", "", n) { body.stmts.insert(0, h); }
        if let Some(h) = self.hint("loopend", "", n) { push_end(body, h); }
        let k = proc_macro2::Literal::usize_unsuffixed(n);
        body.stmts.insert(0, parse2(quote!(vp_loop!(#k);)).unwrap());
    }
}

impl<'a> Rw<'a> {
    /// passes the ghost log to a call that takes it
    fn add_world(&self, e: &mut Expr, awaited: bool) {
        if !self.c.flags.contains("world") { return; }
        let (name, args) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), &mut m.args),
            Expr::Call(c) => match &*c.func { Expr::Path(p) => (last_ident(&p.path), &mut c.args), _ => return },
            _ => return,
        };
        if self.c.flags.contains(&format!("noworld={}", name)) { return; }
        let k = self.worlds.get(&(name, args.len())).copied();
        if matches!((k, awaited), (Some(0), true) | (Some(1 | 2), false)) { args.push(parse_expr(quote!(Tracked(vp_w)))); }
        if let (Some(2), false) = (k, awaited) { *e = parse_expr(quote!(#e.await)); }
    }
}
/// Says where a permit (what `acquire()` gives) goes before the end of the function: at the end of its statement if it
/// is not bound to a name, when it is dropped by name, or at the end of an inner block.
struct Permits { names: Vec<String>, depth: usize }
fn acquires(e: &Expr) -> bool {
    match e {
        Expr::Await(a) => acquires(&a.base),
        Expr::Try(t) => acquires(&t.expr),
        Expr::Paren(p) => acquires(&p.expr),
        Expr::MethodCall(m) => ((m.method == "acquire" || m.method == "acquire_owned") && m.args.is_empty()) || (matches!(m.method.to_string().as_str(), "unwrap" | "expect" | "ok" | "map_err" | "is_ok") && acquires(&m.receiver)),
        _ => false,
    }
}
impl VisitMut for Permits {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let release = || -> Stmt { parse2(quote!(crate::shim::vp_release();)).unwrap() };
        let mut out = vec![];
        let mut bound = false;
        for mut s in std::mem::take(&mut b.stmts) {
            self.depth += 1;
            visit_mut::visit_stmt_mut(self, &mut s);
            self.depth -= 1;
            let mut gone = false;
            match &s {
                Stmt::Local(Local { pat, init: Some(i), .. }) if acquires(&i.expr) => match pat {
                    Pat::Ident(p) => { self.names.push(p.ident.to_string()); bound = true; }
                    Pat::Wild(_) => gone = true,
                    _ => {}
                },
                Stmt::Expr(e, Some(_)) if acquires(e) => gone = true,
                Stmt::Expr(Expr::Call(c), Some(_)) => if let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) {
                    if last_ident(&f.path) == "drop" && self.names.contains(&last_ident(&a.path)) { out.push(release()); continue; }
                },
                _ => {}
            }
            out.push(s);
            if gone { out.push(release()); }
        }
        if bound && self.depth > 0 {
            match out.pop() {
                Some(Stmt::Expr(e, None)) => { out.push(parse2(quote!(let vp_t = #e;)).unwrap()); out.push(release()); out.push(Stmt::Expr(parse_expr(quote!(vp_t)), None)); }
                Some(x) => { out.push(x); out.push(release()); }
                None => {}
            }
        }
        b.stmts = out;
    }
}
/// whether a block can be left early
fn leaves(b: &Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_async(&mut self, _: &'a ExprAsync) {}
        fn visit_item(&mut self, _: &'a Item) {}
        fn visit_macro(&mut self, m: &'a Macro) { if !is_log(m) { self.0 = true } }
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
/// `future::ready(x)`
pub fn is_ready(c: &ExprCall) -> bool {
    matches!(&*c.func, Expr::Path(p) if last_ident(&p.path) == "ready" && p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "future") && c.args.len() == 1
}
/// The consumption of a stream by combinators, as the loop it runs: items are taken one after another, each
/// goes through the combinators in order.
fn stream_chain(e: &Expr, futargs: &std::collections::BTreeSet<String>) -> Option<Expr> {
    let mut steps: Vec<(String, Vec<Expr>)> = vec![];
    let mut cur = e.clone();
    while let Expr::MethodCall(m) = &cur {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "for_each" | "try_for_each" | "try_for_each_concurrent" | "collect" | "map" | "then" | "filter_map" | "inspect_err" | "map_err" | "try_filter_map" | "inspect" | "for_each_concurrent") { break; }
        steps.push((name, m.args.iter().cloned().collect()));
        let r = (*m.receiver).clone();
        cur = r;
    }
    let (last, largs) = steps.first()?.clone();
    if !matches!(last.as_str(), "for_each" | "try_for_each" | "try_for_each_concurrent" | "collect") { return None; }
    // `.iter().map(..).collect().await` does not exist: what is awaited is a stream
    let apply = |f: &Expr| -> proc_macro2::TokenStream {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (p, b) = (&c.inputs[0], &c.body);
                match p { Pat::Wild(_) => quote!({ let _vp_u = vp_x; #b }), p => quote!({ let #p = vp_x; #b }) }
            }
            f => quote!(#f(vp_x)),
        }
    };
    let fut = |f: &Expr| matches!(f, Expr::Path(p) if futargs.contains(&last_ident(&p.path)));
    let mut body = match last.as_str() {
        "for_each" => { let f = apply(&largs[0]); if fut(&largs[0]) { quote!(#f;) } else { quote!(#f.await;) } }
        "collect" => quote!(vp_c.push(vp_x);),
        _ => {
            let f = apply(largs.last()?);
            quote!(match vp_x {
                Ok(vp_x) => match #f.await { Ok(_vp_u) => {} Err(vp_e) => { vp_r = Err(vp_e); break } },
                Err(vp_e) => { vp_r = Err(vp_e); break }
            })
        }
    };
    let mut next_takes_future = last == "for_each" && fut(&largs[0]);
    for (name, args) in &steps[1..] {
        let f = args.first()?;
        let a = apply(f);
        body = match name.as_str() {
            "map" if next_takes_future => quote!(let vp_x = #a.await; #body),
            "map" => quote!(let vp_x = #a; #body),
            "then" => quote!(let vp_x = #a.await; #body),
            "filter_map" => quote!(match #a.await { Some(vp_x) => { #body } None => {} }),
            "inspect_err" | "inspect" => match f {
                // only logging
                Expr::Closure(c) if matches!(&*c.body, Expr::Macro(m) if is_log(&m.mac)) => body,
                _ => return None,
            },
            "map_err" => quote!(let vp_x = vp_x.map_err(#f); #body),
            "try_filter_map" => quote!(match (match vp_x { Err(vp_e) => Some(Err(vp_e)), Ok(vp_x) => match #a.await { Ok(Some(vp_y)) => Some(Ok(vp_y)), Ok(None) => None, Err(vp_e) => Some(Err(vp_e)) } }) { Some(vp_x) => { #body } None => {} }),
            _ => return None,
        };
        next_takes_future = false;
    }
    let src = &cur;
    let while_ = quote!(while let Some(vp_x) = vp_s.vp_next().await { #body });
    Some(parse_expr(match last.as_str() {
        "for_each" => quote!({ let mut vp_s = #src; #while_ }),
        "collect" => quote!({ let mut vp_s = #src; let mut vp_c = Vec::new(); #while_ vp_c }),
        _ => quote!({ let mut vp_s = #src; let mut vp_r = Ok(()); #while_ vp_r }),
    }))
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop logging statements
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) if is_log(&m.mac) => false,
            Stmt::Expr(Expr::Macro(m), _) if is_log(&m.mac) => false,
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        let mut out = vec![];
        let all = std::mem::take(&mut b.stmts);
        let last = all.len().wrapping_sub(1);
        for (at, mut s) in all.into_iter().enumerate() {
            // `assert!` family as statements stays; panics stay
            let mut calls = Calls(vec![]);
            calls.visit_stmt(&s);
            let mut before = vec![];
            let mut after = vec![];
            let mut seen = vec![];
            for name in calls.0 {
                let k = *self.calls.entry(name.clone()).and_modify(|x| *x += 1).or_insert(0);
                seen.push((name, k));
            }
            for (name, k) in &seen {
                if let Some(h) = self.hint("before", name, *k) { before.push(h); }
                if let Some(h) = self.hint("after", name, *k) { after.push(h); }
            }
            self.visit_stmt_mut(&mut s);
            out.extend(before);
            if after.is_empty() { out.push(s); continue; }
            match s {
                Stmt::Expr(e, None) if at == last => {
                    out.push(parse2(quote!(let vp_t = #e;)).unwrap());
                    out.extend(after);
                    out.push(Stmt::Expr(parse_expr(quote!(vp_t)), None));
                }
                s => { out.push(s); out.extend(after); }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Await(a) = e {
            // `f.then(|_| async { <logging> }).await` is `f.await`
            if let Expr::MethodCall(m) = &*a.base {
                if m.method == "then" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if let (1, Some(Pat::Wild(_)), Expr::Async(b)) = (c.inputs.len(), c.inputs.first(), &*c.body) {
                            if b.block.stmts.iter().all(|s| matches!(s, Stmt::Macro(m) if is_log(&m.mac)) || matches!(s, Stmt::Expr(Expr::Macro(m), _) if is_log(&m.mac))) {
                                let r = &m.receiver; *e = parse_expr(quote!(#r.await)); self.visit_expr_mut(e); return;
                            }
                        }
                    }
                }
            }
            if let Some(x) = stream_chain(&a.base, self.futargs) { *e = x; self.visit_expr_mut(e); return; }
            // `{ ..; f }.await` is `{ ..; f.await }`
            if let Expr::Block(b) = &mut *a.base {
                if let (None, Some(Stmt::Expr(t, None))) = (&b.label, b.block.stmts.last_mut()) {
                    *t = parse_expr(quote!(#t.await));
                    *e = (*a.base).clone();
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // `async { b }.await` is `{ b }` unless it is left early
            if let Expr::Async(b) = &*a.base {
                if !leaves(&b.block) { let b = &b.block; *e = parse_expr(quote!(#b)); self.visit_expr_mut(e); return; }
            }
        }
        // a task is run to its end where it is started, on a log of its own
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), Some(Expr::Async(b)), true) = (&*c.func, c.args.first(), self.c.flags.contains("tasks")) {
                if path_str(&p.path).ends_with("spawn") && !leaves(&b.block) {
                    let mut blk = b.block.clone();
                    blk.stmts.insert(0, parse2(quote!(vp_hint!(taskstart, _none, 0);)).unwrap());
                    *e = parse_expr(quote!({ vp_hint!(tasknew, _none, 0); let _vp_t = #blk; vp_hint!(taskend, _none, 0); vp_th }));
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // numbering of loops and closures is in source order, outermost first
        match e {
            Expr::Macro(m) => {
                let name = last_ident(&m.mac.path);
                if is_log(&m.mac) { *e = parse_expr(quote!(())); return; }
                match name.as_str() {
                    "format" => { *e = parse_expr(quote!(crate::shim::vp_format())); return; }
                    "vec" => {
                        if let Ok(items) = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            let mut items: Vec<Expr> = items.into_iter().collect();
                            for i in &mut items { self.visit_expr_mut(i); }
                            *e = parse_expr(quote!(crate::shim::vp_vec([#(#items),*])));
                        }
                        return;
                    }
                    "matches" => {
                        // matches!(expr, pattern) is `match expr { pattern => true, _ => false }`
                        struct M(Expr, Pat, Option<Expr>);
                        impl parse::Parse for M {
                            fn parse(i: parse::ParseStream) -> Result<Self> {
                                let e = i.parse()?; i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                                let _ = i.parse::<Option<Token![,]>>();
                                Ok(M(e, p, g))
                            }
                        }
                        if let Ok(M(mut x, p, g)) = m.mac.parse_body::<M>() {
                            self.visit_expr_mut(&mut x);
                            let g = g.map(|g| quote!(if #g));
                            *e = parse_expr(quote!(match #x { #p #g => true, _ => false }));
                        }
                        return;
                    }
                    "todo" | "unimplemented" | "panic" | "unreachable" => { *e = parse_expr(quote!(crate::shim::vp_panic())); return; }
                    _ => return,
                }
            }
            Expr::ForLoop(f) => {
                let n = self.loops;
                self.loops += 1;
                let mut it = (*f.expr).clone();
                // an integer range without a type is a range of i32
                if let Expr::Range(r) = &mut it {
                    fn plain(e: &Option<Box<Expr>>) -> Option<i32> { match e.as_deref() { Some(Expr::Lit(ExprLit { lit: Lit::Int(i), .. })) if i.suffix().is_empty() => i.base10_parse().ok(), _ => None } }
                    if let (Some(a), Some(_)) = (plain(&r.start), plain(&r.end)) { let a = proc_macro2::Literal::i32_suffixed(a); r.start = Some(Box::new(parse_expr(quote!(#a)))); }
                }
                self.visit_expr_mut(&mut it);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                if let Some(h) = self.hint("loopend", "", n) { push_end(&mut body, h); }
                let pat = match &*f.pat { Pat::Wild(_) => { let id = format_ident!("_vp_i{}", n); parse2::<ExprWrap>(quote!(#id)).unwrap().0.to_token_stream() } p => p.to_token_stream() };
                let itn = format_ident!("vp_it{}", n);
                let label = f.label.clone();
                let k = proc_macro2::Literal::usize_unsuffixed(n);
                let start = self.hint("loopstart", "", n);
                let pre = self.hint("preloop", "", n);
                let post = self.hint("postloop", "", n);
                *e = parse_expr(quote!({
                    let mut #itn = crate::shim::VpIntoIter::vp_into_iter(#it);
                    #pre
                    #label loop {
                        vp_loop!(#k);
                        #start
                        match #itn.vp_next() {
                            None => break,
                            Some(#pat) => #body
                        }
                    }
                    #post
                }));
                return;
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                let label = w.label.clone();
                if let Expr::Let(l) = &*w.cond {
                    let mut x = (*l.expr).clone();
                    self.visit_expr_mut(&mut x);
                    let pat = l.pat.clone();
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    if let Some(h) = self.hint("loopbreak", "", n) { Breaks(h).visit_block_mut(&mut body); }
                    if let Some(h) = self.hint("loopend", "", n) { push_end(&mut body, h); }
                    let k = proc_macro2::Literal::usize_unsuffixed(n);
                    let start = self.hint("loopstart", "", n);
                    let none = self.hint("loopnone", "", n);
                    let (pre, post) = (self.hint("preloop", "", n), self.hint("postloop", "", n));
                    let l = quote!(#label loop {
                        vp_loop!(#k);
                        #start
                        match #x {
                            #pat => #body
                            _ => { #none break }
                        }
                    });
                    *e = parse_expr(if pre.is_some() || post.is_some() { quote!({ #pre #l #post }) } else { l });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    self.loop_marks(&mut w.body, n);
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut l.body);
                self.loop_marks(&mut l.body, n);
                return;
            }
            // x.map(|a| body)?  =>  { let a = x?; body }   (also for Option and for map_ok)
            Expr::Try(t) if matches!(&*t.expr, Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Ident(_)) && no_exit(&c.body))) => {
                if let Expr::MethodCall(m) = &*t.expr {
                    if let Expr::Closure(c) = &m.args[0] {
                        let (mut x, p, mut b) = ((*m.receiver).clone(), c.inputs[0].clone(), (*c.body).clone());
                        self.visit_expr_mut(&mut x);
                        self.closures += 1;
                        self.visit_expr_mut(&mut b);
                        *e = parse_expr(quote!({ let #p = #x?; #b }));
                    }
                }
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures;
                self.closures += 1;
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    if let Pat::Wild(_) = p { let id = format_ident!("_vp_c{}_{}", n, i); *p = parse::Parser::parse2(Pat::parse_single, quote!(#id)).unwrap(); }
                }
                self.visit_expr_mut(&mut c.body);
                if self.c.closures.contains_key(&n) {
                    let body = &c.body;
                    let k = proc_macro2::Literal::usize_unsuffixed(n);
                    *e = parse_expr(quote!(vp_closure!(#k, #body)));
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        self.add_world(e, false);
        match e {
            // a hint about the value of x in `x?`
            Expr::Try(t) => {
                let x = match &*t.expr { Expr::Await(a) => &*a.base, x => x };
                let name = match x { Expr::MethodCall(m) => m.method.to_string(), Expr::Call(c) => match &*c.func { Expr::Path(p) => last_ident(&p.path), _ => String::new() }, _ => String::new() };
                let k = self.calls.entry(format!("{}?", name)).or_insert(0);
                let n = *k;
                *k += 1;
                if let (false, Some(h)) = (name.is_empty(), self.hint("try", &name, n)) {
                    let x = (*t.expr).clone();
                    *e = parse_expr(quote!({ let vp_q = #x; #h vp_q? }));
                }
            }
            // `f.await` of futures combinators
            Expr::Await(a) => {
                if let Expr::MethodCall(m) = &*a.base {
                    if m.method == "map_ok" {
                        // TryFutureExt::map_ok(fut, f).await == fut.await.map(f)
                        let (r, args) = (&m.receiver, &m.args);
                        let mut r = (**r).clone();
                        self.add_world(&mut r, true);
                        *e = parse_expr(quote!(#r.await.map(#args)));
                        return;
                    }
                }
                let name = match &*a.base { Expr::MethodCall(m) => m.method.to_string(), Expr::Call(c) => match &*c.func { Expr::Path(p) => last_ident(&p.path), _ => String::new() }, Expr::Path(p) => last_ident(&p.path), _ => String::new() };
                if self.c.flags.contains(&format!("noawait={}", name)) || matches!(&*a.base, Expr::Call(c) if is_ready(c)) {
                    let b = match &*a.base { Expr::Call(c) if is_ready(c) => c.args[0].clone(), b => b.clone() };
                    *e = b;
                    return;
                }
                self.add_world(&mut a.base, true);
            }
            // indexing by a range behind a reference: &x[..n]
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(rg) = &*i.index {
                        let x = &i.expr;
                        match (&rg.start, &rg.limits, &rg.end) {
                            (None, RangeLimits::HalfOpen(_), Some(n)) => *e = parse_expr(quote!(#x.vp_slice_to(#n))),
                            (Some(n), RangeLimits::HalfOpen(_), None) => *e = parse_expr(quote!(#x.vp_slice_from(#n))),
                            _ => {}
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
 if s.ends_with("rt::begin_panic") { *e = parse_expr(quote!(return crate::shim::vp_panic())); return; }
                    // a task that is a call of a function: its contract says what starting it is
                    if s == "tokio::spawn" && c.args.len() == 1 && self.c.flags.contains("tasks") {
                        let inner = match &c.args[0] {
                            Expr::Async(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(Expr::Await(a), None) => Some((*a.base).clone()), _ => None },
                            x => Some(x.clone()),
                        };
                        if let Some(Expr::Call(mut k)) = inner {
                            if let Expr::Path(q) = &mut *k.func {
                                if q.path.segments.len() >= 2 {
                                    let l = q.path.segments.last_mut().unwrap();
                                    l.ident = format_ident!("vp_spawned_{}", l.ident);
                                    // the log of the task is its own
                                    if k.args.last().map_or(false, |a| a.to_token_stream().to_string().contains("vp_w")) { k.args.pop(); }
                                    k.args.push(parse_expr(quote!(Tracked(vp_w))));
                                    *e = Expr::Call(k);
                                    return;
                                }
                            }
                        }
                    }
                    if s == "tokio::spawn" && c.args.len() == 1 { *e = parse_expr(quote!(crate::shim::vp_spawn(Tracked(vp_w)))); return; }
                    if s == "Box::pin" && c.args.len() == 1 { let a = &c.args[0]; *e = parse_expr(quote!(crate::shim::vp_pin(#a))); }
                    else if (s == "Vec::from") && c.args.len() == 1 && matches!(c.args[0], Expr::Array(_)) { let a = &c.args[0]; *e = parse_expr(quote!(crate::shim::vp_vec(#a))); }
                    else if (s == "IntoIterator::into_iter" || s.ends_with("::IntoIterator::into_iter")) && c.args.len() == 1 { let a = &c.args[0]; *e = parse_expr(quote!(crate::shim::VpIntoIter::vp_into_iter(#a))); }
                    else if s == "Vec::from" && c.args.len() == 1 { let a = &c.args[0]; *e = parse_expr(quote!(crate::shim::vp_vec_from(#a))); }
                }
            }
            // x.iter_mut().map(f).collect()
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
                if let Expr::MethodCall(mp) = &*m.receiver {
                    if let (true, 1, Expr::MethodCall(it)) = (mp.method == "map", mp.args.len(), &*mp.receiver) {
                        let (x, f) = (&it.receiver, &mp.args[0]);
                        if it.method == "iter_mut" { *e = parse_expr(quote!(crate::shim::vp_iter_mut_map_collect(&mut #x, #f))); }
                    }
                }
            }
            // match on string literals
            Expr::Match(m) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::Str(_)))) => {
                let x = &m.expr;
                let mut chain: Option<proc_macro2::TokenStream> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let b = &a.body;
                    match &a.pat {
                        Pat::Wild(_) if a.guard.is_none() => chain = Some(quote!({ #b })),
                        Pat::Lit(l) if a.guard.is_none() => { let rest = chain.take(); chain = Some(quote!({ if crate::shim::vp_str_eq(vp_m, #l) { #b } else #rest })); }
                        _ => ok = false,
                    }
                }
                if let (Some(chain), true) = (chain, ok) {
                    *e = parse_expr(quote!({ let vp_m = #x; #chain }));
                }
            }
            // `x.deref()` is `&*x`
            Expr::MethodCall(m) if m.method == "deref" && m.args.is_empty() => { let x = &m.receiver; *e = parse_expr(quote!((&*#x))); }
            // Formatter::pad of a literal in Display impls of strum
            Expr::MethodCall(m) if m.method == "pad" => {
                let a = &m.args;
                *e = parse_expr(quote!(crate::shim::vp_lit(#a)));
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "map" | "map_ok" | "map_err" | "and_then") && m.args.len() == 1 => {
                // constructors as functions
                if let Expr::Path(p) = &m.args[0] {
                    let s = path_str(&p.path);
                    if s == "Some" { let r = &m.receiver; let me = &m.method; *e = parse_expr(quote!(#r.#me(vp_some!()))); }
                    else if p.path.segments.len() >= 2 && p.path.segments.last().map_or(false, |x| x.ident.to_string().starts_with(char::is_uppercase)) {
                        let (r, me, f) = (&m.receiver, &m.method, lit_str(&p.path.to_token_stream().to_string()));
                        *e = parse_expr(quote!(#r.#me(vp_ctor!(#f))));
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_path(p, self.uses);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        rewrite_type(t);
    }
    fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, t);
    }
}
/// no `?`, `return`, `.await` or `break` in an expression
fn no_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'b> Visit<'b> for V {
        fn visit_expr_try(&mut self, _: &'b ExprTry) { self.0 = false }
        fn visit_expr_return(&mut self, _: &'b ExprReturn) { self.0 = false }
        fn visit_expr_await(&mut self, _: &'b ExprAwait) { self.0 = false }
        fn visit_macro(&mut self, m: &'b Macro) { let t = m.tokens.to_string(); if t.contains('?') || t.contains("return") { self.0 = false } }
    }
    let mut v = V(true);
    v.visit_expr(e);
    v.0
}
struct ExprWrap(Ident);
impl parse::Parse for ExprWrap { fn parse(i: parse::ParseStream) -> Result<Self> { Ok(ExprWrap(i.parse()?)) } }

pub fn path_str(p: &syn::Path) -> String { p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") }

/// full paths of external items are mapped like `use` declarations; `AsRef<str>` is a shim trait
pub fn rewrite_path(p: &mut syn::Path, uses: &BTreeMap<String, String>) {
    if last_ident(p) == "AsRef" {
        if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
            if a.to_token_stream().to_string().contains("str") { *p = parse_quote!(crate::shim::AsRefStr); return; }
        }
    }
    // conversions from and to message arguments are traits of their own
    if matches!(last_ident(p).as_str(), "TryFrom" | "TryInto") {
        if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
            if matches!(a.args.first(), Some(GenericArgument::Type(Type::Path(t))) if last_ident(&t.path) == "MessageArgs") {
                let rest: Vec<&GenericArgument> = a.args.iter().skip(1).collect();
                let mut new: syn::Path = if last_ident(p) == "TryFrom" { parse_quote!(crate::messages::args::TryFromArgs) } else { parse_quote!(crate::messages::args::TryIntoArgs) };
                if !rest.is_empty() { new.segments.last_mut().unwrap().arguments = PathArguments::AngleBracketed(parse_quote!(<#(#rest),*>)); }
                *p = new;
                return;
            }
        }
    }
    if last_ident(p) == "TryInto" {
        if p.segments.last().unwrap().arguments.to_token_stream().to_string().replace(' ', "") == "<usize>" { *p = parse_quote!(crate::shim::TryIntoUsize); return; }
    }
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() < 2 { return; }
    for n in (1..=segs.len()).rev() {
        let pre = segs[..n].join("::");
        if n >= 2 || p.leading_colon.is_some() {
            if let Some(t) = uses.get(&pre) {
                let mut new: syn::Path = parse_str(t).unwrap();
                let off = new.segments.len();
                if let (Some(l), Some(o)) = (new.segments.last_mut(), p.segments.iter().nth(n - 1)) { l.arguments = o.arguments.clone(); }
                for s in p.segments.iter().skip(n) { new.segments.push(s.clone()); }
                let _ = off;
                *p = new;
                return;
            }
        }
    }
    // what the compiler's expansion spells with absolute paths
    let full = segs.join("::");
    for (a, b) in [("core::result::Result", "Result"), ("core::option::Option", "Option"), ("core::result::Result::Ok", "Ok"), ("core::result::Result::Err", "Err"), ("core::option::Option::Some", "Some"), ("core::option::Option::None", "None"), ("core::default::Default::default", "Default::default"), ("core::convert::From::from", "From::from")] {
        if full == a {
            let args = p.segments.last().unwrap().arguments.clone();
            *p = parse_str(b).unwrap();
            p.segments.last_mut().unwrap().arguments = args;
            return;
        }
    }
}
pub fn rewrite_type(t: &mut Type) {
    match t {
        // &dyn Fn(A) -> B   =>  &impl Fn(A) -> B
        Type::TraitObject(o) => {
            let b = o.bounds.to_token_stream().to_string();
            if b.starts_with("Fn (") || b.starts_with("Fn(") { let bounds = &o.bounds; *t = parse_quote!(impl #bounds); }
        }
        // fn(A) -> B  =>  impl Fn(A) -> B
        Type::BareFn(f) => {
            let ins: Vec<&Type> = f.inputs.iter().map(|a| &a.ty).collect();
            let out = &f.output;
            *t = parse_quote!(impl Fn(#(#ins),*) #out);
        }
        _ => {}
    }
}
/// names of crate functions and methods called by a body
pub fn called(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'b> Visit<'b> for V {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) { visit::visit_expr_method_call(self, m); self.0.push(m.method.to_string()); }
        fn visit_path(&mut self, p: &'b syn::Path) { visit::visit_path(self, p); self.0.push(last_ident(p)); }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0.sort();
    v.0.dedup();
    let _ = mentions;
    v.0
}
/// Fingerprint of the structure of a body: the functions, methods and macros it calls (with
/// multiplicity), its loops and its closures. Used to tell a proof that fails because the code was
/// restructured from one that fails because the code computes something else.
pub fn shape(b: &Block) -> (Vec<String>, usize, usize) {
    struct V(Vec<String>, usize, usize);
    impl<'b> Visit<'b> for V {
        fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) { visit::visit_expr_method_call(self, m); self.0.push(m.method.to_string()); }
        fn visit_expr_call(&mut self, c: &'b ExprCall) { visit::visit_expr_call(self, c); if let Expr::Path(p) = &*c.func { self.0.push(last_ident(&p.path)); } }
        fn visit_expr_loop(&mut self, e: &'b ExprLoop) { visit::visit_expr_loop(self, e); self.1 += 1; }
        fn visit_expr_while(&mut self, e: &'b ExprWhile) { visit::visit_expr_while(self, e); self.1 += 1; }
        fn visit_expr_for_loop(&mut self, e: &'b ExprForLoop) { visit::visit_expr_for_loop(self, e); self.1 += 1; }
        fn visit_expr_closure(&mut self, e: &'b ExprClosure) { visit::visit_expr_closure(self, e); self.2 += 1; }
    }
    let mut v = V(vec![], 0, 0);
    v.visit_block(b);
    v.0.sort();
    (v.0, v.1, v.2)
}

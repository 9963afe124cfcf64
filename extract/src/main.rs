//! Mechanical extraction of functions of tchannel_rs into a Verus file.
//!
//! usage: vx --src DIR/src --expanded EXP.rs --contracts DIR --out OUT.rs --index OUT.json
//!           [--verify PATH,PATH,...|--verify-props C01,...] [--skip-body PATH,...]
//!
//! Bodies come from the source files (derived functions from the compiler's macro expansion), the
//! contracts from `*.vc` files keyed by function path. The rewrites applied to bodies are the ones
//! implemented in `rewrite.rs`; DESIGN.md lists them.
mod contracts;
mod emit;
mod load;
mod names;
mod rewrite;

use std::collections::BTreeSet;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let need = |n: &str| get(n).unwrap_or_else(|| { eprintln!("missing {}", n); std::process::exit(2) });
    let set = |n: &str| -> BTreeSet<String> { get(n).map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default() };
    let mut src = load::Krate::load_source(std::path::Path::new(&need("--src")));
    let exp = load::Krate::load_expanded(std::path::Path::new(&need("--expanded")));
    let mut cs = contracts::Contracts::load(std::path::Path::new(&need("--contracts")));
    for (p, f) in &cs.fns {
        let name = p.rsplit("::").next().unwrap().to_string();
        if f.flags.contains("futarg") { cs.futargs.insert(name.clone()); }
        if !f.flags.contains("world") { continue; }
        if let Some(d) = src.fns.get(p) {
            let n = d.sig.inputs.iter().filter(|a| !matches!(a, syn::FnArg::Receiver(_))).count();
            let name = f.flags.iter().find_map(|f| f.strip_prefix("inherent=")).map(|x| x.to_string()).unwrap_or(name);
            cs.worlds.insert((name, n), if f.flags.contains("async") { 2 } else if d.sig.asyncness.is_some() && !f.flags.contains("sync") { 0 } else { 1 });
        }
    }
    if args.iter().any(|a| a == "--list") {
        for (k, f) in &src.fns { println!("{} {}", k, if f.block.is_some() { "" } else { "(no body)" }); }
        println!("-- expanded only");
        for k in exp.fns.keys() { if !src.fns.contains_key(k) { println!("{}", k); } }
        return;
    }
    if let Some(p) = get("--write-names") { names::write(&p, &src, &exp, &cs); return; }
    let baseline = names::read(&std::path::Path::new(&need("--contracts")).join("names.txt"));
    let mut renamed = BTreeSet::new();
    for (p, f) in &cs.fns {
        if let Some(d) = src.fns.get_mut(p) { if names::restore(f, d, &baseline) { renamed.insert(p.clone()); } }
    }
    let opts = emit::Opts { renamed, verify: set("--verify"), props: set("--verify-props"), skip_body: set("--skip-body"), drop: set("--drop"), reach: args.iter().any(|a| a == "--reach") };
    let out = emit::emit(&src, &exp, &cs, &opts);
    std::fs::write(need("--out"), out.text).unwrap();
    std::fs::write(need("--index"), out.index).unwrap();
}

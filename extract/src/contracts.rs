//! Reader of contract files (`*.vc`).
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub path: String,
    pub props: BTreeSet<String>,
    pub flags: BTreeSet<String>,
    pub ret: String,
    pub spec: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    /// (where, name, k) -> text; where is before/after/start/tail/loopstart/loopend
    pub hints: BTreeMap<(String, String, usize), String>,
    /// argument type replaced in the signature: name -> type
    pub args: BTreeMap<String, String>,
    /// textual signature facade: a second `external_body` function emitted next to it
    pub order: usize,
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,
    /// items to emit in order: path, attribute text, text appended
    pub items: Vec<(String, String, String)>,
    pub modules: BTreeMap<String, String>,
    /// extra text at the beginning of an impl or trait block, by owner path
    pub impls: BTreeMap<String, String>,
    pub uses: BTreeMap<String, String>,
    pub worlds: BTreeMap<(String, usize), u8>,
    pub futargs: BTreeSet<String>,
}

impl Contracts {
    pub fn load(dir: &Path) -> Contracts {
        let mut c = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).expect("contracts dir").map(|e| e.unwrap().path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap();
            c.parse(&text, &f.display().to_string());
        }
        c
    }
    fn parse(&mut self, text: &str, file: &str) {
        enum Cur { None, Module(String), Item(usize), Impl(String), Fn(String, Sub) }
        enum Sub { None, Spec, Attrs, Loop(usize), Closure(usize), Hint((String, String, usize)) }
        let mut cur = Cur::None;
        for (no, line) in text.lines().enumerate() {
            let fail = |m: &str| -> ! { eprintln!("{}:{}: {}", file, no + 1, m); std::process::exit(2) };
            if line.starts_with("@#") { continue; }
            if let Some(rest) = line.strip_prefix("@@ ") {
                let (kind, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                let arg = arg.trim();
                cur = match kind {
                    "module" => Cur::Module(arg.into()),
                    "item" => {
                        let (p, a) = arg.split_once(' ').unwrap_or((arg, ""));
                        self.items.push((p.into(), a.trim().into(), String::new()));
                        Cur::Item(self.items.len() - 1)
                    }
                    "impl" => Cur::Impl(arg.into()),
                    "world" => {
                        // name/arity taking the ghost log when awaited, name/arity! in any case, name/arity* in any case and
                        // asynchronous in the verified text (the body of the task it starts is inlined)
                        for w in arg.split_whitespace() {
                            let (n, k) = w.split_once('/').unwrap_or_else(|| fail("world needs name/arity"));
                            self.worlds.insert((n.into(), k.trim_end_matches(['!', '*']).parse().unwrap()), if k.ends_with('*') { 2 } else if k.ends_with('!') { 1 } else { 0 });
                        }
                        Cur::None
                    }
                    "use" => {
                        let (a, b) = arg.split_once("=>").unwrap_or_else(|| fail("use needs =>"));
                        self.uses.insert(a.trim().into(), b.trim().into());
                        Cur::None
                    }
                    "fn" => {
                        // path may contain spaces inside <.. as ..>
                        let (path, opts) = match arg.find(" :: ") { Some(i) => (&arg[..i], &arg[i + 4..]), None => (arg, "") };
                        let mut f = FnC { path: path.trim().into(), ret: "r".into(), order: self.fns.len(), ..Default::default() };
                        for o in opts.split_whitespace() {
                            if let Some(p) = o.strip_prefix("props=") { f.props = p.split(',').map(|x| x.to_string()).collect(); }
                            else if let Some(p) = o.strip_prefix("ret=") { f.ret = p.into(); }
                            else { f.flags.insert(o.into()); }
                        }
                        if self.fns.contains_key(&f.path) { fail("duplicate fn"); }
                        let p = f.path.clone();
                        self.fns.insert(p.clone(), f);
                        Cur::Fn(p, Sub::None)
                    }
                    _ => fail("unknown section"),
                };
                continue;
            }
            if let (Some(rest), Cur::Fn(p, _)) = (line.strip_prefix("@ "), &cur) {
                let w: Vec<&str> = rest.split_whitespace().collect();
                let num = |i: usize| w.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
                let p = p.clone();
                let sub = match w[0] {
                    "spec" => Sub::Spec,
                    "attrs" => Sub::Attrs,
                    "loop" => Sub::Loop(num(1)),
                    "closure" => Sub::Closure(num(1)),
                    "arg" => { let (a, t) = rest[4..].split_once(':').unwrap(); self.fns.get_mut(&p).unwrap().args.insert(a.trim().into(), t.trim().into()); Sub::None }
                    "hint" => match w[1] {
                        "before" | "after" | "try" => Sub::Hint((w[1].into(), w[2].into(), num(3))),
                        x => Sub::Hint((x.into(), String::new(), num(2))),
                    },
                    _ => fail("unknown subsection"),
                };
                cur = Cur::Fn(p, sub);
                continue;
            }
            let push = |s: &mut String| { s.push_str(line); s.push('\n'); };
            match &cur {
                Cur::None => if !line.trim().is_empty() { fail("text outside of a section") },
                Cur::Module(m) => push(self.modules.entry(m.clone()).or_default()),
                Cur::Item(i) => push(&mut self.items[*i].2),
                Cur::Impl(p) => push(self.impls.entry(p.clone()).or_default()),
                Cur::Fn(p, sub) => {
                    let f = self.fns.get_mut(p).unwrap();
                    match sub {
                        Sub::None => if !line.trim().is_empty() { fail("text outside of a subsection") },
                        Sub::Spec => push(&mut f.spec),
                        Sub::Attrs => push(&mut f.attrs),
                        Sub::Loop(n) => push(f.loops.entry(*n).or_default()),
                        Sub::Closure(n) => push(f.closures.entry(*n).or_default()),
                        Sub::Hint(h) => push(f.hints.entry(h.clone()).or_default()),
                    }
                }
            }
        }
    }
}

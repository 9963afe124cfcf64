#[cfg(feature = "hooks")]
mod codec;
mod conn;
#[cfg(feature = "hooks")]
mod frag;
#[cfg(feature = "hooks")]
mod interleave;
mod msg;
mod net;
mod oracle;
mod pools;
mod shim;
mod srv;
mod tasks;
mod util;
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--only-case").and_then(|s| s.parse().ok());
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240 } else { 40 });
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let mut c = Ctx::new(seed, thorough, only, Duration::from_secs(budget));
    match prop.as_str() {
        #[cfg(feature = "hooks")]
        "C01" => codec::c01(&mut c),
        #[cfg(feature = "hooks")]
        "C02" => codec::c02(&mut c),
        #[cfg(feature = "hooks")]
        "C03" => codec::c03(&mut c),
        #[cfg(feature = "hooks")]
        "C04" => codec::c04(&mut c),
        #[cfg(feature = "hooks")]
        "C05" => codec::c05(&mut c),
        #[cfg(feature = "hooks")]
        "C06" => frag::c06(&mut c),
        #[cfg(feature = "hooks")]
        "C07" => frag::c07(&mut c),
        #[cfg(feature = "hooks")]
        "C08" => frag::c08(&mut c),
        #[cfg(feature = "hooks")]
        "C09" => frag::c09(&mut c),
        #[cfg(feature = "hooks")]
        "C10" => msg::c10(&mut c),
        "C11" => msg::c11(&mut c),
        "C12" => conn::c12(&mut c),
        "C13" => conn::c13(&mut c),
        "C14" => conn::c14(&mut c),
        "C15" => srv::c15(&mut c),
        "C16" => srv::c16(&mut c),
        "C17" => srv::c17(&mut c),
        "C18" => conn::c18(&mut c),
        "C20" => pools::c20(&mut c),
        "C21" => tasks::c21(&mut c),
        "shim" => shim::shim(&mut c),
        _ => {
            eprintln!("usage: vh C01..C21 --seed N --tier quick|thorough [--only-case N] [--budget SECONDS]");
            std::process::exit(2);
        }
    }
    let fails: Vec<String> = c.failures.iter().map(|(i, d, m)| {
        let cut = |s: &str| s.chars().take(600).collect::<String>();
        format!("{{\"case\":{},\"input\":{},\"failure\":{}}}", i, json_str(&cut(d)), json_str(&cut(m)))
    }).collect();
    let samples: Vec<String> = c.samples.iter().map(|s| json_str(s)).collect();
    println!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.2},\"samples\":[{}],\"failures\":[{}]}}",
        json_str(&prop), seed, json_str(if thorough { "thorough" } else { "quick" }), c.evaluations, c.seen.len(), start.elapsed().as_secs_f64(), samples.join(","), fails.join(",")
    );
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}

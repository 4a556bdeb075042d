#![allow(dead_code, unused_imports)]
mod ctx;
mod spec;
mod p_arena; mod p_cache; mod p_coding; mod p_format; mod p_hash; mod p_list; mod p_log; mod p_misc; mod p_order;
use ctx::*;
use std::sync::atomic::Ordering;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let val = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(0).cloned().unwrap_or_default();
    let seed: u64 = val("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = val("--tier").as_deref() == Some("thorough");
    let only = val("--only").and_then(|s| s.parse().ok());
    let progress = val("--progress").and_then(|p| std::fs::File::create(p).ok());
    let run: fn(&mut Ctx) = match id.as_str() {
        "C01" => p_coding::c01, "C02" => p_coding::c02, "C03" => p_coding::c03, "C04" => p_coding::c04,
        "C05" => p_hash::c05, "C06" => p_hash::c06, "C07" => p_hash::c07, "C08" => p_hash::c08,
        "C09" => p_order::c09, "C10" => p_order::c10,
        "C11" => p_arena::c11, "C12" => p_list::c12, "C13" => p_cache::c13, "C14" => p_cache::c14, "C15" => p_list::c15,
        "C16" => p_log::c16, "C17" => p_log::c17, "C18" => p_log::c18,
        "C19" => p_format::c19, "C20" => p_format::c20, "C21" => p_format::c21,
        "C22" => p_misc::c22, "C23" => p_misc::c23, "C24" => p_misc::c24, "C25" => p_misc::c25, "C26" => p_misc::c26,
        "C27" => p_arena::c27,
        _ => { eprintln!("unknown property {}", id); std::process::exit(3) }
    };
    if !args.iter().any(|a| a == "--loud") { std::panic::set_hook(Box::new(|_| {})); }
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last || CURRENT.load(Ordering::Relaxed) == u64::MAX { last = b; since = std::time::Instant::now(); }
            else if since.elapsed().as_secs() >= 60 {
                println!("HANG {}", CURRENT.load(Ordering::Relaxed));
                std::process::exit(4);
            }
        }
    });
    let mut c = Ctx::new(seed, thorough, only, args.iter().any(|a| a == "--describe"), progress);
    // deep recursion is not expected anywhere, but case bodies hold big arrays
    run(&mut c);
    for (n, k) in &c.families { println!("FAMILY {}\t{}", k, n); }
    for s in &c.samples { println!("SAMPLE {}", s); }
    for (i, d, m) in &c.failures { println!("FAIL {}\t{}\t{}", i, clip(&one_line(d), 4000), clip(&one_line(m), 4000)); }
    for (i, k, d, m) in &c.knowns { println!("KNOWN {}\t{}\t{}\t{}", i, k, clip(&one_line(d), 1000), clip(&one_line(m), 1000)); }
    println!("RAN {} INSPECT {}", c.ran, cfg!(verif_inspect));
    std::process::exit(if c.failures.is_empty() { 0 } else { 2 });
}

//! The command line shared by the binaries.

use crate::engine::*;

fn usage() -> ! {
    eprintln!("usage: vharness check <ID> <quick|thorough> [--facet NAME] [--scale X] | replay <file> | list | facets <ID>");
    std::process::exit(2)
}

/// The command line, for the given properties. `other` handles commands of one binary only.
pub fn run(all: fn() -> Vec<Property>, other: fn(&str) -> Option<i32>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    install_crash_handler(&root);
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in all() {
                println!("{}", p.id);
            }
        }
        Some("literals") => print!("{}", crate::lit::listing()),
        Some("check") if args.len() >= 3 => {
            let p = all().into_iter().find(|p| p.id == args[1]).unwrap_or_else(|| usage());
            let tier = args[2].clone();
            if tier != "quick" && tier != "thorough" {
                usage();
            }
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
            let mut cfg = RunCfg { root, max_s: if tier == "quick" { 420 } else { 3000 }, tier, seed, scale: 1.0, only_facet: None };
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--facet" => cfg.only_facet = args.get(i + 1).cloned(),
                    "--scale" => cfg.scale = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(1.0),
                    "--max" => cfg.max_s = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(3000),
                    _ => usage(),
                }
                i += 2;
            }
            std::process::exit(run_property(&p, &cfg));
        }
        Some("replay") if args.len() == 2 => {
            let body = std::fs::read_to_string(&args[1]).unwrap_or_else(|e| {
                eprintln!("{e}");
                std::process::exit(2)
            });
            let get = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.to_string())).unwrap_or_default();
            // The cases of a process-ending replay are drawn again from the seed, with the source's own dictionary.
            if get("kind") != "crash" {
                crate::lit::load(&get("new-texts"), &get("new-numbers"));
            }
            let id = get("property");
            let fname = get("facet");
            let index: u64 = get("index").parse().unwrap_or(0);
            let p = all().into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
            let f = p.facets.iter().find(|f| f.name == fname).unwrap_or_else(|| usage());
            let mut last = Ok(());
            REPLAYING.store(true, std::sync::atomic::Ordering::SeqCst);
            // The code under test draws its own randomness (nonces), so try a few times.
            for _ in 0..20 {
                let mut src = if get("tape").is_empty() && !get("seed").is_empty() {
                    Src::random(case_seed(get("seed").parse().unwrap_or(1), &id, &fname, index), index)
                } else {
                    Src::replay(&unhex(&get("tape")), index)
                };
                let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                last = run_case(f.f, &mut src, &mut ctx);
                if let Some(d) = &ctx.desc {
                    println!("case: {d}");
                }
                if last.is_err() {
                    break;
                }
            }
            match last {
                Err(e) => {
                    println!("reproduced: [{}] {}", e.kind, e.msg);
                    println!("VIOLATION property={} replay={}", id, args[1]);
                    std::process::exit(1);
                }
                Ok(()) => println!("not reproduced: the property holds on this case"),
            }
        }
        Some(x) => match other(x) {
            Some(rc) => std::process::exit(rc),
            None => usage(),
        },
        None => usage(),
    }
}

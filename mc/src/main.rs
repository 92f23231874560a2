mod choose;
mod ctx;
mod fixtures;
mod fx;
mod mpq;
mod props;
mod rp;
mod sm;
mod spec;

#[global_allocator]
static ALLOC: ctx::Guarded = ctx::Guarded;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    ctx::install_hook();
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = args.get(1).expect("property").clone();
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            if let Some(i) = args.iter().position(|a| a == "--tier") {
                tier = args[i + 1].clone();
            }
            ctx::set_property(&prop);
            let cx = ctx::Ctx::new(&prop, tier == "thorough");
            ctx::watch(if cx.thorough { 3600 } else { 300 });
            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&cx))) {
                let _ = e;
                let what = ctx::LOOSE.lock().map(|l| l.clone()).unwrap_or_default();
                // On inputs the code under test accepts, the preparations do not fail; where the
                // system did not (no space, no memory, no permission), the code did.
                if !what.is_empty() && !["Os {", "No space", "os error", "failed to spawn"].iter().any(|w| what.contains(w)) {
                    ctx::emergency("a valid input cannot be prepared", &what);
                }
                // The machinery itself failed: no verdict.
                eprintln!("check machinery failed");
                std::process::exit(3);
            }
            std::process::exit(cx.finish());
        }
        Some("worker") => props::worker(&args[1..]),
        Some("fixtures") => fixtures::write(std::path::Path::new(&args[1])),
        Some("list") => props::ALL.iter().for_each(|p| println!("{}", p.0)),
        _ => {
            eprintln!("usage: mc check <property> [--tier quick|thorough] | mc list");
            std::process::exit(2);
        }
    }
}

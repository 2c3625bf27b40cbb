//! pv: the property checks of /verif. `pv check ID`, `pv replay FILE`.
mod cli;
mod dict;
mod framework;
mod gen;
mod generator;
mod intl;
mod oracle;
mod parser;
mod tool;

use framework::Ctx;

fn run(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "C01" => intl::c01_c02(ctx, false),
        "C02" => intl::c01_c02(ctx, true),
        "C03" => intl::c03(ctx),
        "C04" => intl::c04(ctx),
        "C05" => intl::c05(ctx),
        "C06" => intl::c06(ctx),
        "C07" => intl::c07(ctx),
        "C08" => intl::c08(ctx),
        "C09" => intl::c09(ctx),
        "C10" => parser::c10(ctx),
        "C11" => parser::c11(ctx),
        "C12" => parser::c12(ctx),
        "C13" => parser::c13(ctx),
        "C14" => generator::c14(ctx),
        "C15" => generator::c15(ctx),
        "C16" => generator::c16(ctx),
        "C17" => generator::c17(ctx),
        "C18" => cli::c18(ctx),
        "C19" => cli::c19(ctx),
        _ => return false,
    }
    true
}

fn main() {
    // Panics of the code under test are caught and reported as findings; harness panics carry HARNESS.
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if m.contains("HARNESS") {
            eprintln!("{}", m);
            std::process::exit(3);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let ctx = Ctx::new(&args[2], thorough, seed, None);
            if run(&ctx) {
                ctx.finish(true)
            } else {
                eprintln!("unknown property {}", args[2]);
                2
            }
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("HARNESS: replay file")).expect("HARNESS: replay file");
            let id = v["property"].as_str().expect("HARNESS: replay file").to_string();
            let ctx = Ctx::new(
                &id,
                v["thorough"].as_bool().unwrap_or(false),
                v["seed"].as_u64().unwrap_or(1),
                Some((v["sub"].as_str().expect("HARNESS: replay file").to_string(), v["value"].clone())),
            );
            run(&ctx);
            ctx.finish(false)
        }
        Some("gen-known") => {
            intl::gen_known();
            0
        }
        Some("dict") => {
            dict::print();
            0
        }
        Some("gen") => {
            generator::gen_main();
            0
        }
        Some("start") => {
            intl::start_main();
            0
        }
        Some("fresh") => {
            intl::fresh_main(&args[2..]);
            0
        }
        _ => {
            eprintln!("usage: pv check ID | pv replay FILE");
            2
        }
    };
    std::process::exit(code);
}

#[path = "../../pbt/src/runner.rs"]
#[allow(dead_code)]
mod runner;
mod many;
mod script;
mod site;

use runner::{replay, search, Budget};
use std::time::Duration;

fn main() {
    std::env::set_var("SMOL_THREADS", "4");
    std::env::set_var("ASYNC_STD_THREAD_COUNT", "4");
    let args: Vec<String> = std::env::args().collect();
    runner::install_hooks();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") if args.len() > 2 => {
            let file = &args[2];
            let v: serde_json::Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
            let p = v["property"].as_str().unwrap_or_default().to_string();
            match v["engine"].as_str() {
                Some("executors") => replay(&script::Script, &p, file, &v["case"]),
                Some("executors-mixed") => replay(&many::Many, &p, file, &v["case"]),
                _ => {
                    eprintln!("{file}: not a case of this program");
                    std::process::exit(2)
                }
            }
        }
        Some("C24") => {
            let tier = args.get(2).cloned().unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let mut rep = runner::Report::new("C24", &tier, seed);
            let (n, t) = if tier == "thorough" { (400_000, 250) } else { (4_000, 60) };
            search(&mut rep, &script::Script, &Budget { cases: n, time: Duration::from_secs(t) });
            search(&mut rep, &many::Many, &Budget { cases: 2 * n, time: Duration::from_secs(t) });
            rep.write(0);
            println!("C24: held on everything explored ({:.1} s)", rep.start.elapsed().as_secs_f64());
        }
        _ => {
            eprintln!("usage: exec C24 [quick|thorough] | exec replay <file>");
            std::process::exit(2)
        }
    }
}

mod checks;
mod conc;
mod derive;
mod ident;
mod plain;
mod real;
mod reent;
mod runner;
mod sched;
mod seq;
mod spans;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    runner::install_hooks();
    let usage = || -> ! {
        eprintln!("usage: pbt <property> [quick|thorough] | pbt replay <file>");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let Some(file) = args.get(2) else { usage() };
            let v: serde_json::Value = match std::fs::read_to_string(file).map(|s| serde_json::from_str(&s)) {
                Ok(Ok(v)) => v,
                _ => {
                    eprintln!("cannot read {file}");
                    std::process::exit(2)
                }
            };
            let s = |k: &str| v[k].as_str().unwrap_or_default().to_string();
            checks::replay(&s("property"), &s("engine"), file, &v["case"])
        }
        Some(p) => {
            let tier = args
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let mut rep = runner::Report::new(p, &tier, seed);
            checks::run(&mut rep);
            rep.write(0);
            println!("{p}: held on everything explored ({:.1} s)", rep.start.elapsed().as_secs_f64());
        }
        None => usage(),
    }
}

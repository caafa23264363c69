//! Mechanical extraction of the crate under /repo into one Verus file.
//!
//! usage: extract <repo-src-main.rs> <overlay-dir> <out.rs> <out-map.json> [--strict] [--external KEY]...
//!
//! The text of every function body that reaches the verifier is the text parsed
//! from the repository on this run.  The overlay only contributes contracts,
//! ghost code, loop invariants and the trusted run-time prelude.
//! What the extraction drops or rewrites is listed in DESIGN.md ("Extraction").
mod load;
mod macros;
mod overlay;
mod norm;
mod pre;
mod inline;
mod emit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract main.rs overlay-dir out.rs map.json [--strict] [--external KEY]...");
        std::process::exit(2);
    }
    let mut opts = emit::Opts::default();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--strict" => opts.strict = true,
            "--nonlinear" => {
                i += 1;
                opts.nonlinear.insert(args[i].clone());
            }
            "--external" => {
                i += 1;
                opts.external.insert(args[i].clone());
            }
            "--nocontract" => {
                i += 1;
                opts.nocontract.insert(args[i].clone());
            }
            "--nodec" => {
                i += 1;
                opts.nodec.insert(args[i].clone());
            }
            "--vacuity" => {
                i += 1;
                opts.vacuity = args[i].clone();
            }
            "--noinline" => opts.noinline = true,
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let ov = overlay::load(&args[2]).unwrap_or_else(|e| {
        eprintln!("overlay: {}", e);
        std::process::exit(2);
    });
    let mut krate = load::load(&args[1]).unwrap_or_else(|e| {
        eprintln!("source: {}", e);
        std::process::exit(3);
    });
    macros::run(&mut krate);
    pre::run(&mut krate);
    let display = norm::display(&mut krate);
    norm::run(&mut krate);
    let mut report = if opts.noinline { inline::Report::default() } else { inline::run(&mut krate, &ov) };
    report.display = display;
    norm::arith(&mut krate);
    let (text, map) = emit::emit(&krate, &ov, &opts, &report);
    std::fs::write(&args[3], text).unwrap();
    std::fs::write(&args[4], map).unwrap();
}

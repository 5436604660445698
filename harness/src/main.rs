//! simcheck: deterministic simulation of bumaga views with fault injection.
//!
//!   check PROP             explores runs of the property, writes evidence and replay files
//!   replay FILE            reproduces a recorded violation
//!   traces PROP FROM TO    digests of runs (used by the test of determinism)
//!   show PROP BASE RUN     prints the scenario and its verdict
mod anim;
mod bind;
mod casc;
mod check;
mod exec;
mod gen;
mod ptr;
mod rng;
mod scenario;
mod shrink;
mod sim;

fn number(args: &[String], i: usize) -> u64 {
    args.get(i)
        .and_then(|arg| arg.parse().ok())
        .unwrap_or_else(|| panic!("harness: argument {i} must be a number"))
}

fn main() {
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let code = match arg(1).as_str() {
        "check" => check::check(&arg(2)),
        "worker" => check::worker(
            &arg(2),
            number(&args, 3),
            number(&args, 4),
            number(&args, 5),
            number(&args, 6),
        ),
        "eval" => check::eval(&arg(2), number(&args, 3)),
        "shrink" => check::minimise(&arg(2), &arg(3), &arg(4), number(&args, 5)),
        "replay" => check::replay(&arg(2)),
        "traces" => check::traces(&arg(2), number(&args, 3), number(&args, 4)),
        "show" => check::show(&arg(2), number(&args, 3), number(&args, 4)),
        "showfile" => check::show_file(&arg(2)),
        _ => {
            eprintln!("usage: simcheck check PROP | replay FILE | traces PROP FROM TO | show PROP BASE RUN");
            2
        }
    };
    std::process::exit(code);
}

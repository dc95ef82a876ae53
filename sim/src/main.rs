mod alloc;
mod case;
mod clock;
mod disk;
mod exec;
mod gen;
mod geom;
mod listener;
mod props;
mod rng;
mod snap;
mod runner;
mod user;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    runner::install_panic_hook();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let rc = match arg(1) {
        "check" => runner::check(arg(2), if arg(3).is_empty() { "quick" } else { arg(3) }),
        "worker" => runner::worker(&a[2..]),
        "exec" => runner::exec_stdin(),
        "replay" => runner::replay(arg(2)),
        "digests" => runner::digests(
            arg(2),
            arg(3).parse().unwrap_or(1),
            arg(4).parse().unwrap_or(0),
            arg(5).parse().unwrap_or(10),
            arg(6) == "thorough",
        ),
        "gen" => {
            let p = props::find(arg(2)).expect("property");
            let c = (p.gen)(runner::run_seed(arg(3).parse().unwrap(), arg(2), arg(4).parse().unwrap()), arg(5) == "thorough");
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        "trace" => {
            // Development aid: body states after every operation of a replay file.
            let r: runner::Replay = serde_json::from_str(&std::fs::read_to_string(arg(2)).unwrap()).unwrap();
            exec::trace(&r.case);
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: sim check ID [quick|thorough] | replay FILE | digests ID SEED FROM COUNT | gen ID SEED INDEX | list");
            2
        }
    };
    std::process::exit(rc);
}

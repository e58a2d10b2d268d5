mod custom;
mod engine;
mod families;
mod first;
mod interpreted;
mod memory;
mod model;
mod normtable;
mod oracle;
mod preempt;
mod props;
mod real;
mod report;
mod scale;
mod shared;
mod texts;
mod windows;
mod work;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    std::process::exit(match prop.as_str() {
        "replay" => props::replay(&args[2]),
        "digest" => props::digest(&args[2], &args[3]),
        "dump" => props::dump(&args[2], args[3].parse().unwrap()),
        "C23" => props::compare_digests(&args[2..]),
        "alone" => custom::isolation_alone(args[2].parse().unwrap()),
        "first" => first::run(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap()),
        "crowd" => {
            let n: Vec<usize> = args[2..6].iter().map(|a| a.parse().unwrap()).collect();
            memory::crowd(n[0], n[1], n[2], n[3])
        },
        "work" => work::count(args[2].parse().unwrap(), args[3].parse().unwrap(), args.get(4).is_some_and(|t| t == "thorough")),
        "C28" => work::verdict(&args[2..]),
        "C22" => props::sanitized(),
        "miri" | "answers" => interpreted::run(
            args[2].parse().unwrap(),
            args[3].parse().unwrap(),
            args.get(4).is_some_and(|t| t == "thorough"),
            prop == "answers",
        ),
        _ => {
            let only = args
                .iter()
                .position(|a| a == "--job")
                .map(|i| args[i + 1].parse().unwrap());
            props::run(&prop, only)
        },
    });
}

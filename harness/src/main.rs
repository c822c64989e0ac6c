mod alloc;
mod font;
mod props;
mod registry;
mod rng;
mod run;
mod spec;
mod tags;
mod tape;
mod vals;
mod value;

#[cfg(not(any(miri, sanitized)))]
#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let mut config = run::Config {
        property: String::new(),
        seed: 1,
        thorough: false,
        threads: 8,
        cases: u64::MAX,
        secs: 20.0,
        only: None,
        out: "-".into(),
        progress: None,
        digests: None,
        stock: None,
    };
    let mut arguments = std::env::args().skip(1);
    while let Some(name) = arguments.next() {
        let mut value = || arguments.next().expect("a value is missing");
        match &*name {
            "--seed" => config.seed = value().parse().expect("seed"),
            "--tier" => config.thorough = value() == "thorough",
            "--threads" => config.threads = value().parse().expect("threads"),
            "--cases" => config.cases = value().parse().expect("cases"),
            "--secs" => config.secs = value().parse().expect("secs"),
            "--case" => config.only = Some(value().parse().expect("case")),
            "--out" => config.out = value(),
            "--progress" => config.progress = Some(value()),
            "--stock" => config.stock = Some(value()),
            "--small" => run::SMALL.store(true, std::sync::atomic::Ordering::Relaxed),
            "--digests" => config.digests = Some(value()),
            _ => config.property = name,
        }
    }
    let Some(case) = props::find(&config.property) else {
        eprintln!("unknown property {:?}", config.property);
        std::process::exit(2);
    };
    if config.only.is_some() {
        config.threads = 1;
    }
    run::run(&config, case);
}

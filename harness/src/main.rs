mod enc;
mod full;
mod run;
mod threads;

/// formats every record and forgets it
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{} {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}

fn main() {
    if let Ok(level) = std::env::var("VERIF_LOG") {
        log::set_logger(&Sink).unwrap();
        log::set_max_level(level.parse().unwrap());
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run::run_file(&args[2], &args[3]),
        Some("full") => full::run_file(&args[2], &args[3]),
        Some("long") => full::long_file(&args[2], &args[3]),
        Some("threads") => threads::run_file(&args[2], &args[3]),
        other => {
            eprintln!("unknown subcommand {other:?}");
            std::process::exit(2);
        }
    }
}

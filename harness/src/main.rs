//! Runs the monitors of one property over one build of the crates of /repo.
//!
//! monitor <property> <output directory> <shard> <shards> [<phase> <case>]

mod util;
mod text;
mod tags;
mod c01;
mod c03;
mod c04;
mod c07;
mod c12;
mod c14;
mod c15;
#[cfg(feature = "sync")]
mod c17;
mod c19;
mod cmd;
mod gen;
mod mem;
mod oracle;
mod pat;
mod repo;

use std::time::Duration;
use util::*;

#[cfg(feature = "logging")]
struct Sink;

#[cfg(feature = "logging")]
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        // Every message is really formatted, so that logging that panics or changes state is noticed.
        use std::fmt::Write;
        let mut line = String::new();
        let _ = write!(line, "{} {}", record.level(), record.args());
        std::hint::black_box(&line);
    }
    fn flush(&self) {}
}

fn main() {
    #[cfg(feature = "logging")]
    {
        static SINK: Sink = Sink;
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    }
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let out = std::path::PathBuf::from(&args[2]);
    std::fs::create_dir_all(&out).expect("output directory");
    let shard: u64 = args[3].parse().unwrap();
    let shards: u64 = args[4].parse().unwrap();
    let only = args.get(5).map(|p| (p.clone(), args[6].parse().unwrap()));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let budget = std::env::var("MONITOR_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 1200 } else { 150 });
    let mut ctx = Ctx::new(
        &prop,
        thorough,
        seed,
        shard,
        shards,
        only,
        out,
        Duration::from_secs(budget),
    );
    // A panic outside every case: what the workload needs before its first case already fails.
    if let Err(message) = guarded(|| run(&prop, &mut ctx)) {
        ctx.enter("setup", 0);
        ctx.fail(message);
    }
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    ctx.write_result();
}

/// C18: the workloads of the other properties, recorded. Builds with other features have to give the same transcript.
fn recorded(ctx: &mut Ctx) {
    const SHARES: [(&str, u64); 16] = [
        ("C01", 8),
        ("C03", 4),
        ("C04", 5),
        ("C05", 5),
        ("C06", 5),
        ("C07", 8),
        ("C08", 8),
        ("C09", 8),
        ("C10", 8),
        ("C11", 12),
        ("C12", 8),
        ("C13", 8),
        ("C14", 10),
        ("C15", 10),
        ("C16", 8),
        ("C19", 5),
    ];
    for (prop, share) in SHARES {
        ctx.prop = prop.to_string();
        ctx.recorded = Some((prop.to_string(), share));
        run(prop, ctx);
    }
    ctx.recorded = None;
    ctx.prop = "C18".to_string();
}

fn run(prop: &str, ctx: &mut Ctx) {
    match prop {
        "C01" | "C02" => c01::run(ctx),
        "C03" => c03::run(ctx),
        "C12" | "C13" => c12::run(ctx),
        "C04" | "C05" | "C06" => c04::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        #[cfg(feature = "sync")]
        "C17" => c17::run(ctx),
        "C18" => recorded(ctx),
        "C19" => c19::run(ctx),
        "C07" | "C08" | "C09" | "C10" | "C11" | "C16" => c07::run(ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3);
        }
    }
}

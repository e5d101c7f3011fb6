mod audit;
mod check;
mod entropy;
mod gen;
mod oracle;
mod peers;
mod plan;
mod rng;
mod run;
mod snap;
mod store;
mod suite;
mod threads;
mod tracer;
mod types;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    tracer::install();
    std::process::exit(check::main(&args));
}

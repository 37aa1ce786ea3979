mod engine;
mod fuzz;
mod gen;
mod model;
mod near;
mod props;
mod refty;
mod refyaml;
mod runner;
mod scalar;
mod ty;
mod writer;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1..).unwrap_or(&[]) {
        ["run", id] => runner::run(id),
        ["worker", id, shard, n, out] => runner::worker(id, shard.parse().unwrap(), n.parse().unwrap(), out),
        ["case", id, sub, choices] => runner::case(id, sub, choices),
        ["replay", file] => runner::replay(file),
        ["stats", id, sub, n] => runner::stats(id, sub, n.parse().unwrap()),
        ["list"] => {
            for p in props::all() {
                println!("{} {:?}", p.id, p.subs.iter().map(|s| (s.name, s.quick)).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: vharness run ID | replay FILE | stats ID SUB N | list");
            2
        }
    };
    std::process::exit(code);
}

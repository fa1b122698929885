mod alloc;
mod ctx;
mod dict;
mod model;
mod orch;
mod props;
mod rng;
mod xml;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let code = match a.get(1).map(|s| s.as_str()) {
    Some("run") => orch::run(&a[2..]),
    Some("worker") => orch::worker(&a[2..]),
    Some("replay") => orch::replay(&a[2..]),
    Some("literals") => {
      dict::print();
      0
    }
    Some("probe") => props::probe(&a[2..]),
    _ => {
      eprintln!("usage: lawmon run PROP TIER SEED | replay FILE");
      2
    }
  };
  std::process::exit(code);
}

mod conc;
mod graph;
mod seq;
mod val;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  match args.get(1).map(|s| s.as_str()) {
    Some("seq") => seq::main(&args[2..]),
    Some("conc") => conc::main(&args[2..]),
    _ => {
      eprintln!("usage: rxh seq|conc SCENARIOS TRACES");
      std::process::exit(2);
    }
  }
}

extern crate la;
extern crate num;
mod alloc;
mod decomp;
mod exec;
mod fam;
mod hist;
mod json;
mod numeric;
mod purity;
mod replay;
mod rng;
mod text;
mod watch;

#[global_allocator]
static A: alloc::Poison = alloc::Poison;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let crumb = std::env::var("VP_CRUMB").ok();
    let limit = std::env::var("VP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let w = watch::Watch::start(limit, crumb.as_ref().map(|s| s.as_str()));
    let code = match args[1].as_str() {
        "replay" => if replay::replay(&args[2], &w).1 > 0 { 1 } else { 0 },
        "hist" => { hist::record(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5], &w); 0 }
        "every" => { decomp::record_every(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5], &w); 0 }
        "decomp" => { decomp::record(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), &args[6], &w); 0 }
        "numeric" => { numeric::record(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5], &w); 0 }
        "purity" => { purity::record(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4], &args[5], &w); 0 }
        "pure-child" => { purity::child(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4]); 0 }
        "text" => if text::replay(&args[2], &w) > 0 { 1 } else { 0 },
        "render" => { text::record(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4], &w); 0 }
        "print-child" => { text::child(args[2].parse().unwrap(), args[3].parse().unwrap()); 0 }
        _ => { eprintln!("unknown command"); 2 }
    };
    w.done();
    std::process::exit(code);
}

#![allow(static_mut_refs, clippy::all)]
mod fu;
mod inter;
mod ops;
mod order;
mod seq;
mod step;
mod sys;
mod threads;
mod uninit;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(1);
    let scale: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(1);
    step::init();
    let mut e = seq::Env { arena: sys::Arena::new(), tab: ops::table(), rng: util::Rng::new(seed), debug: cfg!(debug_assertions), scale };
    match cmd {
        "seq" => seq::seq(&mut e, 24 * scale, "seq"),
        "casbits" => seq::casbits(&mut e),
        "readonly" => seq::readonly(&mut e, 8 * scale),
        "footprint" => seq::footprint(&mut e, 8 * scale),
        "interleave" => inter::interleave(&mut e, 3 * scale, false),
        "handlers" => inter::interleave(&mut e, 3 * scale, true),
        "order" => order::order(&mut e),
        "spin" => order::spin(&mut e),
        "sctrace" => order::sctrace(&mut e),
        "fu" => fu::fu(&mut e),
        "chain" => threads::chain(&mut e, false),
        "fuchain" => threads::chain(&mut e, true),
        "lin" => threads::lin(&mut e),
        "lanes" => threads::lanes(&mut e),
        "litmus" => threads::litmus(&mut e),
        "uninit" => uninit::uninit(&mut e),
        "vbits" => uninit::vbits(&mut e),
        "panics" => seq::panics(&mut e),
        _ => {
            eprintln!("unknown command");
            std::process::exit(2)
        }
    }
    util::stat("violations", util::VIOLATIONS.load(std::sync::atomic::Ordering::Relaxed));
    println!("DONE");
}

#[macro_use]
mod engine;
mod setting;
mod alloc;
mod clock;
mod conc;
mod crowd;
mod dict;
mod gen;
mod meta;
mod promtext;
mod regs;
mod scale;
mod turns;
mod watch;
mod world;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;

use engine::{Check, Tier};

#[global_allocator]
static ALLOC: alloc::Tracking = alloc::Tracking;

fn checks() -> Vec<fn() -> Check> {
    vec![c01::check, c02::check, c03::check, c04::check, c05::check, c06::check, c07::check, c08::check, c09::check, c10::check, c11::check, c12::check, c13::check, c14::check, c15::check, c16::check, c17::check, c18::check, c19::check, c20::check, c21::check, c22::check, c23::check, c24::check, c25::check, c26::check, c27::check, c28::check]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::install_hook();
    let find = |id: &str| {
        checks().into_iter().map(|c| c()).find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no check {}", id);
            std::process::exit(2)
        })
    };
    match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
            let code = engine::run_check(&find(id), seed, tier);
            std::process::exit(code);
        }
        ["replay", file] => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let check = find(v["property"].as_str().unwrap());
            *engine::CURRENT.lock().unwrap() = check.id;
            let sub = check.subs.iter().find(|s| s.name() == v["sub"].as_str().unwrap()).expect("no such sub-check");
            // A case that ended the process is saved without its setting.
            let settings = v["setting"].as_str().map_or(setting::ALL.to_vec(), |s| vec![setting::parse(s)]);
            match sub.replay(&v["case"], &settings) {
                Ok((Ok(()), known)) if known.is_empty() => println!("holds"),
                Ok((Ok(()), known)) => println!("known finding: {}", known.join(", ")),
                Ok((Err(m), _)) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", check.id, file);
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("{}", e);
                    std::process::exit(2);
                }
            }
        }
        ["case", id, sub, setting] => engine::case_process(&find(id), sub, setting::parse(setting)),
        ["order"] => c02::order_process(),
        ["dict"] => println!("{:#?}", dict::get()),
        ["probe"] => c22::probe(),
        ["burn", ms] => c22::burn(ms.parse().unwrap()),
        _ => {
            eprintln!("usage: harness check ID | replay FILE");
            std::process::exit(2);
        }
    }
}

//! Bounded exhaustive checking of the orderbook contract. See /verif/DESIGN.md.
mod cost;
#[cfg(feature = "direct")]
mod direct;
mod explore;
mod grids;
mod init;
mod model;
mod oracle;
mod par;
mod price;
mod props;
mod report;
mod scripts;
mod store;
mod world;

fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => {
            let th = a.get(3).map_or(false, |x| x == "thorough");
            report::check(&a[2], th)
        }
        Some("replay") if a.len() > 2 => report::replay_file(&a[2]),
        Some("ids") => {
            for i in report::IDS {
                println!("{i}");
            }
            0
        }
        _ => {
            eprintln!("mc check <id> [quick|thorough] | mc replay <file>");
            2
        }
    };
    std::process::exit(code)
}

mod blk;
mod chain;
mod data;
mod enc;
mod helper;
mod out;
mod proof;
mod same;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "E01" => enc::e01(),
        "E02" => enc::e02(),
        "E03" => enc::e03(),
        "C05" => data::c05(),
        "C06" => chain::c06(),
        "C07" => chain::c07(),
        "C08" => out::c08(),
        "C09" => proof::c09(),
        "C10" => same::c10(),
        "C11" => helper::c11(),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

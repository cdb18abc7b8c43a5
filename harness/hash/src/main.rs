mod composite;
mod curve;
mod direct;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "H01" => direct::h01(),
        "H02" => direct::h02(),
        "H03" => composite::h03(),
        "H04" => curve::run(false),
        "H05" => curve::run(true),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

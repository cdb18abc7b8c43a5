mod bitmap;
mod bls;
mod h2g;
mod ybit;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => bitmap::c01(),
        "C02" => ybit::c02(),
        "C03" => h2g::c03(),
        "C04" => bls::c04(),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

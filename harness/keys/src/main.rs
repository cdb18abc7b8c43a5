mod batch;
mod cache;
mod common;
mod enc;
mod keygen;
mod single;
mod weighted;
fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "K01" => single::k01(),
        "K02" => single::k02(),
        "K03" => single::k03(),
        "K04" => single::k04(),
        "K05" => batch::k05(),
        "K06" => enc::k06(),
        "K07" => cache::k07(),
        "K08" => keygen::k08(),
        "K09" => weighted::k09(),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

mod api;
#[cfg(feature = "sys")]
#[allow(improper_ctypes)]
mod sys;
mod tell;
mod golden;
mod gen;
#[cfg(feature = "sys")]
mod f01;
#[cfg(feature = "sys")]
mod f02;
#[cfg(feature = "sys")]
mod f03;
#[cfg(feature = "sys")]
mod f04;
mod f05;
mod f06;
#[cfg(feature = "sys")]
mod k08;
#[cfg(feature = "watch")]
mod k10;
#[cfg(feature = "watch")]
mod watch;
#[cfg(feature = "watch")]
#[global_allocator]
static WATCH: watch::Watch = watch::Watch;
fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        #[cfg(feature = "sys")]
        "F01" => f01::f01(),
        #[cfg(feature = "sys")]
        "F02" => f02::f02(),
        #[cfg(feature = "sys")]
        "F02-miri" => f02::miri(),
        #[cfg(feature = "sys")]
        "F03" => f03::f03(),
        #[cfg(feature = "sys")]
        "F04" => f04::f04(),
        #[cfg(feature = "sys")]
        "F04-fresh" => f04::fresh(),
        #[cfg(feature = "sys")]
        "F05" => f05::f05(),
        "F06" => f06::f06(),
        #[cfg(feature = "sys")]
        "K08" => k08::k08(),
        #[cfg(feature = "sys")]
        "K08-fresh" => k08::fresh(),
        #[cfg(feature = "watch")]
        "K10" => k10::k10(),
        x => panic!("{}", x),
    }
}

//! Stand-in for `ark-std` (API of early 2021) used only by the verification harness.
pub use std::*;
pub use rand;

/// ceil(log2(x)), 0 for x <= 1
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        63 - (x as u64).leading_zeros()
    } else {
        64 - (x as u64).leading_zeros()
    }
}

pub fn test_rng() -> rand::rngs::StdRng {
    use rand::SeedableRng;
    rand::rngs::StdRng::from_seed([
        1, 0, 0, 0, 23, 0, 0, 0, 200, 1, 0, 0, 210, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
        0, 0, 0, 0,
    ])
}

pub mod perf_trace {
    pub struct TimerInfo {
        pub msg: &'static str,
    }
}

#[macro_export]
macro_rules! start_timer {
    ($msg:expr) => {{
        let _ = $msg;
        $crate::perf_trace::TimerInfo { msg: "" }
    }};
}
#[macro_export]
macro_rules! end_timer {
    ($time:expr) => {{
        let _ = $time;
    }};
    ($time:expr, $msg:expr) => {{
        let _ = $time;
        let _ = $msg;
    }};
}
#[macro_export]
macro_rules! add_to_trace {
    ($title:expr, $msg:expr) => {{
        let _ = ($title, $msg);
    }};
}
#[macro_export]
macro_rules! cfg_iter {
    ($e: expr) => {
        $e.iter()
    };
}
#[macro_export]
macro_rules! cfg_iter_mut {
    ($e: expr) => {
        $e.iter_mut()
    };
}
#[macro_export]
macro_rules! cfg_into_iter {
    ($e: expr) => {
        $e.into_iter()
    };
}

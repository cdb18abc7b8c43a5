//! Which call was under way when something panicked.
use crate::api::*;
use std::cell::RefCell;
thread_local! { pub static NOW: RefCell<Option<String>> = RefCell::new(None); }
/// a panic inside a call through the C interface ends the process: say which call it was
pub fn tell_of_panics(id: &'static str) {
    std::panic::set_hook(Box::new(move |i| {
        let now = NOW.with(|n| n.borrow().clone());
        if let Some(n) = now { println!("{}: panic ({}) inside {}", id, i, n); }
    }));
}
pub fn during<T>(op: &Op, f: impl FnOnce() -> T) -> T {
    NOW.with(|n| *n.borrow_mut() = Some(op.show().chars().take(1200).collect()));
    let t = f();
    NOW.with(|n| *n.borrow_mut() = None);
    t
}

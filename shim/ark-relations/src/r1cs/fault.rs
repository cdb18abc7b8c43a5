//! Not part of upstream: lets the harness play a dishonest prover. While a plan is installed on the current
//! thread, the value of chosen witness variables is replaced at allocation time; everything computed afterwards
//! from their value (as an honest prover would) follows. Only allocations asked for by the code under test are
//! offered to the plan: those the gadget library makes for itself happen inside `trusted`.
use std::any::Any;
use std::cell::{Cell, RefCell};
pub enum Site<'a> {
    /// a field element: index of the witness variable, value as `&mut F`
    Field(usize, &'a mut dyn Any),
    /// a public input: its index (1, 2, ...) and value as `&mut F`
    Input(usize, &'a mut dyn Any),
    /// a curve point about to be allocated, as `&mut GroupAffine<P>`
    Point(&'a mut dyn Any),
}
thread_local! {
    static PLAN: RefCell<Option<Box<dyn FnMut(Site<'_>)>>> = RefCell::new(None);
    static TRUSTED: Cell<u32> = Cell::new(0);
}
pub fn with_plan<T>(f: impl FnMut(Site<'_>) + 'static, body: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { PLAN.with(|p| *p.borrow_mut() = None); TRUSTED.with(|t| t.set(0)); } }
    PLAN.with(|p| *p.borrow_mut() = Some(Box::new(f)));
    TRUSTED.with(|t| t.set(0));
    let _r = Reset;
    body()
}
/// allocations inside `body` are not offered to the plan
pub fn trusted<T>(body: impl FnOnce() -> T) -> T {
    struct Dec;
    impl Drop for Dec { fn drop(&mut self) { TRUSTED.with(|t| t.set(t.get().saturating_sub(1))); } }
    TRUSTED.with(|t| t.set(t.get() + 1));
    let _d = Dec;
    body()
}
fn offer(s: Site<'_>) {
    if TRUSTED.with(|t| t.get()) > 0 { return; }
    PLAN.with(|p| if let Some(f) = p.borrow_mut().as_mut() { f(s) });
}
pub(crate) fn apply<F: 'static>(index: usize, v: &mut F) { offer(Site::Field(index, v)) }
pub(crate) fn apply_input<F: 'static>(index: usize, v: &mut F) { offer(Site::Input(index, v)) }
pub fn apply_point<G: 'static>(v: &mut G) { offer(Site::Point(v)) }

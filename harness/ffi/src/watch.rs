//! A monitoring allocator: canaries around every block, layouts compared on release, released blocks filled and kept
//! for a while, live bytes counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct Watch;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
thread_local! { static HERE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
/// live bytes allocated less those released by this thread
pub fn here() -> i64 { HERE.with(|h| h.get()) }
fn add_here(n: i64) { let _ = HERE.try_with(|h| h.set(h.get() + n)); }
const ALIVE: u64 = 0x11fe_a11f_e000_c0de;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const TAIL: usize = 32;
const CANARY: u8 = 0xc5;
const FILL: u8 = 0xdd;
#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, canary: [u8; 24] }
const HEAD: usize = std::mem::size_of::<Head>();
fn front(align: usize) -> usize { (HEAD + align - 1) / align * align }
fn total(size: usize, align: usize) -> Layout { unsafe { Layout::from_size_align_unchecked(front(align) + size + TAIL, align.max(16)) } }
unsafe fn head(p: *mut u8) -> *mut Head { p.sub(HEAD) as *mut Head }
fn die(what: &str, a: usize, b: usize) -> ! {
    let mut e = std::io::stderr();
    let _ = writeln!(e, "ALLOCATION MONITOR: {} ({} / {})", what, a, b);
    crate::f01::NOW.with(|n| { if let Ok(n) = n.try_borrow() { let _ = writeln!(e, "during {:?}", n.as_deref()); } });
    std::process::abort()
}
const SLOTS: usize = 4096;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut RING: [*mut u8; SLOTS] = [std::ptr::null_mut(); SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// the ring keeps small blocks; a large one is checked and given back at once
const KEEP: usize = 1 << 14;
unsafe fn give_back(p: *mut u8) {
    let h = head(p);
    let (size, align) = ((*h).size, (*h).align);
    if (*h).magic != DEAD { die("the header of a released block was overwritten", (*h).magic as usize, 0); }
    for i in 0..size { if *p.add(i) != FILL { die("a released block was written to: block size, offset", size, i); } }
    System.dealloc(p.sub(front(align)), total(size, align));
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align().max(16));
        let b = System.alloc(total(size, align));
        if b.is_null() { return b; }
        let p = b.add(front(align));
        *head(p) = Head { magic: ALIVE, size, align, canary: [CANARY; 24] };
        std::ptr::write_bytes(p, 0xaa, size);
        std::ptr::write_bytes(p.add(size), CANARY, TAIL);
        add_here(size as i64);
        LIVE.fetch_add(size as i64, Relaxed); BLOCKS.fetch_add(1, Relaxed); ALLOCS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(p);
        if (*h).magic == DEAD { die("a block was released twice: size", l.size(), (*h).size); }
        if (*h).magic != ALIVE { die("something that is no block was released", l.size(), (*h).magic as usize); }
        if (*h).size != l.size() { die("a block was released with a size that is not its own", l.size(), (*h).size); }
        if (*h).align != l.align().max(16) { die("a block was released with an alignment that is not its own", l.align(), (*h).align); }
        if (*h).canary != [CANARY; 24] { die("bytes before a block were overwritten: size", l.size(), 0); }
        for i in 0..TAIL { if *p.add(l.size() + i) != CANARY { die("bytes after a block were overwritten: size, offset", l.size(), i); } }
        add_here(-(l.size() as i64));
        LIVE.fetch_sub(l.size() as i64, Relaxed); BLOCKS.fetch_sub(1, Relaxed); FREES.fetch_add(1, Relaxed);
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, FILL, l.size());
        if l.size() > KEEP { return give_back(p); }
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
        let i = NEXT.fetch_add(1, Relaxed) % SLOTS;
        let ring = std::ptr::addr_of_mut!(RING) as *mut *mut u8;
        let old = std::ptr::replace(ring.add(i), p);
        LOCK.store(false, Release);
        if !old.is_null() { give_back(old); }
    }
}

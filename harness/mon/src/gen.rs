//! Workload generators
use crate::Rng8;
use rand::Rng;
pub fn bytes(r: &mut Rng8, n: usize) -> Vec<u8> { (0..n).map(|_| r.gen()).collect() }
/// lengths that cluster around block boundaries and extremes
pub fn len(r: &mut Rng8, max: usize) -> usize {
    let edges = [0usize, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 65535];
    match r.gen_range(0, 4) {
        0 => { let e = edges[r.gen_range(0, edges.len())]; e.min(max) }
        1 => r.gen_range(0, max.min(64) + 1),
        2 => r.gen_range(0, max.min(300) + 1),
        _ => r.gen_range(0, max + 1),
    }
}
/// mostly up to `usual`, every so often log-uniformly up to `most`
pub fn long(r: &mut Rng8, usual: usize, most: usize) -> Vec<u8> {
    if most <= usual || r.gen_range(0, 5) != 0 { return blob(r, usual); }
    let (lo, hi) = ((usual.max(1) as f64).ln(), (most as f64).ln());
    let n = (r.gen_range(lo, hi)).exp() as usize;
    fill(r, n.min(most))
}
/// contents from random to degenerate
pub fn blob(r: &mut Rng8, max: usize) -> Vec<u8> { let n = len(r, max); fill(r, n) }
fn fill(r: &mut Rng8, n: usize) -> Vec<u8> {
    match r.gen_range(0, 14) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => { let mut v = vec![0; n]; if n > 0 { let i = r.gen_range(0, n); v[i] = 1 << r.gen_range(0, 8); } v }
        4 | 5 => { let (f, mut v) = (if r.gen() { 0 } else { 0xff }, bytes(r, n)); let k = run_of(r, n); for b in v.iter_mut().rev().take(k) { *b = f; } v }
        6 => { let (f, mut v) = (if r.gen() { 0 } else { 0xff }, bytes(r, n)); let k = run_of(r, n); for b in v.iter_mut().take(k) { *b = f; } v }
        7 => { let k = r.gen_range(1, 17); let p = bytes(r, k); (0..n).map(|i| p[i % k]).collect() }
        8 => { let words: [&[u8]; 3] = [b"ULforxof", b"ULforpop", b"ULforout"]; let mut v = bytes(r, n); for (a, b) in v.iter_mut().zip(words[r.gen_range(0, 3)]) { *a = *b; } v }
        9 => { let set = [0u8, 1, 0x7f, 0x80, 0xff]; (0..n).map(|_| set[r.gen_range(0, 5)]).collect() }
        _ => bytes(r, n),
    }
}
fn run_of(r: &mut Rng8, n: usize) -> usize { if r.gen() { r.gen_range(1, 4) } else { r.gen_range(0, n + 1) } }

//! Are these numbers below the group order drawn uniformly? Thresholds leave a chance of a false alarm below 1e-10.
use std::collections::HashSet;
pub const ORDER: [u64; 4] = [0x0a11800000000001, 0x59aa76fed0000001, 0x60b44d1e5c37b001, 0x12ab655e9a2ca556];
pub fn below_order(k: &[u8]) -> bool { let w = words(k); for i in (0..4).rev() { if w[i] != ORDER[i] { return w[i] < ORDER[i]; } } false }
pub fn words(k: &[u8]) -> [u64; 4] { let mut w = [0; 4]; for (i, b) in k.iter().take(32).enumerate() { w[i / 8] |= (*b as u64) << (8 * (i % 8)); } w }
fn p_bit(i: usize) -> f64 {
    if i < 200 { return 0.5; }
    let (hi, j) = (ORDER[3], i - 192);
    let full = (hi >> (j + 1)) << j;
    let rest = (hi & ((1 << (j + 1)) - 1)).saturating_sub(1 << j);
    (full + rest) as f64 / hi as f64
}
pub struct Draws { n: u64, bits: [u64; 253], parts: [u64; 64], low: [u64; 256], seen: HashSet<u128>, last: Option<[u64; 4]>, pub odd: Vec<String> }
impl Default for Draws { fn default() -> Self { Draws { n: 0, bits: [0; 253], parts: [0; 64], low: [0; 256], seen: HashSet::new(), last: None, odd: vec![] } } }
impl Draws {
    /// k: 32 bytes, little-endian
    pub fn add(&mut self, k: &[u8]) {
        let w = words(k);
        self.n += 1;
        let mut tell = |t: String| if self.odd.len() < 20 { self.odd.push(format!("{}: {}", t, super::hex(k))) };
        if k.len() != 32 || !below_order(k) { tell("a key that is not below the group order".into()); return; }
        if w == [0; 4] { tell("the key zero".into()); }
        if !self.seen.insert((w[0] as u128) << 64 | (w[1] ^ w[2].rotate_left(17) ^ w[3].rotate_left(31)) as u128) { tell("a key generated before".into()); }
        let ones: u32 = w.iter().map(|x| x.count_ones()).sum();
        // (255 fair bits would deviate by 7.9 on average)
        if ones < 56 || ones > 196 { tell(format!("a key with {} bits set", ones)); }
        if w[3] >> 4 == 0 || w[0] == 0 || w[1] == 0 || w[2] == 0 { tell("a key with a run of zero bits".into()); }
        if let Some(l) = self.last { let d: u32 = (0..4).map(|i| (w[i] ^ l[i]).count_ones()).sum(); if d < 56 || d > 196 { tell(format!("a key that differs from the one before in {} bits", d)); } }
        self.last = Some(w);
        for i in 0..253 { self.bits[i] += w[i / 64] >> (i % 64) & 1; }
        self.parts[((w[3] as f64 / (ORDER[3] as f64 + 1.0)) * 64.0).min(63.0) as usize] += 1;
        self.low[(w[0] & 255) as usize] += 1;
    }
    pub fn len(&self) -> u64 { self.n }
    pub fn judge(&self) -> Vec<String> {
        let mut out = self.odd.clone();
        if self.n < 2000 { return out; }
        let n = self.n as f64;
        for i in 0..253 {
            let p = p_bit(i);
            let z = (self.bits[i] as f64 - n * p) / (n * p * (1.0 - p)).sqrt().max(1.0);
            if z.abs() > 8.5 { out.push(format!("bit {} is set in {} of {} keys where {:.0} are expected (z = {:.1})", i, self.bits[i], self.n, n * p, z)); }
        }
        for (what, c) in [("64 equal intervals", &self.parts[..]), ("the low byte", &self.low[..])] {
            let (k, e) = (c.len() as f64, n / c.len() as f64);
            let x2: f64 = c.iter().map(|o| (*o as f64 - e).powi(2) / e).sum();
            if x2 > k - 1.0 + 12.0 * (2.0 * (k - 1.0)).sqrt() { out.push(format!("the keys are unevenly spread over {}: chi-square {:.0} where {:.0} is expected", what, x2, k - 1.0)); }
        }
        out
    }
}

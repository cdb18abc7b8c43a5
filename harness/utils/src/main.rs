//! U01
#[cfg(not(feature = "lib"))]
#[path = "/repo/crates/bls-gadgets/src/utils.rs"]
mod utils;
#[cfg(feature = "lib")]
use bls_gadgets::utils;
use mon::{catch, gen, hex, rand::Rng, Run};
use utils::*;

fn run_len(run: &Run, bits: &[bool], extra_take: usize) {
    let n = bits.len();
    let show = || bits.iter().take(200).map(|b| if *b { '1' } else { '0' }).collect::<String>();
    // what the little-endian number is, digit by digit
    let mut be = vec![0u8; (n + 7) / 8];
    let mut lev = be.clone();
    for (i, b) in bits.iter().enumerate() {
        if *b { let w = n - 1 - i; be[w / 8] |= 1 << (w % 8); lev[i / 8] |= 1 << (i % 8); }
    }
    run.eval(("pack", bits), n > 0);
    run.state("bit lengths packed", n);
    let a = catch(|| bits_be_to_bytes_le(bits));
    run.check(a.as_ref() == Ok(&be), "pack-be", || format!("{:?} instead of {} for {}", a, hex(&be), show()));
    let l = catch(|| bits_le_to_bytes_le(bits));
    run.check(l.as_ref() == Ok(&lev), "pack-le", || format!("{:?} instead of {} for {}", l, hex(&lev), show()));
    // and back
    let back = catch(|| bytes_le_to_bits_be(&be, n));
    run.check(back.as_deref() == Ok(bits), "unpack-pack-be", || format!("{:?} for {}", back, show()));
    let back = catch(|| bytes_le_to_bits_le(&lev, n));
    run.check(back.as_deref() == Ok(bits), "unpack-pack-le", || format!("{:?} for {}", back, show()));
    // whole bytes out of the partial one are zero above
    let all = catch(|| bytes_le_to_bits_le(&lev, n + extra_take));
    let mut want = bits.to_vec();
    want.resize(((n + 7) / 8 * 8).min(n + extra_take), false);
    run.check(all.as_ref() == Ok(&want), "unpack-more", || format!("asked {} of {} bytes: {:?}", n + extra_take, lev.len(), all));
}
fn run_bytes(run: &Run, b: &[u8], take: usize) {
    run.eval(("unpack", b, take), !b.is_empty());
    run.state("byte lengths unpacked", b.len()); run.state("bits asked minus bits there", (take as i64).wrapping_sub(8 * b.len() as i64));
    let mut want: Vec<bool> = (0..take.min(8 * b.len())).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect();
    let l = catch(|| bytes_le_to_bits_le(b, take));
    run.check(l.as_ref() == Ok(&want), "unpack-le", || format!("{} bits of {}: {:?}", take, mon::short(b), l));
    want.reverse();
    let a = catch(|| bytes_le_to_bits_be(b, take));
    run.check(a.as_ref() == Ok(&want), "unpack-be", || format!("{} bits of {}: {:?}", take, mon::short(b), a));
    if take >= 8 * b.len() {
        if let (Ok(a), Ok(l)) = (a, l) {
            run.check(catch(|| bits_be_to_bytes_le(&a)).as_deref() == Ok(b), "pack-unpack-be", || mon::short(b));
            run.check(catch(|| bits_le_to_bytes_le(&l)).as_deref() == Ok(b), "pack-unpack-le", || mon::short(b));
        }
    }
}
fn main() {
    let run = Run::start("U01", "a case is one bit list packed or one byte list unpacked with a requested count; nontrivial: not empty");
    run.require("bit lengths packed", 300); run.require("byte lengths unpacked", 100);
    // every list of up to 12 bits, every pair of bytes
    for n in 0..=12usize { for v in 0..1u32 << n { let bits: Vec<bool> = (0..n).map(|i| v >> i & 1 == 1).collect(); run_len(&run, &bits, (v % 20) as usize); } }
    for v in 0..=u16::MAX { run_bytes(&run, &v.to_le_bytes(), (v as usize).wrapping_mul(7) % 20); }
    let secs = run.pick(20.0, 300.0);
    run.par(8, |t, r| {
        let mut n = t;
        while run.within(secs) {
            n += 8;
            if n < 2100 {
                let k = r.gen_range(0, n + 1);
                for c in 0..5 { let bits: Vec<bool> = (0..n).map(|i| match c { 0 => true, 1 => false, 2 => i == k, 3 => i < k, _ => i >= k }).collect(); run_len(&run, &bits, k % 20); }
            }
            let len = if n < 2100 { n } else { match r.gen_range(0, 4) { 0 => { let top = if r.gen_range(0, 50) == 0 { 600_000 } else { 20_000 }; gen::len(r, top) }, 1 => r.gen_range(370, 400), 2 => r.gen_range(248, 260), _ => r.gen_range(0, 1200) } };
            let bits: Vec<bool> = match r.gen_range(0, 6) { 0 => vec![true; len], 1 => vec![false; len], 2 => { let k = r.gen_range(0, len + 1); (0..len).map(|i| i == k).collect() } 3 => { let k = r.gen_range(0, len + 1); (0..len).map(|i| i < k).collect() } _ => (0..len).map(|_| r.gen()).collect() };
            let x = r.gen_range(0, 20);
            run_len(&run, &bits, x);
            let b = gen::blob(r, if n % 64 == 0 { 9000 } else { 200 });
            let take = match r.gen_range(0, 8) { 6 => 1usize << r.gen_range(0, 64), 7 => (1usize << r.gen_range(8, 64)) + r.gen_range(0, 8 * b.len() + 2), 0 => 0, 1 => 8 * b.len(), 2 => 8 * b.len() + r.gen_range(1, 100), 3 => usize::MAX, 4 => b.len(), _ => r.gen_range(0, 8 * b.len() + 2) };
            run_bytes(&run, &b, take);
            // from the middle of a list, at any alignment
            let (i, j) = (r.gen_range(0, bits.len().min(20) + 1), r.gen_range(0, b.len().min(20) + 1));
            run_len(&run, &bits[i..], x);
            run_bytes(&run, &b[j..], take);
            run.sample(|| format!("{} bits packed; {} bits of {}", len, take, mon::short(&b)));
        }
    });
    run.finish()
}

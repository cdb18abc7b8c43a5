//! Reference BLAKE2s (RFC 7693 with the full parameter block) and BLAKE2Xs, written from the specifications.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
#[derive(Clone, Debug, Default)]
pub struct Param { pub digest: u8, pub key: u8, pub fanout: u8, pub depth: u8, pub leaf: u32, pub node_offset: u32, pub xof: u16, pub node_depth: u8, pub inner: u8, pub salt: [u8; 8], pub personal: [u8; 8] }
impl Param {
    pub fn bytes(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        p[0] = self.digest; p[1] = self.key; p[2] = self.fanout; p[3] = self.depth;
        p[4..8].copy_from_slice(&self.leaf.to_le_bytes());
        p[8..12].copy_from_slice(&self.node_offset.to_le_bytes());
        p[12..14].copy_from_slice(&self.xof.to_le_bytes());
        p[14] = self.node_depth; p[15] = self.inner;
        p[16..24].copy_from_slice(&self.salt);
        p[24..32].copy_from_slice(&self.personal);
        p
    }
}
fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 { m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]); }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last { v[14] = !v[14]; }
    for r in 0..10 {
        let s = &SIGMA[r];
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]); g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]); g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
}
pub fn blake2s(p: &Param, msg: &[u8]) -> Vec<u8> {
    let pb = p.bytes();
    let mut h = IV;
    for i in 0..8 { h[i] ^= u32::from_le_bytes([pb[4 * i], pb[4 * i + 1], pb[4 * i + 2], pb[4 * i + 3]]); }
    let mut off = 0;
    while msg.len() - off > 64 {
        let mut b = [0u8; 64];
        b.copy_from_slice(&msg[off..off + 64]);
        off += 64;
        compress(&mut h, &b, off as u64, false);
    }
    let mut b = [0u8; 64];
    b[..msg.len() - off].copy_from_slice(&msg[off..]);
    compress(&mut h, &b, msg.len() as u64, true);
    let mut out = vec![];
    for w in h.iter() { out.extend_from_slice(&w.to_le_bytes()); }
    out.truncate(p.digest as usize);
    out
}
fn pad8(d: &[u8]) -> [u8; 8] { let mut p = [0u8; 8]; p[..d.len()].copy_from_slice(d); p }
/// the compression step: BLAKE2s-256 with fanout and depth 1, personalised, carrying the output length
pub fn crh(domain: &[u8], msg: &[u8], outlen: u16) -> Vec<u8> {
    blake2s(&Param { digest: 32, fanout: 1, depth: 1, xof: outlen, personal: pad8(domain), ..Default::default() }, msg)
}
/// the extension step (BLAKE2X): node i has fanout 0, depth 0, leaf length 32, inner length 32
pub fn xof(domain: &[u8], h0: &[u8], outlen: u16) -> Vec<u8> {
    let mut out = Vec::with_capacity(outlen as usize);
    let mut i = 0u32;
    while out.len() < outlen as usize {
        let n = std::cmp::min(32, outlen as usize - out.len());
        out.extend(blake2s(&Param { digest: n as u8, leaf: 32, node_offset: i, xof: outlen, inner: 32, personal: pad8(domain), ..Default::default() }, h0));
        i += 1;
    }
    out
}
pub fn hash(domain: &[u8], msg: &[u8], outlen: u16) -> Vec<u8> { xof(domain, &crh(domain, msg, outlen), outlen) }
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn rfc7693() {
        let d = blake2s(&Param { digest: 32, fanout: 1, depth: 1, ..Default::default() }, b"abc");
        assert_eq!(crate::hex(&d), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982");
    }
    #[test]
    fn crh_empty() { assert_eq!(crate::hex(&crh(&[], &[], 96)), "7a746244ad211d351f57a218255888174e719b54e683651e9314f55402eed414"); }
}

//! Blake2s parameter block (native side of the gadget only).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blake2sWithParameterBlock {
    pub digest_length: u8,
    pub key_length: u8,
    pub fan_out: u8,
    pub depth: u8,
    pub leaf_length: u32,
    pub node_offset: u32,
    pub xof_digest_length: u16,
    pub node_depth: u8,
    pub inner_length: u8,
    pub salt: [u8; 8],
    pub personalization: [u8; 8],
}
impl Blake2sWithParameterBlock {
    pub fn parameters(&self) -> [u32; 8] {
        let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        [
            w(&[self.digest_length, self.key_length, self.fan_out, self.depth]),
            self.leaf_length,
            self.node_offset,
            u32::from(self.xof_digest_length) | u32::from(self.node_depth) << 16 | u32::from(self.inner_length) << 24,
            w(&self.salt[..4]), w(&self.salt[4..]),
            w(&self.personalization[..4]), w(&self.personalization[4..]),
        ]
    }
}
pub mod constraints {
    use ark_ff::PrimeField;
    use ark_r1cs_std::prelude::*;
    use ark_relations::r1cs::{fault::trusted, SynthesisError};
    const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    fn g<F: PrimeField>(v: &mut [UInt32<F>], a: usize, b: usize, c: usize, d: usize, x: &UInt32<F>, y: &UInt32<F>) -> Result<(), SynthesisError> {
        v[a] = UInt32::addmany(&[v[a].clone(), v[b].clone(), x.clone()])?;
        v[d] = v[d].xor(&v[a])?.rotr(16);
        v[c] = UInt32::addmany(&[v[c].clone(), v[d].clone()])?;
        v[b] = v[b].xor(&v[c])?.rotr(12);
        v[a] = UInt32::addmany(&[v[a].clone(), v[b].clone(), y.clone()])?;
        v[d] = v[d].xor(&v[a])?.rotr(8);
        v[c] = UInt32::addmany(&[v[c].clone(), v[d].clone()])?;
        v[b] = v[b].xor(&v[c])?.rotr(7);
        Ok(())
    }
    fn compress<F: PrimeField>(h: &mut [UInt32<F>], m: &[UInt32<F>], t: u64, last: bool) -> Result<(), SynthesisError> {
        let mut v: Vec<UInt32<F>> = h.to_vec();
        v.extend(IV.iter().map(|x| UInt32::constant(*x)));
        v[12] = v[12].xor(&UInt32::constant(t as u32))?;
        v[13] = v[13].xor(&UInt32::constant((t >> 32) as u32))?;
        if last { v[14] = v[14].xor(&UInt32::constant(u32::MAX))?; }
        for s in SIGMA.iter() {
            g(&mut v, 0, 4, 8, 12, &m[s[0]], &m[s[1]])?;
            g(&mut v, 1, 5, 9, 13, &m[s[2]], &m[s[3]])?;
            g(&mut v, 2, 6, 10, 14, &m[s[4]], &m[s[5]])?;
            g(&mut v, 3, 7, 11, 15, &m[s[6]], &m[s[7]])?;
            g(&mut v, 0, 5, 10, 15, &m[s[8]], &m[s[9]])?;
            g(&mut v, 1, 6, 11, 12, &m[s[10]], &m[s[11]])?;
            g(&mut v, 2, 7, 8, 13, &m[s[12]], &m[s[13]])?;
            g(&mut v, 3, 4, 9, 14, &m[s[14]], &m[s[15]])?;
        }
        for i in 0..8 { h[i] = h[i].xor(&v[i])?.xor(&v[i + 8])?; }
        Ok(())
    }
    pub fn evaluate_blake2s<F: PrimeField>(input: &[Boolean<F>]) -> Result<Vec<UInt32<F>>, SynthesisError> {
        evaluate_blake2s_with_parameters(input, &[0x01010020, 0, 0, 0, 0, 0, 0, 0])
    }
    pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Result<Vec<UInt32<F>>, SynthesisError> {
        assert_eq!(input.len() % 8, 0);
        trusted(|| {
            let mut h: Vec<UInt32<F>> = (0..8).map(|i| UInt32::constant(IV[i] ^ parameters[i])).collect();
            let mut blocks: Vec<Vec<UInt32<F>>> = vec![];
            for block in input.chunks(512) {
                let mut words = vec![];
                for word in block.chunks(32) {
                    let mut w = word.to_vec();
                    w.resize(32, Boolean::constant(false));
                    words.push(UInt32::from_bits_le(&w));
                }
                words.resize(16, UInt32::constant(0));
                blocks.push(words);
            }
            if blocks.is_empty() { blocks.push(vec![UInt32::constant(0); 16]); }
            let n = blocks.len();
            for (i, b) in blocks[..n - 1].iter().enumerate() { compress(&mut h, b, (i as u64 + 1) * 64, false)?; }
            compress(&mut h, &blocks[n - 1], (input.len() / 8) as u64, true)?;
            Ok(h)
        })
    }
}

//! Texts whose hash in the node cache is a given number. The cache hashes with FxHasher (rustc-hash
//! 2, 64 bit); its string hash is a product of the two halves of a 16-byte text, each with a constant
//! xored in, so that texts with a given hash can be computed. Nothing here decides anything: it only
//! finds inputs that a search over short texts never meets. If the hash function changes, the inputs
//! are merely uninteresting.

const K: u64 = 0xf1357aea2e62a9c5;
const SEED1: u64 = 0x243f6a8885a308d3;
const SEED2: u64 = 0x13198a2e03707344;
const ROTATE: u32 = 26;

/// Inverse of an odd number modulo 2^64.
fn inv(x: u64) -> u64 {
    let mut y = x;
    for _ in 0..6 {
        y = y.wrapping_mul(2u64.wrapping_sub(x.wrapping_mul(y)));
    }
    y
}

/// Texts of 16 bytes whose string hash is `target`.
fn texts_with(target: u64, most: usize) -> Vec<String> {
    let mut out = Vec::new();
    let mix = target ^ 16;
    for lead in [0xF0u64, 0xF1, 0xF2, 0xF3] {
        for x in (0..128u64).step_by(2) {
            // the first half is such that it is a small odd number once the constant is xored in
            let s0 = ((lead ^ 0x08) << 8) | (x ^ 0xd3);
            let i = inv(s0);
            for hi in 0..s0 {
                let s1 = (mix ^ hi).wrapping_mul(i);
                if ((s0 as u128 * s1 as u128) >> 64) as u64 != hi {
                    continue;
                }
                let mut b = (s0 ^ SEED1).to_le_bytes().to_vec();
                b.extend((s1 ^ SEED2).to_le_bytes());
                if let Ok(s) = String::from_utf8(b) {
                    out.push(s);
                    if out.len() == most {
                        return out;
                    }
                }
            }
        }
    }
    out
}

fn mul(x: u64) -> u64 {
    x.wrapping_mul(K)
}

/// Texts for which a token of this kind has this hash.
pub fn tokens_with(kind: u16, hash: u64, most: usize) -> Vec<String> {
    let k = inv(K);
    let h = hash.rotate_right(ROTATE).wrapping_mul(k).wrapping_sub(0xff);
    let h = h.wrapping_mul(k).wrapping_sub(mul(kind as u64));
    texts_with(h, most)
}

/// Hash of a node of this kind with children of these hashes.
pub fn node_hash(kind: u16, children: &[u64]) -> u64 {
    children.iter().fold(mul(kind as u64), |h, &c| mul(h.wrapping_add(c))).rotate_left(ROTATE)
}

/// What the hash of a node's last child has to be for the node to have this hash.
pub fn last_child(kind: u16, before: &[u64], hash: u64) -> u64 {
    let h = before.iter().fold(mul(kind as u64), |h, &c| mul(h.wrapping_add(c)));
    hash.rotate_right(ROTATE).wrapping_mul(inv(K)).wrapping_sub(h)
}

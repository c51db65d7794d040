//! Keccak-256 for concrete inputs.
const RC: [u64; 24] = [
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a,
    0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn f(s: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for i in 0..5 { c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20]; }
        for i in 0..5 { let t = c[(i + 4) % 5] ^ c[(i + 1) % 5].rotate_left(1); for j in 0..5 { s[i + 5 * j] ^= t; } }
        let mut t = s[1];
        for i in 0..24 { let x = s[PIL[i]]; s[PIL[i]] = t.rotate_left(ROT[i]); t = x; }
        for j in 0..5 { let r: [u64; 5] = [s[5 * j], s[5 * j + 1], s[5 * j + 2], s[5 * j + 3], s[5 * j + 4]]; for i in 0..5 { s[5 * j + i] = r[i] ^ (!r[(i + 1) % 5] & r[(i + 2) % 5]); } }
        s[0] ^= rc;
    }
}
pub fn keccak256(d: &[u8]) -> [u8; 32] {
    let mut s = [0u64; 25];
    let mut m = d.to_vec();
    m.push(1);
    while m.len() % 136 != 0 { m.push(0); }
    let n = m.len();
    m[n - 1] |= 0x80;
    for b in m.chunks(136) {
        for i in 0..17 { s[i] ^= u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        f(&mut s);
    }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
    o
}
#[test]
fn empty() { assert_eq!(keccak256(b"")[..4], [0xc5, 0xd2, 0x46, 0x01]); }

//! Stand-in for `sha1`.
pub struct Sha1;
impl Sha1 {
    pub fn digest(data: impl AsRef<[u8]>) -> [u8; 20] {
        let mut m = data.as_ref().to_vec();
        let len = (m.len() as u64).wrapping_mul(8);
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend(len.to_be_bytes());
        let mut h = [0x67452301u32, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
        for c in m.chunks(64) {
            let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
            for i in 16..80 {
                w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
            }
            let [mut a, mut b, mut cc, mut d, mut e] = h;
            for i in 0..80 {
                let (f, k) = match i / 20 {
                    0 => ((b & cc) | (!b & d), 0x5A827999u32),
                    1 => (b ^ cc ^ d, 0x6ED9EBA1),
                    2 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                    _ => (b ^ cc ^ d, 0xCA62C1D6),
                };
                let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
                (e, d, cc, b, a) = (d, cc, b.rotate_left(30), a, t);
            }
            for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
                *x = x.wrapping_add(y);
            }
        }
        let mut o = [0; 20];
        for (i, x) in h.iter().enumerate() {
            o[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
        }
        o
    }
}

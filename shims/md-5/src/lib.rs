//! Stand-in for `md-5`.
pub struct Md5;
impl Md5 {
    pub fn digest(data: impl AsRef<[u8]>) -> [u8; 16] {
        let mut m = data.as_ref().to_vec();
        let len = (m.len() as u64).wrapping_mul(8);
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend(len.to_le_bytes());
        let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
        let r: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
        let mut h = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
        for c in m.chunks(64) {
            let w: Vec<u32> = c.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
            let [mut a, mut b, mut cc, mut d] = h;
            for i in 0..64 {
                let (f, g) = match i / 16 {
                    0 => ((b & cc) | (!b & d), i),
                    1 => ((d & b) | (!d & cc), (5 * i + 1) % 16),
                    2 => (b ^ cc ^ d, (3 * i + 5) % 16),
                    _ => (cc ^ (b | !d), (7 * i) % 16),
                };
                let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]);
                (a, d, cc) = (d, cc, b);
                b = b.wrapping_add(t.rotate_left(r[i / 16][i % 4]));
            }
            for (x, y) in h.iter_mut().zip([a, b, cc, d]) {
                *x = x.wrapping_add(y);
            }
        }
        let mut o = [0; 16];
        for (i, x) in h.iter().enumerate() {
            o[i * 4..i * 4 + 4].copy_from_slice(&x.to_le_bytes());
        }
        o
    }
}

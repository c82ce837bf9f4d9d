//! Stand-in for `rand_mt`: the 32-bit Mersenne Twister.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mt {
    s: [u32; 624],
    i: usize,
}
pub type Mt19937GenRand32 = Mt;
impl Mt {
    pub fn new(seed: u32) -> Self {
        let mut s = [0u32; 624];
        s[0] = seed;
        for i in 1..624 {
            s[i] = 1812433253u32.wrapping_mul(s[i - 1] ^ (s[i - 1] >> 30)).wrapping_add(i as u32);
        }
        Mt { s, i: 624 }
    }
    pub fn new_with_key<I: IntoIterator<Item = u32>>(key: I) -> Self {
        let key: Vec<u32> = key.into_iter().collect();
        let mut m = Self::new(19650218);
        let s = &mut m.s;
        let (mut i, mut j) = (1, 0);
        for _ in 0..624.max(key.len()) {
            s[i] = (s[i] ^ (s[i - 1] ^ (s[i - 1] >> 30)).wrapping_mul(1664525)).wrapping_add(key[j]).wrapping_add(j as u32);
            i += 1;
            j += 1;
            if i >= 624 {
                s[0] = s[623];
                i = 1;
            }
            if j >= key.len() {
                j = 0;
            }
        }
        for _ in 0..623 {
            s[i] = (s[i] ^ (s[i - 1] ^ (s[i - 1] >> 30)).wrapping_mul(1566083941)).wrapping_sub(i as u32);
            i += 1;
            if i >= 624 {
                s[0] = s[623];
                i = 1;
            }
        }
        s[0] = 0x80000000;
        m
    }
    pub fn next_u32(&mut self) -> u32 {
        if self.i >= 624 {
            for k in 0..624 {
                let y = (self.s[k] & 0x80000000) | (self.s[(k + 1) % 624] & 0x7fffffff);
                self.s[k] = self.s[(k + 397) % 624] ^ (y >> 1) ^ if y & 1 == 1 { 0x9908b0df } else { 0 };
            }
            self.i = 0;
        }
        let mut y = self.s[self.i];
        self.i += 1;
        y ^= y >> 11;
        y ^= (y << 7) & 0x9d2c5680;
        y ^= (y << 15) & 0xefc60000;
        y ^ (y >> 18)
    }
    pub fn next_u64(&mut self) -> u64 {
        let (a, b) = (self.next_u32(), self.next_u32());
        (b as u64) << 32 | a as u64
    }
    pub fn fill_bytes(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(4) {
            let w = self.next_u32().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
}

//! Stand-in for the sha3 crate: Keccak-256.
pub struct Keccak256 { state: [u64; 25], at: usize }

pub struct Hash<'a>(&'a mut [u8; 32]);
impl<'a> From<&'a mut [u8; 32]> for Hash<'a> { fn from(b: &'a mut [u8; 32]) -> Self { Hash(b) } }

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize_into(self, out: Hash<'_>);
    fn finalize(self) -> [u8; 32] { let mut r = [0; 32]; self.finalize_into((&mut r).into()); r }
    fn digest(data: impl AsRef<[u8]>) -> [u8; 32] { let mut h = Self::new(); h.update(data); h.finalize() }
}

const RATE: usize = 136;

fn permute(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 { a[x + 5 * y] ^= d; }
        }
        let (mut x, mut y, mut cur) = (1, 0, a[1]);
        for t in 0..24u32 {
            (x, y) = (y, (2 * x + 3 * y) % 5);
            let next = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = next;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 { a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]); }
        }
        for j in 0..7 {
            let bit = lfsr & 1;
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
            if bit != 0 { a[0] ^= 1u64 << ((1u32 << j) - 1); }
        }
    }
}

impl Keccak256 {
    fn absorb(&mut self, b: u8) { self.state[self.at / 8] ^= (b as u64) << (8 * (self.at % 8)); self.at += 1; }
}

impl Digest for Keccak256 {
    fn new() -> Self { Keccak256 { state: [0; 25], at: 0 } }
    fn update(&mut self, data: impl AsRef<[u8]>) {
        for b in data.as_ref() {
            self.absorb(*b);
            if self.at == RATE { permute(&mut self.state); self.at = 0; }
        }
    }
    fn finalize_into(mut self, out: Hash<'_>) {
        self.absorb(0x01);
        self.at = RATE - 1;
        self.absorb(0x80);
        permute(&mut self.state);
        for i in 0..32 { out.0[i] = (self.state[i / 8] >> (8 * (i % 8))) as u8; }
    }
}

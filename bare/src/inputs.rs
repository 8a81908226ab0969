// The cases that the freestanding program goes through.

pub const CASES: u32 = 20_000;

/// Words of case `i`: bit patterns of all kinds, exponents around that of one more often.
pub fn case(i: u32) -> [u32; 8] {
    let mut w = [0; 8];
    let mut k = 0;
    while k < 8 {
        let mut z = ((i as u64) << 3 | k as u64).wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 31;
        z = z.wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 29;
        let x = z as u32;
        w[k] = match i % 4 {
            0 => x,
            1 => (x & 0x807f_ffff) | (120 + ((z >> 32) as u32 & 15)) << 23,
            2 => (x & 0x80f0_0000) | (124 + ((z >> 32) as u32 & 7)) << 23,
            _ => (x & 0x807f_ffff) | (100 + ((z >> 32) as u32 & 63)) << 23,
        };
        k += 1;
    }
    w
}

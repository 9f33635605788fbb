//! Argument samples.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

const SPECIAL: [f32; 26] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1.5, 0.1, 10.0, 100.0, -100.0, 1e-3, 1e-6, 1e6, 1e30, 1e-30,
    f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45,
];

pub fn gen(kind: &str, r: &mut Rng, prev: &[u32], style: u64) -> u32 {
    let x = r.next();
    match kind {
        "f32" => {
            // style fixes one distribution for all arguments of a sample in half of the cases
            let sel = if style & 1 == 0 { style >> 1 } else { x >> 40 };
            let u = (x & 0xffff_ffff) as u32;
            let unit = (u as f64 / 4294967296.0 * 2.0 - 1.0) as f32;
            match sel % 14 {
                0 => u,
                1 => SPECIAL[(u % 26) as usize].to_bits(),
                2 => ((u % 41) as f32 - 20.0).to_bits(),
                3 => unit.to_bits(),
                4 => (unit * 10.0).to_bits(),
                5 => (unit * 1000.0).to_bits(),
                6 => {
                    // log-uniform, moderate
                    let e = (x >> 32) % 40;
                    let b = ((127 - 20 + e as u32) << 23) | (u & 0x7f_ffff) | (u & 0x8000_0000);
                    b
                }
                7 => {
                    let e = (x >> 32) % 255;
                    ((e as u32) << 23) | ((u & 3).wrapping_sub(1) & 0x7f_ffff) | (u & 0x8000_0000)
                }
                8 | 9 if !prev.is_empty() => {
                    let p = prev[(u as usize) % prev.len()];
                    match (x >> 33) % 6 {
                        0 => p,
                        1 => p ^ 0x8000_0000,
                        2 => p.wrapping_add(1),
                        3 => p.wrapping_sub(1),
                        4 => p ^ (1 << ((x >> 36) % 32)),
                        _ => p.wrapping_add(((x >> 36) % 64) as u32).wrapping_sub(32),
                    }
                }
                10 => (((u % 2001) as f32 - 1000.0) / 8.0).to_bits(),
                11 => (((x >> 32) as i32) as f32 / 1e3).to_bits(),
                12 => (unit * 1e-3).to_bits(),
                _ => {
                    let e = (x >> 32) % 120;
                    ((127 - 60 + e as u32) << 23) | (u & 0x7f_ffff) | (u & 0x8000_0000)
                }
            }
        }
        "i32" | "u32" => {
            let u = x as u32;
            match (x >> 40) % 6 {
                0 => u,
                1 => (u % 129).wrapping_sub(64),
                2 => [0, 1, u32::MAX, 0x7fff_ffff, 0x8000_0000, 2, 3, 0x8000_0001][(u % 8) as usize],
                3 => 1u32 << (u % 32),
                4 => (u % 2001).wrapping_sub(1000),
                _ => (u % 70001).wrapping_sub(35000),
            }
        }
        _ => {
            let u = x as u32;
            match (x >> 40) % 3 {
                0 => u,
                1 => (u % 17).wrapping_sub(8),
                _ => [0, 1, u32::MAX, 127, 128, 255, 32767, 32768, 65535, 0x80, 0xff7f, 2][(u % 12) as usize],
            }
        }
    }
}

#[allow(dead_code)]
pub fn bits(kind: &str) -> u32 {
    match kind {
        "f32" | "i32" | "u32" => 32,
        "i16" | "u16" => 16,
        "bool" => 1,
        _ => 8,
    }
}

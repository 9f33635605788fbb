//! Native versions of the functions the contracts leave to the verifier.
#![allow(improper_ctypes_definitions)]
#[no_mangle]
pub extern "C" fn ref_floorf(x: f32) -> f32 { x.floor() }
#[no_mangle]
pub extern "C" fn ref_ceilf(x: f32) -> f32 { x.ceil() }
#[no_mangle]
pub extern "C" fn ref_roundf(x: f32) -> f32 { x.round() }
#[no_mangle]
pub extern "C" fn ref_truncf(x: f32) -> f32 { x.trunc() }
#[no_mangle]
pub extern "C" fn ref_sin(x: f64) -> f64 { x.sin() }
#[no_mangle]
pub extern "C" fn ref_cos(x: f64) -> f64 { x.cos() }
#[no_mangle]
pub extern "C" fn ref_tan(x: f64) -> f64 { x.tan() }
#[no_mangle]
pub extern "C" fn ref_atan(x: f64) -> f64 { x.atan() }
#[no_mangle]
pub extern "C" fn ref_asin(x: f64) -> f64 { x.asin() }
#[no_mangle]
pub extern "C" fn ref_acos(x: f64) -> f64 { x.acos() }
#[no_mangle]
pub extern "C" fn ref_atan2(y: f64, x: f64) -> f64 { y.atan2(x) }
#[no_mangle]
pub extern "C" fn ref_exp(x: f64) -> f64 { x.exp() }
#[no_mangle]
pub extern "C" fn ref_ln(x: f64) -> f64 { x.ln() }
#[no_mangle]
pub extern "C" fn ref_sqrt(x: f64) -> f64 { x.sqrt() }
#[no_mangle]
pub extern "C" fn ref_cosh(x: f64) -> f64 { x.cosh() }
#[no_mangle]
pub extern "C" fn ref_pow(x: f64, n: f64) -> f64 { x.powf(n) }
#[no_mangle]
pub extern "C" fn ref_of_atan2(r: f32, y: f64, ey: f64, x: f64, ex: f64) -> bool {
    let (h, e) = (x.hypot(y), ex.hypot(ey));
    if !(h - e > 1e-37) || e > 0.5 * h {
        return true;
    }
    let d = (r as f64 - y.atan2(x)).rem_euclid(2.0 * std::f64::consts::PI);
    d.min(2.0 * std::f64::consts::PI - d) <= 0.0031 + 2.0 * e / h
}
#[no_mangle]
pub extern "C" fn ref_of_asin(r: f32, x: f64, e: f64) -> bool {
    let (l, h) = ((x - e).clamp(-1.0, 1.0).asin() - 0.021, (x + e).clamp(-1.0, 1.0).asin() + 0.021);
    (r as f64) >= l && (r as f64) <= h
}
struct Probe(*const (), fn(*const (), &mut std::fmt::Formatter<'_>) -> std::fmt::Result);
impl std::fmt::Display for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.1)(self.0, f)
    }
}
/// the text, hashed
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Ok(())
    }
}
#[no_mangle]
pub extern "C" fn ref_format(value: *const (), f: *const ()) -> u64 {
    let f: fn(*const (), &mut std::fmt::Formatter<'_>) -> std::fmt::Result = unsafe { std::mem::transmute(f) };
    let mut s = Sink(0xcbf2_9ce4_8422_2325);
    let r = std::fmt::Write::write_fmt(&mut s, format_args!("{}", Probe(value, f)));
    s.0 << 1 | r.is_err() as u64
}
const TEXTS: [&str; 48] = [
    "", "0", "1", "-1", "+1", " 1", "1 ", "\t1", "1\n", "1.5", "-1.5", ".5", "5.", ".", "-", "+", "-.5", "1e5", "1E5", "1e-5",
    "1e+5", "e5", "1e", "1e40", "-1e40", "1e-46", "1e-60", "inf", "-inf", "+inf", "INF", "Infinity", "infinity", "infinit",
    "nan", "NaN", "-nan", "NAN", "0x10", "1_000", "1f32", "1,5", "16777217", "0.1", "-0", "3.4028236e38", "1.17549435e-38",
    "\u{0}1",
];
#[no_mangle]
pub extern "C" fn ref_str(a: u32, b: u32) -> &'static str {
    use std::cell::Cell;
    thread_local!(static BUF: Cell<&'static mut [u8]> = const { Cell::new(&mut []) });
    if b & 3 == 0 {
        return TEXTS[a as usize % 48];
    }
    let mut buf = BUF.take();
    if buf.is_empty() {
        buf = vec![0; 64].leak();
    }
    let p = buf.as_mut_ptr();
    let n = if b & 3 == 1 {
        let mut w = std::io::Cursor::new(&mut buf[..]);
        let x = f32::from_bits(a);
        let r = match b >> 2 & 3 {
            0 => std::io::Write::write_fmt(&mut w, format_args!("{x}")),
            1 => std::io::Write::write_fmt(&mut w, format_args!("{x:E}")),
            2 => std::io::Write::write_fmt(&mut w, format_args!("{:?}", x as f64 * 1.0000000123)),
            _ => std::io::Write::write_fmt(&mut w, format_args!("{:+.3e}", x)),
        };
        let n = w.position() as usize;
        if r.is_ok() { n } else { 3 }
    } else {
        let set = b"0123456789019+-..eE infatyNX_";
        let mut r = super::gen::Rng((a as u64) << 32 | b as u64);
        let n = 1 + (r.next() % 9) as usize;
        for x in &mut buf[..n] {
            *x = set[(r.next() % set.len() as u64) as usize];
        }
        n
    };
    BUF.set(buf);
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}
/// n values for the contracts over slices of any length, the same ones for the same n
#[no_mangle]
pub extern "C" fn ref_items(n: usize, bound: f32) -> *const f32 {
    use std::sync::OnceLock;
    static BUFS: [OnceLock<Vec<f32>>; 8] = [const { OnceLock::new() }; 8];
    const SMALL: usize = 1 << 17;
    if n == 0 {
        return std::ptr::NonNull::dangling().as_ptr();
    }
    let len = if n <= SMALL { SMALL } else { 1 << 24 };
    assert!(n <= len);
    let kind = n % 4;
    let b = BUFS[kind + 4 * (n > SMALL) as usize].get_or_init(|| {
        let mut r = super::gen::Rng(kind as u64 + 77);
        (0..len)
            .map(|i| {
                let k = r.next();
                let u = (k >> 40) as f32 / 8388608.0 - 1.0;
                match kind {
                    0 => u * 1e15,
                    1 => (k >> 60) as f32,
                    2 if i == 0 || k % 1000 == 0 => u * 1e6,
                    2 => 100.0 + u,
                    _ => u * 1e-3 - 1.0,
                }
            })
            .collect()
    });
    assert!(bound >= 1e15);
    b.as_ptr()
}
/// the same for the integer types i8, u8, i16, u16, i32, u32 (1 to 6)
fn ints(code: u32) -> &'static (Vec<u32>, Vec<f32>) {
    use std::sync::OnceLock;
    static BUFS: [OnceLock<(Vec<u32>, Vec<f32>)>; 7] = [const { OnceLock::new() }; 7];
    BUFS[code as usize].get_or_init(|| {
        let mut r = super::gen::Rng(99 + code as u64);
        let size = [4, 1, 1, 2, 2, 4, 4][code as usize];
        let v: Vec<u32> = (0..size << 22).map(|_| (r.next() >> 32) as u32).collect();
        let p = v.as_ptr();
        let f = (0..1 << 24)
            .map(|i| unsafe {
                match code {
                    1 => *(p as *const i8).add(i) as f32,
                    2 => *(p as *const u8).add(i) as f32,
                    3 => *(p as *const i16).add(i) as f32,
                    4 => *(p as *const u16).add(i) as f32,
                    5 => *(p as *const i32).add(i) as f32,
                    _ => *p.add(i) as f32,
                }
            })
            .collect();
        (v, f)
    })
}
#[no_mangle]
pub extern "C" fn ref_items_of(n: usize, code: u32) -> *const u8 {
    assert!(n <= 1 << 24);
    ints(code).0.as_ptr() as *const u8
}
#[no_mangle]
pub extern "C" fn ref_converted_of(n: usize, code: u32) -> *const f32 {
    assert!(n <= 1 << 24);
    ints(code).1.as_ptr()
}

/// Moves an iterator over slice items to another position. Natively only the position it has: nothing
/// is known about how it is stored.
#[no_mangle]
pub extern "C" fn ref_at(_it: *mut u8, _size: usize, _first: *const u8, p: usize) -> bool {
    p == 0
}
/// all initialized bytes are the same; padding and representation are not inspected natively
#[no_mangle]
pub extern "C" fn ref_same(_a: *const u8, _b: *const u8, _size: usize) -> bool {
    true
}

//! Text: formatting through core's formatter, parsing by core's parser (both outside the code
//! under verification; the verifier leaves them uninterpreted).
use crate::{ens, vcs};
use core::fmt::{self, Display, Formatter, LowerExp, UpperExp};
use core::str::FromStr;
use micromath::F32;

#[allow(improper_ctypes)]
extern "C" {
    /// the text (as a number) that a formatting function writes for a value under default
    /// formatting options, whatever the writer does; odd when it reports an error
    fn ref_format(value: *const (), f: *const ()) -> u64;
    /// some text
    fn ref_str(a: u32, b: u32) -> &'static str;
}
fn format<T>(x: &T, f: fn(&T, &mut Formatter<'_>) -> fmt::Result) -> u64 {
    unsafe { ref_format(x as *const T as *const (), f as *const ()) }
}
fn text(a: u32, b: u32) -> &'static str {
    unsafe { ref_str(a, b) }
}

vcs! {
    fn vc__C34__display(x: f32) {
        let r = format(&F32::from(x), <F32 as Display>::fmt);
        ens!(0, r == format(&x, <f32 as Display>::fmt));
    }
    fn vc__C34__lower_exp(x: f32) {
        let r = format(&F32::from(x), <F32 as LowerExp>::fmt);
        ens!(0, r == format(&x, <f32 as LowerExp>::fmt));
    }
    fn vc__C34__upper_exp(x: f32) {
        let r = format(&F32::from(x), <F32 as UpperExp>::fmt);
        ens!(0, r == format(&x, <f32 as UpperExp>::fmt));
    }
    fn vc__C34__from_str(a: u32, b: u32) {
        let t = text(a, b);
        let r = F32::from_str(t);
        let s = f32::from_str(t);
        ens!(0, r.is_ok() == s.is_ok());
        if let (Ok(r), Ok(s)) = (r, s) {
            ens!(1, f32::from(r).to_bits() == s.to_bits());
        }
    }
    fn vc__C34__from_str_radix_10(a: u32, b: u32) {
        let t = text(a, b);
        let r = <F32 as num_traits::Num>::from_str_radix(t, 10);
        let s = f32::from_str(t);
        ens!(0, r.is_ok() == s.is_ok());
        if let (Ok(r), Ok(s)) = (r, s) {
            ens!(1, f32::from(r).to_bits() == s.to_bits());
        }
    }
}

//! Contracts of tarcieri/micromath as verification-condition functions.
//!
//! Each `vc__Cnn__name` takes arbitrary arguments and returns
//!   1       the contract holds for these arguments
//!   2       the precondition is not met
//!   16 + i  clause i of the contract is violated
//! A panic inside is a violation too, except in functions whose name ends in `__panics`,
//! where returning at all is what the clauses judge.
//! The functions call the real code of /repo; `ref_*` are the mathematical reference functions.
#![no_std]
#![allow(non_snake_case, non_upper_case_globals, clippy::all)]

pub trait Arg: Sized {
    const KIND: &'static str;
    fn get(v: &[u32], i: &mut usize) -> Self;
}
macro_rules! arg {
    ($($t:ty => $f:expr),*) => {$(
        impl Arg for $t {
            const KIND: &'static str = stringify!($t);
            fn get(v: &[u32], i: &mut usize) -> Self { let x = v[*i]; *i += 1; let f: fn(u32) -> $t = $f; f(x) }
        }
    )*};
}
arg!(f32 => |x| f32::from_bits(x), u32 => |x| x, i32 => |x| x as i32, u16 => |x| x as u16, i16 => |x| x as i16,
     u8 => |x| x as u8, i8 => |x| x as i8, bool => |x| x & 1 == 1);

pub struct Entry {
    pub name: &'static str,
    pub kinds: &'static [&'static str],
    pub f: fn(&[u32]) -> u8,
}

#[macro_export]
macro_rules! req { ($c:expr) => { if !($c) { return 2; } } }
#[macro_export]
macro_rules! ens { ($n:literal, $c:expr) => { if !($c) { return 16 + $n; } } }
#[macro_export]
macro_rules! vcs {
    ($(fn $name:ident($($a:ident : $t:ty),* $(,)?) $body:block)*) => {
        $(
            #[no_mangle]
            pub fn $name($($a: $t),*) -> u8 { $body 1 }
        )*
        pub static TABLE: &[$crate::Entry] = &[
            $($crate::Entry {
                name: stringify!($name),
                kinds: &[$(stringify!($t)),*],
                f: {
                    fn adapt(_v: &[u32]) -> u8 {
                        let mut _i = 0usize;
                        $(let $a: $t = <$t as $crate::Arg>::get(_v, &mut _i);)*
                        $name($($a),*)
                    }
                    adapt
                },
            }),*
        ];
    };
}
/// functions whose symbols the verifier needs to know, to use their contracts at call sites
#[macro_export]
macro_rules! syms {
    ($($name:ident: |$($a:ident : $t:ty),*| $e:expr;)*) => {
        $( #[no_mangle] pub fn $name($($a: $t),*) -> F32 { $e } )*
    };
}

pub mod exact;
pub mod approx;
pub mod refs;
pub mod vector;
pub mod quat;
pub mod stats;
pub mod text;
pub mod large;
pub mod twovec;
pub mod items;

pub fn tables() -> [&'static [Entry]; 9] {
    [exact::TABLE, approx::TABLE, vector::TABLE, quat::TABLE, stats::TABLE, text::TABLE, large::TABLE, twovec::TABLE, items::TABLE]
}

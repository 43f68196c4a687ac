use std::cell::Cell;
thread_local!{ static S: Cell<u64> = Cell::new(0x9e3779b97f4a7c15); }
pub fn next() -> u64 { S.with(|s| { let mut x = s.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.set(x); x.wrapping_mul(0x2545F4914F6CDD1D) }) }
pub trait Pick { type T; fn pick(&self) -> Self::T; }
impl Pick for std::ops::Range<u64> { type T = u64; fn pick(&self) -> u64 { let span = self.end - self.start; match 0 { 0 => self.start + next() % span, 1 => self.start + (span >> (next()%64).min(63)).max(1) - 1, _ => self.start + (next() >> (next() % 64)) % span } } }
impl Pick for std::ops::Range<u128> { type T = u128; fn pick(&self) -> u128 { let span = self.end - self.start; self.start + ((((next() as u128) << 64) | next() as u128) >> (next() % 128)) % span } }
#[macro_export] macro_rules! proptest {
  ($( $(#[$m:meta])* fn $n:ident($($a:ident in $s:expr),* $(,)?) $b:block )*) => { $( $(#[$m])* fn $n() { for _ in 0..2000 { $(let $a = $crate::Pick::pick(&($s));)* let r: ::std::result::Result<(), $crate::AnyErr> = (|| { $b; #[allow(unreachable_code)] Ok(()) })(); if let Err(e) = r { panic!("{:?}", e) } } } )* };
}
pub mod prelude { pub use crate::proptest; }

#[derive(Debug)] pub struct AnyErr(pub String);
impl<E: std::fmt::Display> From<E> for AnyErr { fn from(e: E) -> Self { AnyErr(e.to_string()) } }

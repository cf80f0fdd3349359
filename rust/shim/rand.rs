//! stand-in for rand: a fixed sequence
use std::cell::Cell;
thread_local!(static S: Cell<u64> = Cell::new(88172645463325252));
pub struct R;
pub fn next() -> f64 { S.with(|s| { let mut x = s.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.set(x); (x >> 11) as f64 / (1u64 << 53) as f64 }) }
pub trait Distribution<T> { fn draw(&self) -> T; }
impl R { pub fn sample<T, D: Distribution<T>>(&mut self, d: D) -> T { d.draw() } }
pub mod prelude { pub use super::{Distribution, R}; pub fn thread_rng() -> R { R } }

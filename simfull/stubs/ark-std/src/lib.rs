//! Stand-in for ark-std (std flavour): re-exports std, rand 0.8 and num-traits like the original.
pub use std::*;
pub use num_traits::{One, Zero};
pub mod rand {
    pub use rand::*;
}
pub trait UniformRand: Sized {
    fn rand<R: ::rand::Rng + ?Sized>(rng: &mut R) -> Self;
}
impl<T> UniformRand for T
where
    ::rand::distributions::Standard: ::rand::distributions::Distribution<T>,
{
    fn rand<R: ::rand::Rng + ?Sized>(rng: &mut R) -> Self {
        rng.sample(::rand::distributions::Standard)
    }
}
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        x.trailing_zeros()
    } else {
        usize::BITS - x.leading_zeros()
    }
}
/// Deterministic, as in the original: a fixed seed.
pub fn test_rng() -> impl ::rand::Rng {
    use ::rand::SeedableRng;
    ::rand::rngs::StdRng::from_seed([
        1, 0, 0, 0, 23, 0, 0, 0, 200, 1, 0, 0, 210, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    ])
}
#[macro_export]
macro_rules! cfg_iter { ($e:expr) => { $e.iter() }; ($e:expr, $m:expr) => { $e.iter() }; }
#[macro_export]
macro_rules! cfg_iter_mut { ($e:expr) => { $e.iter_mut() }; ($e:expr, $m:expr) => { $e.iter_mut() }; }
#[macro_export]
macro_rules! cfg_into_iter { ($e:expr) => { $e.into_iter() }; ($e:expr, $m:expr) => { $e.into_iter() }; }
#[macro_export]
macro_rules! start_timer { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! end_timer { ($($t:tt)*) => {}; }

//! Stand-in for ark-ff: the traits zkenc uses, and the BN254 scalar field.
pub use ark_std::UniformRand;
pub use num_traits::{One, Zero};
use ark_serialize::*;
use fr::Fe;
use rand::distributions::{Distribution, Standard};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

pub mod fields {
    pub use super::{Field, PrimeField, FftField};
}

/// 4-limb integer.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct BigInt<const N: usize>(pub [u64; N]);
impl<const N: usize> Default for BigInt<N> {
    fn default() -> Self {
        BigInt([0; N])
    }
}
pub trait BigInteger: Copy + Clone + Debug + Default + Eq + Ord + Send + Sync + AsRef<[u64]> + AsMut<[u64]> + From<u64> + 'static {
    const NUM_LIMBS: usize;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8>;
    fn to_bits_le(&self) -> Vec<bool>;
    fn is_zero(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool;
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool;
}
impl<const N: usize> AsRef<[u64]> for BigInt<N> {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u64]> for BigInt<N> {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl From<u64> for BigInt<4> {
    fn from(v: u64) -> Self {
        BigInt([v, 0, 0, 0])
    }
}
impl PartialOrd for BigInt<4> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt<4> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        fr::cmp4(&self.0, &o.0)
    }
}
impl BigInt<4> {
    pub const fn new(v: [u64; 4]) -> Self {
        BigInt(v)
    }
}
impl BigInteger for BigInt<4> {
    const NUM_LIMBS: usize = 4;
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..256).map(|i| self.get_bit(i)).collect()
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn num_bits(&self) -> u32 {
        (0..256).rev().find(|&i| self.get_bit(i)).map(|i| i as u32 + 1).unwrap_or(0)
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
}
impl Valid for BigInt<4> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalSerialize for BigInt<4> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        32
    }
}
impl CanonicalDeserialize for BigInt<4> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(BigInt(<[u64; 4]>::deserialize_with_mode(r, c, v)?))
    }
}

pub trait AdditiveGroup:
    Eq + Sized + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand + Zero + Neg<Output = Self>
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self::Scalar, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self::Scalar>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self::Scalar, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self::Scalar>
    + Sum<Self> + for<'a> Sum<&'a Self> + CanonicalSerialize + CanonicalDeserialize + 'static
{
    type Scalar: Field;
    const ZERO: Self;
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = *self + *self;
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
}

pub trait Field:
    AdditiveGroup<Scalar = Self> + One + Ord + Div<Self, Output = Self> + DivAssign<Self> + for<'a> Div<&'a Self, Output = Self>
    + Product<Self> + for<'a> Product<&'a Self> + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool> + From<i64> + From<i32>
{
    type BasePrimeField: PrimeField;
    const ONE: Self;
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        let i = self.inverse()?;
        *self = i;
        Some(self)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self;
    fn characteristic() -> &'static [u64];
    fn from_random_bytes(b: &[u8]) -> Option<Self>;
}

pub trait FftField: Field {
    const GENERATOR: Self;
    const TWO_ADICITY: u32;
    fn get_root_of_unity(n: u64) -> Option<Self>;
}

pub trait PrimeField:
    Field<BasePrimeField = Self> + FftField + FromStr + From<Self::BigInt> + Into<Self::BigInt>
{
    type BigInt: BigInteger + From<Self>;
    const MODULUS: Self::BigInt;
    const MODULUS_BIT_SIZE: u32;
    fn from_bigint(b: Self::BigInt) -> Option<Self>;
    fn into_bigint(self) -> Self::BigInt;
    fn from_le_bytes_mod_order(b: &[u8]) -> Self;
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_le_bytes_mod_order(&v)
    }
}

pub fn batch_inversion<F: Field>(v: &mut [F]) {
    for x in v {
        if let Some(i) = x.inverse() {
            *x = i;
        }
    }
}

/// Element of the BN254 scalar field.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct Fp(pub Fe);

impl Fp {
    pub const fn new_unchecked_mont(v: [u64; 4]) -> Fp {
        Fp(Fe(v))
    }
    pub fn new(b: BigInt<4>) -> Fp {
        Fp(Fe::from_canon(b.0))
    }
}
impl Debug for Fp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0.to_dec())
    }
}
impl Display for Fp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0.to_dec())
    }
}
impl PartialOrd for Fp {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fp {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        fr::cmp4(&self.0.canon(), &o.0.canon())
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $tr<Fp> for Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { let ($a, $b) = (&self.0, &o.0); Fp($e) } }
        impl<'a> $tr<&'a Fp> for Fp { type Output = Fp; fn $f(self, o: &'a Fp) -> Fp { $tr::$f(self, *o) } }
        impl<'a> $tr<&'a mut Fp> for Fp { type Output = Fp; fn $f(self, o: &'a mut Fp) -> Fp { $tr::$f(self, *o) } }
        impl<'a> $tr<Fp> for &'a Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { $tr::$f(*self, o) } }
        impl<'a, 'b> $tr<&'b Fp> for &'a Fp { type Output = Fp; fn $f(self, o: &'b Fp) -> Fp { $tr::$f(*self, *o) } }
        impl $tra<Fp> for Fp { fn $fa(&mut self, o: Fp) { *self = $tr::$f(*self, o) } }
        impl<'a> $tra<&'a Fp> for Fp { fn $fa(&mut self, o: &'a Fp) { *self = $tr::$f(*self, *o) } }
    }
}
bin!(Add, add, AddAssign, add_assign, |a, b| a.add(b));
bin!(Sub, sub, SubAssign, sub_assign, |a, b| a.sub(b));
bin!(Mul, mul, MulAssign, mul_assign, |a, b| a.mul(b));
bin!(Div, div, DivAssign, div_assign, |a, b| a.mul(&b.inv().expect("division by zero")));
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp(self.0.neg())
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        Fp(Fe::ZERO)
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for Fp {
    fn one() -> Fp {
        Fp(Fe::one())
    }
}
impl Sum<Fp> for Fp {
    fn sum<I: Iterator<Item = Fp>>(i: I) -> Fp {
        i.fold(Fp::zero(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Fp> for Fp {
    fn sum<I: Iterator<Item = &'a Fp>>(i: I) -> Fp {
        i.fold(Fp::zero(), |a, b| a + b)
    }
}
impl Product<Fp> for Fp {
    fn product<I: Iterator<Item = Fp>>(i: I) -> Fp {
        i.fold(Fp::one(), |a, b| a * b)
    }
}
impl<'a> Product<&'a Fp> for Fp {
    fn product<I: Iterator<Item = &'a Fp>>(i: I) -> Fp {
        i.fold(Fp::one(), |a, b| a * b)
    }
}
macro_rules! from {
    ($($t:ty),*) => {$( impl From<$t> for Fp { fn from(v: $t) -> Fp { Fp(Fe::from_canon([v as u64, 0, 0, 0])) } } )*}
}
from!(u64, u32, u16, u8, bool);
impl From<u128> for Fp {
    fn from(v: u128) -> Fp {
        Fp(Fe::from_canon([v as u64, (v >> 64) as u64, 0, 0]))
    }
}
macro_rules! froms {
    ($($t:ty),*) => {$( impl From<$t> for Fp { fn from(v: $t) -> Fp {
        let a = Fp::from(v.unsigned_abs() as u128);
        if v < 0 { -a } else { a }
    } } )*}
}
froms!(i128, i64, i32, i16, i8);
impl From<BigInt<4>> for Fp {
    fn from(b: BigInt<4>) -> Fp {
        Fp::from_bigint(b).unwrap()
    }
}
impl From<Fp> for BigInt<4> {
    fn from(f: Fp) -> Self {
        f.into_bigint()
    }
}
impl FromStr for Fp {
    type Err = ();
    /// Signed decimal, reduced modulo the field, as in ark-ff.
    fn from_str(s: &str) -> Result<Fp, ()> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return Err(());
        }
        let v = Fp(Fe::from_dec(d).ok_or(())?);
        Ok(if neg { -v } else { v })
    }
}
impl AdditiveGroup for Fp {
    type Scalar = Fp;
    const ZERO: Fp = Fp(Fe::ZERO);
}
impl Field for Fp {
    type BasePrimeField = Fp;
    const ONE: Fp = Fp(Fe([0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0x0e0a77c19a07df2f]));
    fn inverse(&self) -> Option<Fp> {
        self.0.inv().map(Fp)
    }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Fp {
        Fp(self.0.pow(e.as_ref()))
    }
    fn characteristic() -> &'static [u64] {
        &fr::P
    }
    fn from_random_bytes(b: &[u8]) -> Option<Fp> {
        let mut a = [0u8; 32];
        if b.len() < 32 {
            return None;
        }
        a.copy_from_slice(&b[..32]);
        Fe::from_le_checked(&a).map(Fp)
    }
}
impl FftField for Fp {
    /// 5, in Montgomery form.
    const GENERATOR: Fp = Fp(Fe([0x1b0d0ef99fffffe6, 0xeaba68a3a32a913f, 0x47d8eb76d8dd0689, 0x15d0085520f5bbc3]));
    const TWO_ADICITY: u32 = 28;
    fn get_root_of_unity(n: u64) -> Option<Fp> {
        if !n.is_power_of_two() || n.trailing_zeros() > 28 {
            return None;
        }
        // 5^((p-1)/n)
        let mut e = fr::P;
        e[0] -= 1;
        let k = n.trailing_zeros();
        for _ in 0..k {
            for i in 0..4 {
                e[i] >>= 1;
                if i < 3 {
                    e[i] |= e[i + 1] << 63;
                }
            }
        }
        Some(Fp(Fe::from_u64(5).pow(&e)))
    }
}
impl PrimeField for Fp {
    type BigInt = BigInt<4>;
    const MODULUS: BigInt<4> = BigInt(fr::P);
    const MODULUS_BIT_SIZE: u32 = 254;
    fn from_bigint(b: BigInt<4>) -> Option<Fp> {
        if fr::cmp4(&b.0, &fr::P) == std::cmp::Ordering::Less {
            Some(Fp(Fe::from_canon(b.0)))
        } else {
            None
        }
    }
    fn into_bigint(self) -> BigInt<4> {
        BigInt(self.0.canon())
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Fp {
        Fp(Fe::from_le_mod(b))
    }
}
impl Distribution<Fp> for Standard {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> Fp {
        loop {
            let mut v = [rng.next_u64(), rng.next_u64(), rng.next_u64(), rng.next_u64()];
            v[3] &= u64::MAX >> 2;
            if fr::cmp4(&v, &fr::P) == std::cmp::Ordering::Less {
                // as ark-ff: the sampled limbs are taken as the Montgomery form
                return Fp(Fe(v));
            }
        }
    }
}
impl Valid for Fp {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalSerialize for Fp {
    fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> Result<(), SerializationError> {
        Ok(w.write_all(&self.0.to_le())?)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        32
    }
}
impl CanonicalDeserialize for Fp {
    fn deserialize_with_mode<R: Read>(mut r: R, _: Compress, _: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Fe::from_le_checked(&b).map(Fp).ok_or(SerializationError::InvalidData)
    }
}
#[macro_export]
macro_rules! MontFp {
    ($s:expr) => {
        <$crate::Fp as std::str::FromStr>::from_str($s).unwrap()
    };
}

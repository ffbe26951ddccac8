//! Stand-in for ark-ec: pairing groups represented by discrete logarithms.
//!
//! Every group law, the bilinearity of the pairing, sizes and the failure behaviour of decoding are
//! kept; hardness of the discrete logarithm is not (and nothing here relies on it).
use ark_ff::{AdditiveGroup, BigInteger, Field, Fp, PrimeField, UniformRand, Zero};
use ark_serialize::*;
use rand::distributions::{Distribution, Standard};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::iter::Sum;
use std::ops::*;

pub mod scalar_mul {
    pub use super::{ScalarMul, VariableBaseMSM};
    pub mod variable_base {
        pub use super::super::VariableBaseMSM;
    }
}
pub trait PrimeGroup: AdditiveGroup<Scalar = Self::ScalarField> {
    type ScalarField: PrimeField;
    fn generator() -> Self;
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self;
}
pub trait ScalarMul:
    PrimeGroup + Add<Self::MulBase, Output = Self> + AddAssign<Self::MulBase> + for<'a> Add<&'a Self::MulBase, Output = Self>
    + From<Self::MulBase>
{
    type MulBase: Copy + Send + Sync + Mul<Self::ScalarField, Output = Self> + From<Self> + Debug;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(bases: &[Self]) -> Vec<Self::MulBase> {
        bases.iter().map(|b| Self::MulBase::from(*b)).collect()
    }
    fn batch_mul(self, v: &[Self::ScalarField]) -> Vec<Self::MulBase> {
        v.iter().map(|s| Self::MulBase::from(self * s)).collect()
    }
}
pub trait VariableBaseMSM: ScalarMul {
    fn msm(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Result<Self, usize> {
        if bases.len() != scalars.len() {
            return Err(bases.len().min(scalars.len()));
        }
        Ok(Self::msm_unchecked(bases, scalars))
    }
    fn msm_unchecked(bases: &[Self::MulBase], scalars: &[Self::ScalarField]) -> Self {
        bases.iter().zip(scalars).fold(Self::ZERO, |a, (b, s)| a + (*b * *s))
    }
    fn msm_bigint(bases: &[Self::MulBase], bi: &[<Self::ScalarField as PrimeField>::BigInt]) -> Self {
        bases.iter().zip(bi).fold(Self::ZERO, |a, (b, s)| a + (*b * Self::ScalarField::from_bigint(*s).unwrap()))
    }
}
pub trait CurveGroup: PrimeGroup + VariableBaseMSM<MulBase = <Self as CurveGroup>::Affine> + Add<Self::Affine, Output = Self> + From<Self::Affine> + Into<Self::Affine> {
    type BaseField: Field;
    type Affine: AffineRepr<Group = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    type FullGroup;
    fn normalize_batch(v: &[Self]) -> Vec<Self::Affine> {
        v.iter().map(|p| p.into_affine()).collect()
    }
    fn into_affine(self) -> Self::Affine {
        self.into()
    }
}
pub trait AffineRepr:
    Eq + Copy + Clone + Default + Send + Sync + Hash + Debug + Display + UniformRand + Neg<Output = Self> + From<Self::Group> + CanonicalSerialize
    + CanonicalDeserialize + 'static + Add<Self, Output = Self::Group> + Sub<Self, Output = Self::Group>
    + for<'a> Add<&'a Self, Output = Self::Group> + Add<Self::Group, Output = Self::Group>
    + Mul<Self::ScalarField, Output = Self::Group> + for<'a> Mul<&'a Self::ScalarField, Output = Self::Group>
{
    type ScalarField: PrimeField;
    type BaseField: Field;
    type Group: CurveGroup<Affine = Self, ScalarField = Self::ScalarField> + From<Self> + Into<Self>;
    fn zero() -> Self;
    fn generator() -> Self;
    fn is_zero(&self) -> bool;
    fn into_group(self) -> Self::Group {
        self.into()
    }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self::Group;
    fn from_random_bytes(b: &[u8]) -> Option<Self>;
    fn clear_cofactor(&self) -> Self {
        *self
    }
}

fn reduce(b: impl AsRef<[u64]>) -> Fp {
    let mut v = vec![];
    for l in b.as_ref() {
        v.extend_from_slice(&l.to_le_bytes());
    }
    Fp::from_le_bytes_mod_order(&v)
}

/// The check half of a stand-in point: any two encodings of one point are equal, and most byte
/// strings are not a point at all.
fn check_half(k: u64, e: &Fp) -> Fp {
    (*e + Fp::from(k)).square() * Fp::from(k ^ 0x9e37_79b9_7f4a_7c15) + *e
}

macro_rules! group {
    ($proj:ident, $aff:ident, $comp:expr, $k:expr) => {
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Default, Debug)]
        pub struct $proj(pub Fp);
        #[derive(Copy, Clone, PartialEq, Eq, Hash, Default, Debug)]
        pub struct $aff(pub Fp);
        impl From<$proj> for $aff { fn from(p: $proj) -> $aff { $aff(p.0) } }
        impl From<$aff> for $proj { fn from(p: $aff) -> $proj { $proj(p.0) } }
        impl<'a> From<&'a $proj> for $aff { fn from(p: &'a $proj) -> $aff { $aff(p.0) } }
        impl<'a> From<&'a $aff> for $aff { fn from(p: &'a $aff) -> $aff { *p } }
        impl Display for $proj { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{}]", self.0) } }
        impl Display for $aff { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "[{}]", self.0) } }
        impl Neg for $proj { type Output = $proj; fn neg(self) -> $proj { $proj(-self.0) } }
        impl Neg for $aff { type Output = $aff; fn neg(self) -> $aff { $aff(-self.0) } }
        group!(@ops $proj, $proj, $proj);
        group!(@ops $proj, $aff, $proj);
        group!(@ops $aff, $aff, $proj);
        group!(@ops $aff, $proj, $proj);
        group!(@mul $proj, $proj);
        group!(@mul $aff, $proj);
        impl AddAssign<$proj> for $proj { fn add_assign(&mut self, o: $proj) { self.0 += o.0 } }
        impl AddAssign<$aff> for $proj { fn add_assign(&mut self, o: $aff) { self.0 += o.0 } }
        impl<'a> AddAssign<&'a $proj> for $proj { fn add_assign(&mut self, o: &'a $proj) { self.0 += o.0 } }
        impl<'a> AddAssign<&'a $aff> for $proj { fn add_assign(&mut self, o: &'a $aff) { self.0 += o.0 } }
        impl SubAssign<$proj> for $proj { fn sub_assign(&mut self, o: $proj) { self.0 -= o.0 } }
        impl SubAssign<$aff> for $proj { fn sub_assign(&mut self, o: $aff) { self.0 -= o.0 } }
        impl<'a> SubAssign<&'a $proj> for $proj { fn sub_assign(&mut self, o: &'a $proj) { self.0 -= o.0 } }
        impl MulAssign<Fp> for $proj { fn mul_assign(&mut self, o: Fp) { self.0 *= o } }
        impl<'a> MulAssign<&'a Fp> for $proj { fn mul_assign(&mut self, o: &'a Fp) { self.0 *= *o } }
        impl Sum<$proj> for $proj { fn sum<I: Iterator<Item = $proj>>(i: I) -> $proj { i.fold($proj::default(), |a, b| a + b) } }
        impl<'a> Sum<&'a $proj> for $proj { fn sum<I: Iterator<Item = &'a $proj>>(i: I) -> $proj { i.fold($proj::default(), |a, b| a + *b) } }
        impl Sum<$aff> for $proj { fn sum<I: Iterator<Item = $aff>>(i: I) -> $proj { i.fold($proj::default(), |a, b| a + b) } }
        impl Zero for $proj { fn zero() -> $proj { $proj::default() } fn is_zero(&self) -> bool { self.0.is_zero() } }
        impl Distribution<$proj> for Standard { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> $proj { $proj(Fp::rand(r)) } }
        impl Distribution<$aff> for Standard { fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> $aff { $aff(Fp::rand(r)) } }
        impl AdditiveGroup for $proj { type Scalar = Fp; const ZERO: $proj = $proj(<Fp as AdditiveGroup>::ZERO); }
        impl PrimeGroup for $proj {
            type ScalarField = Fp;
            fn generator() -> $proj { $proj(Fp::ONE) }
            fn mul_bigint(&self, o: impl AsRef<[u64]>) -> $proj { $proj(self.0 * reduce(o)) }
        }
        impl ScalarMul for $proj { type MulBase = $aff; }
        impl VariableBaseMSM for $proj {}
        impl CurveGroup for $proj { type BaseField = Fp; type Affine = $aff; type FullGroup = $aff; }
        impl AffineRepr for $aff {
            type ScalarField = Fp;
            type BaseField = Fp;
            type Group = $proj;
            fn zero() -> $aff { $aff::default() }
            fn generator() -> $aff { $aff(Fp::ONE) }
            fn is_zero(&self) -> bool { self.0.is_zero() }
            fn mul_bigint(&self, by: impl AsRef<[u64]>) -> $proj { $proj(self.0 * reduce(by)) }
            fn from_random_bytes(b: &[u8]) -> Option<$aff> { Fp::from_random_bytes(b).map($aff) }
        }
        impl $aff {
            pub fn identity() -> $aff { $aff::default() }
            fn write<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
                self.0.serialize_with_mode(&mut w, c)?;
                let mut n = (if c == Compress::Yes { $comp } else { 2 * $comp }) / 32 - 1;
                let mut k = $k;
                while n > 0 {
                    check_half(k, &self.0).serialize_with_mode(&mut w, c)?;
                    n -= 1;
                    k += 1;
                }
                Ok(())
            }
            fn read<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<$aff, SerializationError> {
                let e = Fp::deserialize_with_mode(&mut r, c, v)?;
                let mut n = (if c == Compress::Yes { $comp } else { 2 * $comp }) / 32 - 1;
                let mut k = $k;
                while n > 0 {
                    let h = Fp::deserialize_with_mode(&mut r, c, v)?;
                    if h != check_half(k, &e) { return Err(SerializationError::InvalidData); }
                    n -= 1;
                    k += 1;
                }
                Ok($aff(e))
            }
        }
        impl Valid for $aff { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
        impl Valid for $proj { fn check(&self) -> Result<(), SerializationError> { Ok(()) } }
        impl CanonicalSerialize for $aff {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { self.write(w, c) }
            fn serialized_size(&self, c: Compress) -> usize { if c == Compress::Yes { $comp } else { 2 * $comp } }
        }
        impl CanonicalSerialize for $proj {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> { $aff(self.0).write(w, c) }
            fn serialized_size(&self, c: Compress) -> usize { if c == Compress::Yes { $comp } else { 2 * $comp } }
        }
        impl CanonicalDeserialize for $aff {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { $aff::read(r, c, v) }
        }
        impl CanonicalDeserialize for $proj {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> { Ok($proj($aff::read(r, c, v)?.0)) }
        }
    };
    (@ops $a:ident, $b:ident, $o:ident) => {
        impl Add<$b> for $a { type Output = $o; fn add(self, o: $b) -> $o { $o(self.0 + o.0) } }
        impl<'a> Add<&'a $b> for $a { type Output = $o; fn add(self, o: &'a $b) -> $o { $o(self.0 + o.0) } }
        impl Sub<$b> for $a { type Output = $o; fn sub(self, o: $b) -> $o { $o(self.0 - o.0) } }
        impl<'a> Sub<&'a $b> for $a { type Output = $o; fn sub(self, o: &'a $b) -> $o { $o(self.0 - o.0) } }
    };
    (@mul $a:ident, $o:ident) => {
        impl Mul<Fp> for $a { type Output = $o; fn mul(self, s: Fp) -> $o { $o(self.0 * s) } }
        impl<'a> Mul<&'a Fp> for $a { type Output = $o; fn mul(self, s: &'a Fp) -> $o { $o(self.0 * *s) } }
    };
}
group!(G1Projective, G1Affine, 32usize, 11u64);
group!(G2Projective, G2Affine, 64usize, 101u64);

/// The target group, written as an exponent.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default, Debug)]
pub struct Gt(pub Fp);

pub mod pairing {
    use super::*;
    use std::marker::PhantomData;

    pub trait Pairing: Sized + 'static + Copy + Debug + Sync + Send + Eq {
        type BaseField: PrimeField;
        type ScalarField: PrimeField;
        type G1: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine>
            + MulAssign<Self::ScalarField>;
        type G1Affine: AffineRepr<Group = Self::G1, ScalarField = Self::ScalarField> + From<Self::G1> + Into<Self::G1> + Into<Self::G1Prepared>;
        type G1Prepared: Default + Clone + Send + Sync + Debug + CanonicalSerialize + CanonicalDeserialize
            + for<'a> From<&'a Self::G1> + for<'a> From<&'a Self::G1Affine> + From<Self::G1> + From<Self::G1Affine>;
        type G2: CurveGroup<ScalarField = Self::ScalarField, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine>
            + MulAssign<Self::ScalarField>;
        type G2Affine: AffineRepr<Group = Self::G2, ScalarField = Self::ScalarField> + From<Self::G2> + Into<Self::G2> + Into<Self::G2Prepared>;
        type G2Prepared: Default + Clone + Send + Sync + Debug + CanonicalSerialize + CanonicalDeserialize
            + for<'a> From<&'a Self::G2> + for<'a> From<&'a Self::G2Affine> + From<Self::G2> + From<Self::G2Affine>;
        type TargetField: Copy + Clone + Default + PartialEq + Eq + Hash + Debug + Send + Sync + 'static;
        #[doc(hidden)]
        fn exp(t: &Self::TargetField) -> Fp;
        #[doc(hidden)]
        fn from_exp(e: Fp) -> Self::TargetField;
        #[doc(hidden)]
        fn scalar(s: &Self::ScalarField) -> Fp;
        fn multi_pairing(
            a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
            b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
        ) -> PairingOutput<Self>;
        fn pairing(p: impl Into<Self::G1Prepared>, q: impl Into<Self::G2Prepared>) -> PairingOutput<Self> {
            Self::multi_pairing([p], [q])
        }
    }
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Default, Debug)]
    pub struct PairingOutput<P: Pairing>(pub P::TargetField);
    impl<P: Pairing> PairingOutput<P> {
        fn e(&self) -> Fp {
            P::exp(&self.0)
        }
        fn f(e: Fp) -> Self {
            PairingOutput(P::from_exp(e))
        }
        /// Stand-in only: the element with this logarithm.
        pub fn from_log(e: Fp) -> Self {
            Self::f(e)
        }
        pub fn generator() -> Self {
            Self::f(Fp::ONE)
        }
    }
    impl<P: Pairing> Zero for PairingOutput<P> {
        fn zero() -> Self {
            Self::f(Fp::zero())
        }
        fn is_zero(&self) -> bool {
            self.e().is_zero()
        }
    }
    impl<P: Pairing> Add for PairingOutput<P> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Self::f(self.e() + o.e())
        }
    }
    impl<'a, P: Pairing> Add<&'a Self> for PairingOutput<P> {
        type Output = Self;
        fn add(self, o: &'a Self) -> Self {
            Self::f(self.e() + o.e())
        }
    }
    impl<P: Pairing> AddAssign for PairingOutput<P> {
        fn add_assign(&mut self, o: Self) {
            *self = *self + o
        }
    }
    impl<P: Pairing> Sub for PairingOutput<P> {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            Self::f(self.e() - o.e())
        }
    }
    impl<'a, P: Pairing> Sub<&'a Self> for PairingOutput<P> {
        type Output = Self;
        fn sub(self, o: &'a Self) -> Self {
            Self::f(self.e() - o.e())
        }
    }
    impl<P: Pairing> SubAssign for PairingOutput<P> {
        fn sub_assign(&mut self, o: Self) {
            *self = *self - o
        }
    }
    impl<P: Pairing> Neg for PairingOutput<P> {
        type Output = Self;
        fn neg(self) -> Self {
            Self::f(-self.e())
        }
    }
    impl<P: Pairing> Mul<P::ScalarField> for PairingOutput<P> {
        type Output = Self;
        fn mul(self, s: P::ScalarField) -> Self {
            Self::f(self.e() * P::scalar(&s))
        }
    }
    impl<P: Pairing> Sum for PairingOutput<P> {
        fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
            i.fold(Self::zero(), |a, b| a + b)
        }
    }
    impl<P: Pairing> Valid for PairingOutput<P> {
        fn check(&self) -> Result<(), SerializationError> {
            Ok(())
        }
    }
    impl<P: Pairing> CanonicalSerialize for PairingOutput<P> {
        fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
            let mut x = self.e();
            for k in 0..12u64 {
                x.serialize_with_mode(&mut w, c)?;
                x = check_half(1000 + k, &x);
            }
            Ok(())
        }
        fn serialized_size(&self, _: Compress) -> usize {
            384
        }
    }
    impl<P: Pairing> CanonicalDeserialize for PairingOutput<P> {
        fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
            let e = Fp::deserialize_with_mode(&mut r, c, v)?;
            let mut x = e;
            for k in 0..11u64 {
                x = check_half(1000 + k, &x);
                if Fp::deserialize_with_mode(&mut r, c, v)? != x {
                    return Err(SerializationError::InvalidData);
                }
            }
            Ok(Self::f(e))
        }
    }

    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub struct StandIn<T>(PhantomData<T>);
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub struct Bn254Config;
    impl Pairing for StandIn<Bn254Config> {
        type BaseField = Fp;
        type ScalarField = Fp;
        type G1 = G1Projective;
        type G1Affine = G1Affine;
        type G1Prepared = G1Affine;
        type G2 = G2Projective;
        type G2Affine = G2Affine;
        type G2Prepared = G2Affine;
        type TargetField = Gt;
        fn exp(t: &Gt) -> Fp {
            t.0
        }
        fn from_exp(e: Fp) -> Gt {
            Gt(e)
        }
        fn scalar(s: &Fp) -> Fp {
            *s
        }
        fn multi_pairing(
            a: impl IntoIterator<Item = impl Into<G1Affine>>,
            b: impl IntoIterator<Item = impl Into<G2Affine>>,
        ) -> PairingOutput<Self> {
            PairingOutput(Gt(a.into_iter().zip(b).map(|(x, y)| x.into().0 * y.into().0).sum()))
        }
    }
}
#[allow(unused)]
fn _unused(b: ark_ff::BigInt<4>) -> bool {
    BigInteger::is_zero(&b)
}

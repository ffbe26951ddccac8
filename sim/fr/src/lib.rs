//! Arithmetic modulo the BN254 scalar field order, used by the reference models and by the
//! stand-in for arkworks' field type.
use std::cmp::Ordering;

pub const P: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
/// -P^-1 mod 2^64
const INV: u64 = 0xc2e1f593efffffff;
/// 2^512 mod P
const R2: [u64; 4] = [0x1bb8e645ae216da7, 0x53fe3ab1e35c59e3, 0x8c49833d53bb8085, 0x0216d0b17f4e44a5];

/// Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fe(pub [u64; 4]);

fn adc(a: u64, b: u64, c: &mut u64) -> u64 {
    let t = a as u128 + b as u128 + *c as u128;
    *c = (t >> 64) as u64;
    t as u64
}
fn sbb(a: u64, b: u64, br: &mut u64) -> u64 {
    let t = (a as u128).wrapping_sub(b as u128).wrapping_sub(*br as u128);
    *br = ((t >> 64) as u64) & 1;
    t as u64
}
pub fn cmp4(a: &[u64; 4], b: &[u64; 4]) -> Ordering {
    for i in (0..4).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], u64) {
    let mut br = 0;
    let r = [sbb(a[0], b[0], &mut br), sbb(a[1], b[1], &mut br), sbb(a[2], b[2], &mut br), sbb(a[3], b[3], &mut br)];
    (r, br)
}
#[cfg(not(target_pointer_width = "32"))]
fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u64;
        for j in 0..4 {
            let v = t[j] as u128 + a[j] as u128 * b[i] as u128 + c as u128;
            t[j] = v as u64;
            c = (v >> 64) as u64;
        }
        let v = t[4] as u128 + c as u128;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let v = t[0] as u128 + m as u128 * P[0] as u128;
        let mut c = (v >> 64) as u64;
        for j in 1..4 {
            let v = t[j] as u128 + m as u128 * P[j] as u128 + c as u128;
            t[j - 1] = v as u64;
            c = (v >> 64) as u64;
        }
        let v = t[4] as u128 + c as u128;
        t[3] = v as u64;
        t[4] = t[5] + ((v >> 64) as u64);
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || cmp4(&r, &P) != Ordering::Less {
        sub4(&r, &P).0
    } else {
        r
    }
}

/// The same in 32-bit limbs, which wasm32 multiplies natively.
#[cfg(any(test, target_pointer_width = "32"))]
fn mont_mul32(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let w = |v: &[u64; 4], i: usize| (v[i / 2] >> (32 * (i % 2))) & 0xffff_ffff;
    let mut al = [0u64; 8];
    let mut pl = [0u64; 8];
    for i in 0..8 {
        al[i] = w(a, i);
        pl[i] = w(&P, i);
    }
    let mut t = [0u64; 9];
    for i in 0..8 {
        let bi = w(b, i);
        let mut c = 0u64;
        for j in 0..8 {
            let v = t[j] + al[j] * bi + c;
            t[j] = v & 0xffff_ffff;
            c = v >> 32;
        }
        let v = t[8] + c;
        t[8] = v & 0xffff_ffff;
        let top = v >> 32;
        let m = t[0].wrapping_mul(INV & 0xffff_ffff) & 0xffff_ffff;
        let mut c = (t[0] + m * pl[0]) >> 32;
        for j in 1..8 {
            let v = t[j] + m * pl[j] + c;
            t[j - 1] = v & 0xffff_ffff;
            c = v >> 32;
        }
        let v = t[8] + c;
        t[7] = v & 0xffff_ffff;
        t[8] = top + (v >> 32);
    }
    let r = [t[0] | t[1] << 32, t[2] | t[3] << 32, t[4] | t[5] << 32, t[6] | t[7] << 32];
    if t[8] != 0 || cmp4(&r, &P) != Ordering::Less {
        sub4(&r, &P).0
    } else {
        r
    }
}
#[cfg(target_pointer_width = "32")]
use mont_mul32 as mont_mul;

impl Fe {
    pub const ZERO: Fe = Fe([0; 4]);
    pub fn one() -> Fe {
        Fe::from_u64(1)
    }
    pub fn from_u64(v: u64) -> Fe {
        Fe::from_canon([v, 0, 0, 0])
    }
    pub fn from_i64(v: i64) -> Fe {
        if v < 0 { Fe::from_u64(v.unsigned_abs()).neg() } else { Fe::from_u64(v as u64) }
    }
    /// From any 256-bit integer (reduced).
    pub fn from_canon(mut v: [u64; 4]) -> Fe {
        while cmp4(&v, &P) != Ordering::Less {
            v = sub4(&v, &P).0;
        }
        Fe(mont_mul(&v, &R2))
    }
    pub fn canon(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn add(&self, o: &Fe) -> Fe {
        let mut c = 0;
        let r = [
            adc(self.0[0], o.0[0], &mut c),
            adc(self.0[1], o.0[1], &mut c),
            adc(self.0[2], o.0[2], &mut c),
            adc(self.0[3], o.0[3], &mut c),
        ];
        if cmp4(&r, &P) != Ordering::Less { Fe(sub4(&r, &P).0) } else { Fe(r) }
    }
    pub fn sub(&self, o: &Fe) -> Fe {
        let (r, b) = sub4(&self.0, &o.0);
        if b != 0 {
            let mut c = 0;
            Fe([adc(r[0], P[0], &mut c), adc(r[1], P[1], &mut c), adc(r[2], P[2], &mut c), adc(r[3], P[3], &mut c)])
        } else {
            Fe(r)
        }
    }
    pub fn neg(&self) -> Fe {
        Fe::ZERO.sub(self)
    }
    pub fn mul(&self, o: &Fe) -> Fe {
        Fe(mont_mul(&self.0, &o.0))
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn pow(&self, e: &[u64]) -> Fe {
        let mut r = Fe::one();
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                r = r.mul(&r);
                if (w >> i) & 1 == 1 {
                    r = r.mul(self);
                }
            }
        }
        r
    }
    pub fn inv(&self) -> Option<Fe> {
        if self.is_zero() {
            return None;
        }
        let (e, _) = sub4(&P, &[2, 0, 0, 0]);
        Some(self.pow(&e))
    }
    pub fn to_le(&self) -> [u8; 32] {
        let c = self.canon();
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&c[i].to_le_bytes());
        }
        b
    }
    /// None when >= P.
    pub fn from_le_checked(b: &[u8; 32]) -> Option<Fe> {
        let mut v = [0u64; 4];
        for i in 0..4 {
            v[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        if cmp4(&v, &P) != Ordering::Less { None } else { Some(Fe::from_canon(v)) }
    }
    /// Any length, reduced.
    pub fn from_le_mod(b: &[u8]) -> Fe {
        let mut r = Fe::ZERO;
        let f = Fe::from_u64(256);
        for &x in b.iter().rev() {
            r = r.mul(&f).add(&Fe::from_u64(x as u64));
        }
        r
    }
    /// Signed decimal text, reduced.
    pub fn from_dec(s: &str) -> Option<Fe> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let ten = Fe::from_u64(10);
        let mut r = Fe::ZERO;
        for c in d.bytes() {
            r = r.mul(&ten).add(&Fe::from_u64((c - b'0') as u64));
        }
        Some(if neg { r.neg() } else { r })
    }
    pub fn to_dec(&self) -> String {
        let mut v = self.canon();
        if v == [0; 4] {
            return "0".into();
        }
        let mut out = vec![];
        while v != [0; 4] {
            let mut rem = 0u128;
            for i in (0..4).rev() {
                let cur = (rem << 64) | v[i] as u128;
                v[i] = (cur / 10) as u64;
                rem = cur % 10;
            }
            out.push(b'0' + rem as u8);
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
}
impl std::fmt::Debug for Fe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_dec())
    }
}
pub fn p_bytes() -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&P[i].to_le_bytes());
    }
    b
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        let a = Fe::from_dec("21888242871839275222246405745257275088548364400416034343698204186575808495616").unwrap();
        assert_eq!(a, Fe::one().neg());
        assert_eq!(a.mul(&a), Fe::one());
        let x = Fe::from_dec("123456789012345678901234567890").unwrap();
        assert_eq!(x.to_dec(), "123456789012345678901234567890");
        assert_eq!(x.mul(&x.inv().unwrap()), Fe::one());
        assert_eq!(Fe::from_le_checked(&x.to_le()), Some(x));
        assert_eq!(Fe::from_le_mod(&p_bytes()), Fe::ZERO);
        assert_eq!(Fe::from_u64(5).sub(&Fe::from_u64(7)), Fe::from_i64(-2));
        assert_eq!(x.mul(&x).to_dec(), "15241578753238836750495351562536198787501905199875019052100");
    }
    #[test]
    fn narrow_limbs_agree() {
        let mut v = [0x9e3779b97f4a7c15u64, 2, 3, 4];
        for i in 0..100000u64 {
            for x in v.iter_mut() {
                *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + i);
            }
            let a = Fe::from_canon([v[0], v[1], v[2], v[3] >> 3]);
            let b = Fe::from_canon([v[3], v[0], v[2], v[1] >> 3]);
            assert_eq!(mont_mul(&a.0, &b.0), mont_mul32(&a.0, &b.0));
        }
    }
}

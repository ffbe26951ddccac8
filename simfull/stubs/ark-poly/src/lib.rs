//! Stand-in for ark-poly: radix-2 evaluation domains.
use ark_ff::FftField;

pub trait EvaluationDomain<F: FftField>: Copy + Clone + Sized {
    fn new(num_coeffs: usize) -> Option<Self>;
    fn size(&self) -> usize;
    fn group_gen(&self) -> F;
    fn element(&self, i: usize) -> F {
        self.group_gen().pow([i as u64])
    }
    fn elements(&self) -> std::vec::IntoIter<F> {
        let mut v = Vec::with_capacity(self.size());
        let mut e = F::ONE;
        for _ in 0..self.size() {
            v.push(e);
            e = e * self.group_gen();
        }
        v.into_iter()
    }
    fn evaluate_vanishing_polynomial(&self, tau: F) -> F {
        tau.pow([self.size() as u64]) - F::ONE
    }
    fn evaluate_all_lagrange_coefficients(&self, tau: F) -> Vec<F> {
        let els: Vec<F> = self.elements().collect();
        if let Some(k) = els.iter().position(|e| *e == tau) {
            let mut v = vec![F::ZERO; els.len()];
            v[k] = F::ONE;
            return v;
        }
        let z = self.evaluate_vanishing_polynomial(tau) * F::from(self.size() as u64).inverse().unwrap();
        els.iter().map(|w| z * *w * (tau - *w).inverse().unwrap()).collect()
    }
    fn fft(&self, coeffs: &[F]) -> Vec<F> {
        self.elements().map(|x| coeffs.iter().rev().fold(F::ZERO, |a, c| a * x + *c)).collect()
    }
    fn ifft(&self, evals: &[F]) -> Vec<F> {
        let n = self.size();
        let inv = F::from(n as u64).inverse().unwrap();
        let gi = self.group_gen().inverse().unwrap();
        (0..n)
            .map(|i| {
                let x = gi.pow([i as u64]);
                let mut p = F::ONE;
                let mut s = F::ZERO;
                for j in 0..n {
                    s += evals.get(j).copied().unwrap_or(F::ZERO) * p;
                    p *= x;
                }
                s * inv
            })
            .collect()
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Radix2EvaluationDomain<F> {
    n: usize,
    g: F,
}
pub type GeneralEvaluationDomain<F> = Radix2EvaluationDomain<F>;
impl<F: FftField> Radix2EvaluationDomain<F> {
    pub fn new(n: usize) -> Option<Self> {
        <Self as EvaluationDomain<F>>::new(n)
    }
}
impl<F: FftField> EvaluationDomain<F> for Radix2EvaluationDomain<F> {
    fn new(n: usize) -> Option<Self> {
        let n = n.checked_next_power_of_two()?;
        Some(Radix2EvaluationDomain { n, g: F::get_root_of_unity(n as u64)? })
    }
    fn size(&self) -> usize {
        self.n
    }
    fn group_gen(&self) -> F {
        self.g
    }
}

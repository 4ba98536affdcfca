use super::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

fn fft<F: IsFFTField>(
    v: &mut [FieldElement<F>],
    root: FieldElement<F>,
) {
    let n = v.len();
    if n <= 1 {
        return;
    }
    let lg = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - lg);
        if i < j {
            v.swap(i, j);
        }
    }
    let mut pows = Vec::with_capacity(n / 2);
    let mut c = FieldElement::<F>::one();
    for _ in 0..n / 2 {
        pows.push(c.clone());
        c = &c * &root;
    }
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let t = &v[s + k + len / 2] * &pows[k * step];
                let u = v[s + k].clone();
                v[s + k] = &u + &t;
                v[s + k + len / 2] = &u - &t;
            }
        }
        len *= 2;
    }
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = core::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        if !len.is_power_of_two() {
            return Err(FFTError::InputError(len));
        }
        if len > 1 {
            let root = F::get_primitive_root_of_unity(len.trailing_zeros() as u64)?;
            fft(&mut coeffs, root);
        }
        Ok(coeffs)
    }
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }
    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Self, FFTError> {
        let n = fft_evals.len();
        if !n.is_power_of_two() {
            return Err(FFTError::InputError(n));
        }
        let mut v = fft_evals.to_vec();
        if n > 1 {
            let root = F::get_primitive_root_of_unity(n.trailing_zeros() as u64)?;
            fft(&mut v, root.inv());
        }
        let ninv = FieldElement::<F>::from(n as u64).inv();
        for x in v.iter_mut() {
            *x = &*x * &ninv;
        }
        Ok(Polynomial::new(&v))
    }
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Self, FFTError> {
        let scaled = Polynomial::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}

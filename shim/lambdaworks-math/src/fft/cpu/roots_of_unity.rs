use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
/// `count` powers of the 2^n-th primitive root, multiplied by `offset`, in natural order.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    let mut v = Vec::with_capacity(count);
    let mut cur = offset.clone();
    for _ in 0..count {
        v.push(cur.clone());
        cur = &cur * &root;
    }
    Ok(v)
}
pub fn get_powers_of_primitive_root<F: IsFFTField>(
    n: u64,
    count: usize,
    _config: crate::field::traits::RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    get_powers_of_primitive_root_coset(n, count, &FieldElement::one())
}

use crate::field::{element::FieldElement, traits::IsField};
pub fn next_power_of_two(n: u64) -> u64 {
    if n <= 1 {
        1
    } else {
        n.next_power_of_two()
    }
}
pub fn resize_to_next_power_of_two<F: IsField>(trace_colums: &mut [Vec<FieldElement<F>>]) {
    trace_colums.iter_mut().for_each(|col| {
        let n = next_power_of_two(col.len() as u64) as usize;
        col.resize(n, FieldElement::<F>::zero())
    })
}

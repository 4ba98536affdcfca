// ---- prelude: evaluation domains ----------------------------------------------------------------
/// The domain of this AIR: n-th roots of unity, and offset times the (n blowup)-th ones, in natural order.
pub open spec fn domain_of(d: Domain, air: &VxAir) -> bool {
    let n = air.s_trace_length(); let b = air.s_options().blowup_factor as int;
    &&& d.root_order == log2(n) && d.lde_root_order == log2(n * b) && d.blowup_factor == b && d.interpolation_domain_size == n
    &&& d.coset_offset@ == air.s_options().coset_offset && d.trace_primitive_root@ == omega(log2(n))
    &&& d.trace_roots_of_unity@.len() == n && forall|i: int| 0 <= i < n ==> congr((#[trigger] d.trace_roots_of_unity@[i])@, ipow(omega(log2(n)), i as nat))
    &&& d.lde_roots_of_unity_coset@.len() == n * b && forall|i: int| 0 <= i < n * b ==> congr((#[trigger] d.lde_roots_of_unity_coset@[i])@, air.s_options().coset_offset * ipow(omega(log2(n * b)), i as nat))
}
